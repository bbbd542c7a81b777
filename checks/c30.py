"""
C30: image encoders/decoders and the training log.  Every class x image size x
channel layout x latent size x batch composition of a family is explored: the
shapes are the documented ones, every sample of a batch is treated
independently of the others (all subsets and orders of a small batch),
latent mean / log-variance and reconstruction are exactly those of a network
with the same parameters restored elsewhere, parameters all take part.  The
log is driven through every history of operations up to a depth.
"""
import copy
import io
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.encoders as enc  # noqa: E402

PAIRS = {
    "linear": (enc.LinearEncoder1, enc.LinearDecoder1,
               [(4, 4), (3, 7), (8, 5), (1, 1)]),
    # each halving of the picture is exact
    "cnn1": (enc.CNNEncoder1, enc.CNNDecoder1,
             [(4, 4), (8, 8), (16, 8), (12, 20)]),
    # 4 * inner + 16 pixels per side
    "cnn2": (enc.CNNEncoder2, enc.CNNDecoder2, [(48, 48), (48, 56),
                                                (60, 48)]),
}


def tasks(tier):
    ts = []
    for name, (_, _, sizes) in PAIRS.items():
        for s in sizes:
            for gray in (True, False):
                ts.append(("net", name, s, gray, tier))
    ts += [("odd", n) for n in ("linear", "cnn1", "cnn2")]
    ts += [("log", tier, i) for i in range(len(LOG_OPS))]
    return ts


def same(a, b, tol=1e-5):
    return a.shape == b.shape and bool(
        (a - b).abs().max() <= tol * max(1., float(b.abs().max())))


def net(cx, task):
    _, name, (w, h), gray, tier = task
    E, D, _ = PAIRS[name]
    nc = 2 if gray else 6
    for z in ((1, 3) if tier == "quick" else (1, 2, 3, 5)):
        torch.manual_seed(11 * z + w)
        e, d = E(z, w, h, gray), D(z, w, h, gray)
        where = dict(kind=name, size=[w, h], gray=gray, z=z)
        B = 3
        x = torch.rand(B, nc, w, h)
        x[1] = 0.
        keep = x.clone()
        out = e(x)
        cx.trans()
        if not isinstance(out, tuple) or len(out) != 2:
            cx.fail("encoder: returns mean and log variance", **where)
            return
        mean, logvar = out
        if mean.shape != (B, z) or logvar.shape != (B, z):
            cx.fail("encoder: shape", got=[list(mean.shape),
                                           list(logvar.shape)], **where)
            return
        code = torch.randn(B, z) * 3
        ckeep = code.clone()
        y = d(code)
        if y.shape != (B, nc, w, h):
            cx.fail("decoder: shape", got=list(y.shape), **where)
            return
        if not (bool((y >= 0).all()) and bool((y <= 1).all())):
            cx.fail("decoder: values outside [0, 1]", **where)
            return
        if not (torch.equal(x, keep) and torch.equal(code, ckeep)):
            cx.fail("argument modified", **where)
            return
        # every sub-batch, in every order
        for k in range(1, B + 1):
            for sub in itertools.permutations(range(B), k):
                cx.states()
                cx.trans(2)
                sub = list(sub)
                m, v = e(x[sub])
                if not (same(m, mean[sub]) and same(v, logvar[sub])):
                    cx.fail("encoder: samples of a batch interact", sub=sub,
                            **where)
                    return
                if not same(d(code[sub]), y[sub]):
                    cx.fail("decoder: samples of a batch interact", sub=sub,
                            **where)
                    return
        # the same parameters elsewhere: the same function
        buf = io.BytesIO()
        torch.save({"e": e.state_dict(), "d": d.state_dict()}, buf)
        buf.seek(0)
        sd = torch.load(buf)
        e2, d2 = E(z, w, h, gray), D(z, w, h, gray)
        e2.load_state_dict(sd["e"])
        d2.load_state_dict(sd["d"])
        m2, v2 = e2(x)
        cx.trans(2)
        if not (same(m2, mean) and same(v2, logvar) and same(d2(code), y)):
            cx.fail("restored network computes something else", **where)
            return
        e3 = copy.deepcopy(e).double()
        m3, v3 = e3(x.double())
        d3 = copy.deepcopy(d).double()
        if not (same(m3.float(), mean, 1e-4) and same(v3.float(), logvar,
                                                      1e-4)
                and same(d3(code.double()).float(), y, 1e-4)):
            cx.fail("double precision disagrees", **where)
            return
        # every parameter influences the result, mean and log variance are
        # separate outputs
        reach_m, reach_v = set(), set()
        for k in range(z):
            for t, got in ((mean, reach_m), (logvar, reach_v)):
                gr = torch.autograd.grad(t[:, k].sum(), list(e.parameters()),
                                         retain_graph=True, allow_unused=True)
                for i, q in enumerate(gr):
                    if q is not None and bool((q != 0).any()):
                        got.add(i)
                last = gr[-1]
                if last is None or float(last.abs().sum()) != B:
                    cx.fail("latent outputs are not separate", k=k, **where)
                    return
        n = len(list(e.parameters()))
        if reach_m != set(range(n)) or reach_v != set(range(n)):
            cx.fail("encoder: parameters without influence",
                    unused=sorted(set(range(n)) - (reach_m & reach_v)),
                    **where)
            return
        biases = [torch.autograd.grad(t[0, k], list(e.parameters()),
                                      retain_graph=True)[-1]
                  for t in (mean, logvar) for k in range(z)]
        hot = [int(b.abs().argmax()) for b in biases]
        if len(set(hot)) != 2 * z:
            cx.fail("mean and log variance share an output", **where)
            return
        gr = torch.autograd.grad(y.sum(), list(d.parameters()),
                                 allow_unused=True)
        if any(q is None or not bool((q != 0).any()) for q in gr):
            cx.fail("decoder: parameters without influence", **where)
            return
        # both pictures and every channel are seen, every latent entry is used
        xx = x[:1].clone().requires_grad_(True)
        m, v = e(xx)
        g = torch.autograd.grad((m * torch.randn_like(m)).sum() + v.sum(),
                                xx)[0]
        if not bool((g.abs().sum(dim=(0, 2, 3)) > 0).all()):
            cx.fail("encoder: a channel is ignored", **where)
            return
        cc = code.clone().requires_grad_(True)
        J = torch.autograd.grad((d(cc) * torch.rand_like(y)).sum(), cc)[0]
        if not bool((J.abs().sum(dim=0) > 0).all()):
            cx.fail("decoder: a latent entry is ignored", **where)
            return
        cx.outcome(name, w, h, gray, z)
        cx.traces()
    cx.sample(**where)


def odd(cx, task):
    """ encoders accept every size, not only those the decoder can invert """
    E = PAIRS[task[1]][0]
    lo = 30 if task[1] == "cnn2" else 4
    step = 7 if task[1] == "cnn2" else 1
    for w, h in itertools.product(range(lo, lo + 8 * step, step), repeat=2):
        cx.states()
        cx.trans()
        try:
            m, v = E(2, w, h, True)(torch.rand(2, 2, w, h))
        except RuntimeError as exc:
            if task[1] == "cnn2" and "size" in str(exc) and min(w, h) < 45:
                cx.count("picture too small for the kernels")
                continue
            raise
        if m.shape != (2, 2) or v.shape != (2, 2):
            cx.fail("encoder: shape (odd sizes)", kind=task[1], size=[w, h])
            return
        cx.outcome(task[1], w, h)
    cx.traces()


class Writer:
    def __init__(self):
        self.rec = []

    def add_scalars(self, tag, values, step):
        self.rec.append((tag, dict(values), step))


LOG_OPS = ["train", "validation", "copy keep", "copy new prefix",
           "copy first", "back to the original", "copy without prefix",
           "copy own writer"]


class RefLog:
    def __init__(self, dim, prefix, first):
        self.dim, self.prefix, self.first = dim, prefix, first
        self.train, self.val, self.rec = [], [], []

    def add(self, kind, loss):
        (self.train if kind == "Train" else self.val).append(list(loss))
        if self.first:
            self.rec.append((kind, {self.prefix: loss[0]}, len(self.train)))
        else:
            for i in range(self.dim):
                self.rec.append((f"{kind}_{i}", {self.prefix: loss[i]},
                                 len(self.train)))


def log(cx, task):
    """ every history of additions and copies """
    import neural_network_lyapunov.training_log as training_log
    TrainingLog = training_log.TrainingLog
    training_log.SummaryWriter = Writer
    _, tier, part = task
    ops = LOG_OPS
    depth = 4 if tier == "quick" else 5
    for dim, first, arr in itertools.product((1, 2), (False, True),
                                             ("np", "torch")):
        for tail in itertools.product(ops, repeat=depth - 1):
            seq = (ops[part], ) + tail
            cx.states()
            w = Writer()
            real = TrainingLog(dim, prefix="a", writer=w,
                               first_value_only=first)
            ref = RefLog(dim, "a", first)
            logs = [(real, ref)]
            cur = 0
            for k, op in enumerate(seq):
                r, q = logs[cur]
                loss = [k + 1. + i / 4 + 10 * cur for i in range(dim)]
                data = np.array(loss) if arr == "np" else torch.tensor(loss)
                cx.trans()
                if op == "train":
                    r.add_train_loss(data)
                    q.add("Train", loss)
                elif op == "validation":
                    r.add_validation_loss(data)
                    q.add("Validation", loss)
                elif op.startswith("copy"):
                    kw = dict(keep_writer=True)
                    p, f = q.prefix, q.first
                    if op == "copy new prefix":
                        p = kw["prefix"] = q.prefix + "b"
                    if op == "copy without prefix":
                        p = kw["prefix"] = ""
                    if op == "copy own writer":
                        kw = {}
                    if op == "copy first":
                        f = kw["first_value_only"] = not q.first
                    c = TrainingLog.get_copy(r, **kw)
                    cq = RefLog(q.dim, p, f)
                    cq.train = [list(v) for v in q.train]
                    cq.val = [list(v) for v in q.val]
                    if op == "copy own writer":
                        if c.writer is r.writer:
                            cx.fail("log: a copy shares the writer unasked",
                                    history=list(seq))
                            return
                    else:
                        cq.rec = q.rec  # the same writer
                        if c.writer is not r.writer:
                            cx.fail("log: the writer is not kept",
                                    history=list(seq))
                            return
                    logs.append((c, cq))
                    cur = len(logs) - 1
                else:
                    cur = 0
            where = dict(history=list(seq), dim=dim, first=first, kind=arr)
            for r, q in logs:
                for name, g, want in (("train", r.train_losses, q.train),
                                      ("validation", r.validation_losses,
                                       q.val)):
                    want = np.array(want).reshape((len(want), dim))
                    if np.asarray(g).shape != want.shape or \
                            not np.allclose(np.asarray(g), want):
                        cx.fail(f"log: {name} losses", got=g, want=want,
                                **where)
                        return
            for r, q in logs:
                got = [(t, {k: float(v) for k, v in d.items()}, s)
                       for t, d, s in r.writer.rec]
                if got != q.rec:
                    cx.fail("log: what was written", got=got, want=q.rec,
                            **where)
                    return
            cx.outcome(seq, dim)
            cx.traces()
    cx.sample(**where)


def work(cx, task):
    {"net": net, "odd": odd, "log": log}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main("C30", tasks, work,
            rule="every encoder/decoder class x picture size x colour mode x "
            "latent size, every ordered sub-batch of a batch; every history "
            "of additions and copies of the training log up to the depth; "
            "states = sub-batches or histories",
            assumptions=["decoders are only compared for picture sizes their "
                         "halvings divide exactly"])

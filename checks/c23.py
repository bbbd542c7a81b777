"""
C23: the line-search optimisers.  The closure is a nondeterministic adversary:
at every evaluation it may answer "clearly good", "good enough for Armijo's
rule only at this step length", "slightly too little", "worse" or NaN.  Every
sequence of answers, over every history of up to K steps (gradients from an
alphabet, optionally a save/restore of the optimiser between the steps), for
every configuration, is explored; after each evaluation the parameters must be
the start point plus the reference step of the current trial, the search must
stop exactly where the documented rule says, and the value returned must be
the loss at the parameters left behind.
"""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.line_search_adam as lsa  # noqa: E402
import neural_network_lyapunov.line_search_gd as lsg  # noqa: E402

DT = torch.float64
START = [torch.tensor([[1., -2.], [.5, .25]], dtype=DT),
         torch.tensor([.75], dtype=DT)]
GRADS = [
    [torch.tensor([[1., .5], [-.25, 2.]], dtype=DT),
     torch.tensor([-1.], dtype=DT)],
    [torch.tensor([[-.5, 1.], [0., -1.5]], dtype=DT),
     torch.tensor([2.], dtype=DT)],
    [torch.tensor([[.25, 0.], [1., 0.]], dtype=DT),
     torch.tensor([0.5], dtype=DT)],
]
ANSWERS = ("good", "armijo", "short", "worse", "nan")


class RefGD:
    def __init__(self, cfg, n):
        self.cfg = cfg
        self.buf = [None] * n

    def direction(self, params, grads, lrs):
        c = self.cfg
        ds = []
        for i, (p, g) in enumerate(zip(params, grads)):
            if g is None:
                ds.append(torch.zeros_like(p))
                continue
            g = g + c["weight_decay"] * p
            if c["momentum"]:
                if self.buf[i] is None:
                    self.buf[i] = g.clone()
                else:
                    self.buf[i] = c["momentum"] * self.buf[i] + (
                        1 - c["dampening"]) * g
                g = g + c["momentum"] * self.buf[i] if c["nesterov"] else \
                    self.buf[i]
            ds.append(-g)
        return ds, list(lrs)


class RefAdam:
    def __init__(self, cfg, n):
        self.cfg = cfg
        self.m = [0.] * n
        self.v = [0.] * n
        self.vmax = [None] * n
        self.k = [0] * n

    def direction(self, params, grads, lrs):
        c = self.cfg
        b1, b2 = c["betas"]
        ds, ts = [], []
        for i, (p, g) in enumerate(zip(params, grads)):
            if g is None:
                ds.append(torch.zeros_like(p))
                ts.append(0.)
                continue
            self.k[i] += 1
            g = g + c["weight_decay"] * p
            self.m[i] = b1 * self.m[i] + (1 - b1) * g
            self.v[i] = b2 * self.v[i] + (1 - b2) * g * g
            v = self.v[i]
            if c["amsgrad"]:
                self.vmax[i] = v if self.vmax[i] is None else torch.maximum(
                    self.vmax[i], v)
                v = self.vmax[i]
            denom = torch.sqrt(v) / math.sqrt(1 - b2**self.k[i]) + c["eps"]
            ds.append(-self.m[i] / denom)
            ts.append(lrs[i] / (1 - b1**self.k[i]))
        return ds, ts


GD_CONFIGS = [
    dict(momentum=m, dampening=d, weight_decay=w, nesterov=n)
    for m, d, w, n in ((0, 0, 0, False), (.9, 0, 0, False), (.5, .25, 0, False),
                       (.9, 0, 0, True), (0, 0, .125, False),
                       (.5, .5, .25, False), (.5, 0, .125, True))
]
ADAM_CONFIGS = [
    dict(betas=b, eps=e, weight_decay=w, amsgrad=a)
    for b, e, w, a in (((.9, .999), 1e-8, 0, False), ((.5, .75), 1e-3, 0,
                                                      False),
                       ((.9, .5), 1e-8, 0, True), ((.5, .75), 1e-8, .125,
                                                   False),
                       ((0., .75), 1e-8, .25, True))
]
SEARCH = [  # c1, reduction, min step, min improvement
    (1e-1, .5, .2, 0.),
    (1e-1, .2, 1e-2, 0.),
    (.25, .5, .2, .125),
    (1e-4, .2, 1e-1, .5),
]


def tasks(tier):
    ret = []
    for kind, configs in (("gd", GD_CONFIGS), ("adam", ADAM_CONFIGS)):
        for cfg, s in itertools.product(range(len(configs)),
                                        range(len(SEARCH))):
            for groups in ("one", "two"):
                for nodec in ((False, True) if kind == "adam" and
                              groups == "one" else (False, )):
                    ret.append(("adv", kind, cfg, s, groups, nodec,
                                2 if tier == "quick" else 3, 0))
                    if groups == "one" and not nodec:
                        ret.append(ret[-1][:-1] + (2, ))
    if tier == "thorough":
        # a second ordering of gradients
        ret += [t[:-1] + (1, ) for t in ret if t[-1] == 0]
    for kind, configs in (("gd", GD_CONFIGS), ("adam", ADAM_CONFIGS)):
        for cfg in range(len(configs)):
            ret.append(("real", kind, cfg))
    ret.append(("args", ))
    return ret


def make(kind, cfg, s, groups, params, lrs, nodec=False):
    c1, red, minstep, impr = s
    kw = dict(cfg)
    kw.update(loss_minimal_decrement=None if nodec else c1,
              step_size_reduction=red,
              min_step_size_decrease=minstep, min_improvement=impr)
    cls = lsg.LineSearchGD if kind == "gd" else lsa.LineSearchAdam
    if groups == "one":
        return cls(params, lr=lrs[0], **kw)
    return cls([{"params": [params[0]], "lr": lrs[0]},
                {"params": [params[1]], "lr": lrs[1]}], lr=.125, **kw)


def run_history(cx, task, choices):
    """ Replays `choices` (one answer per evaluation; beyond them the first
    enabled answer) and returns, per evaluation, the enabled answers. """
    _, kind, ci, si, groups, nodec, K, perm = task
    cfg = (GD_CONFIGS if kind == "gd" else ADAM_CONFIGS)[ci]
    s = SEARCH[si]
    c1, red, minstep, impr = s
    lrs = [.5, .5] if groups == "one" else [.5, .25]
    params = [torch.nn.Parameter(t.clone()) for t in START]
    opt = make(kind, cfg, s, groups, params, lrs, nodec)
    ref = (RefGD if kind == "gd" else RefAdam)(cfg, 2)
    trail = []  # (number of enabled answers) per evaluation
    log = []
    tag = f"{kind}"
    wd = cfg["weight_decay"] != 0
    for step in range(K):
        g = GRADS[(step + perm) % len(GRADS)]
        if perm == 2 and step == 0:
            # the second parameter does not take part in the first loss
            g = [g[0], None]
        p0 = [p.detach().clone() for p in params]
        for p, gi in zip(params, g):
            if p.grad is None or step % 2 == 0:
                p.grad = None if gi is None else gi.clone()
            else:
                # zero_grad() followed by backward() writes in place
                p.grad.zero_()
                p.grad.add_(gi)
        ds, ts = ref.direction(p0, g, lrs)
        slope = sum(float(t * (gi * d).sum())
                    for t, gi, d in zip(ts, g, ds) if gi is not None)
        loss0 = 4. - step
        st = {"k": 0, "last": None, "accepted": False, "bad": None}

        def closure():
            k = st["k"]
            alpha = red**k
            st["k"] += 1
            if st["accepted"]:
                st["bad"] = ("search goes on after an acceptable step", k)
            want = [p + alpha * t * d for p, t, d in zip(p0, ts, ds)]
            got = [p.detach() for p in params]
            if not all(torch.allclose(w, q, atol=1e-9, rtol=1e-9)
                       for w, q in zip(want, got)):
                st["bad"] = ("trial point", k, want, got)
            # the documented rule
            thr = loss0 + (c1 * alpha * slope if not nodec else 0.)
            lim = min(thr, loss0 - impr)
            opts = {}
            opts["good"] = (min(lim, loss0) - 8., True)
            # differs from the threshold of another step length
            if slope < 0 and not wd and not nodec and thr <= loss0 - impr:
                gap = c1 * alpha * -slope
                opts["armijo"] = (thr - gap / 64, True)
                opts["short"] = (thr + gap / 64, False)
            elif impr > 0 and slope < 0 and not wd:
                opts["armijo"] = (loss0 - impr - impr / 64, True) \
                    if thr > loss0 - impr else opts["good"]
                opts["short"] = (loss0 - impr + impr / 64, False)
            opts["worse"] = (loss0 + 2., False)
            if k == 0:
                opts["nan"] = (float("nan"), False)
            names = [a for a in ANSWERS if a in opts]
            n = len(trail)
            pick = names[choices[n]] if n < len(choices) else names[0]
            trail.append(len(names))
            value, acc = opts[pick]
            st["accepted"] = acc
            st["last"] = value
            log.append(pick)
            cx.trans()
            return torch.tensor(value, dtype=DT)

        loss = opt.step(closure, loss0)
        detail = dict(config=cfg, search=s, groups=groups, answers=list(log),
                      step=step, nodec=nodec)
        if st["bad"] is not None:
            cx.fail(f"{tag}: {st['bad'][0]}", info=st["bad"][1:], **detail)
            return trail
        # number of trials when nothing is acceptable
        a, nmax = 1., 0
        while a > minstep * (1 + 1e-9):
            nmax += 1
            a *= red
        if not st["accepted"] and st["k"] != nmax:
            cx.fail(f"{tag}: number of trials", got=st["k"], want=nmax,
                    **detail)
            return trail
        lv = float(loss)
        if not (lv == st["last"] or (math.isnan(lv)
                                     and math.isnan(st["last"]))):
            cx.fail(f"{tag}: returned loss is not the loss of the final point",
                    got=lv, want=st["last"], **detail)
            return trail
        alpha = red**(st["k"] - 1)
        want = [p + alpha * t * d for p, t, d in zip(p0, ts, ds)]
        if not all(torch.allclose(w, p.detach(), atol=1e-9, rtol=1e-9)
                   for w, p in zip(want, params)):
            cx.fail(f"{tag}: final point", **detail)
            return trail
        cx.states()
        # save / restore between the steps of the history
        if step == 0:
            sd = opt.state_dict()
            opt2 = make(kind, cfg, s, groups, params, lrs, nodec)
            opt2.load_state_dict(sd)
            opt = opt2
    cx.traces()
    cx.outcome(kind, tuple(log))
    return trail


def explore(cx, task):
    """ depth-first over the adversary's answers """
    K = task[6]
    stack = [()]
    seen = 0
    while stack:
        if cx.out_of_time():
            return
        ch = stack.pop()
        trail = run_history(cx, task, ch)
        seen += 1
        if len(cx.fails) >= 3:
            return
        for n in range(len(ch), len(trail)):
            for alt in range(1, trail[n]):
                stack.append(tuple(ch) + (0, ) * (n - len(ch)) + (alt, ))
    cx.count("histories", seen)
    cx.sample(task=task, histories=seen)


def real(cx, task):
    """ real losses: the loss never increases above the accepted bound, and
    the optimum of a convex quadratic is approached monotonically """
    _, kind, ci = task
    cfg = (GD_CONFIGS if kind == "gd" else ADAM_CONFIGS)[ci]
    for s in SEARCH:
        for scale in (.25, 1., 8.):
            for lr in (.01, .5, 4.):
                params = [torch.nn.Parameter(t.clone()) for t in START]
                opt = make(kind, cfg, s, "one", params, [lr, lr])

                def f():
                    return scale * sum(((p - .5)**2).sum() for p in params)

                for it in range(6):
                    opt.zero_grad()
                    loss0 = f()
                    loss0.backward()
                    before = [p.detach().clone() for p in params]
                    loss = opt.step(f, loss0.item())
                    cx.trans()
                    if not (abs(float(loss) - float(f())) <= 1e-9 * max(
                            1., abs(float(loss)))):
                        cx.fail(f"{kind}: loss returned on a real problem",
                                cfg=cfg, search=s, scale=scale, lr=lr)
                        return
                    if all(torch.equal(a, p.detach())
                           for a, p in zip(before, params)) and any(
                               (p.grad.abs() > 1e-6).any() for p in params):
                        cx.fail(f"{kind}: no step taken", cfg=cfg, search=s,
                                scale=scale, lr=lr)
                        return
                    cx.states()
                cx.traces()
    cx.outcome(kind, ci)


def args(cx, task):
    """ bad configurations are refused """
    p = [torch.nn.Parameter(START[0].clone())]
    bad = [(lsg.LineSearchGD, dict(lr=-1.)),
           (lsg.LineSearchGD, dict(lr=.1, momentum=-.5)),
           (lsg.LineSearchGD, dict(lr=.1, weight_decay=-.5)),
           (lsg.LineSearchGD, dict(lr=.1, nesterov=True)),
           (lsg.LineSearchGD, dict(lr=.1, nesterov=True, momentum=.5,
                                   dampening=.5)),
           (lsa.LineSearchAdam, dict(lr=-1.)),
           (lsa.LineSearchAdam, dict(eps=-1.)),
           (lsa.LineSearchAdam, dict(betas=(1., .5))),
           (lsa.LineSearchAdam, dict(betas=(.5, 1.))),
           (lsa.LineSearchAdam, dict(betas=(-.1, .5)))]
    for cls, kw in bad:
        cx.states()
        try:
            cls(p, **kw)
        except ValueError:
            cx.trans()
            continue
        cx.fail("bad configuration accepted", cls=cls.__name__, kw=kw)


def work(cx, task):
    {"adv": explore, "real": real, "args": args}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main(
        "C23", tasks, work,
        rule="every optimiser configuration x line-search setting x parameter "
        "grouping; every sequence of answers of the loss function over "
        "histories of 2 (thorough 3) steps with a save/restore after the "
        "first; states = optimiser steps checked, transitions = loss "
        "evaluations",
        assumptions=["equality of the loss with an acceptance threshold is "
                     "not distinguished"])

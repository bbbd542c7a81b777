"""
C29: the training and simulation helpers.  project_gradient is explored over
every pair of gradients from an alphabet (opposed, orthogonal, zero, aligned,
equal), every mode and history of calls; the training loops are run on every
data set size x batch size x number of epochs of a family with a monitor on
the model: the batches of each epoch must partition the training part, the
parameters after each batch must be the Adam step of the documented loss on
that batch, the held-out part must not influence them.  Simulation helpers are
monitored call by call.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402

import neural_network_lyapunov.utils as utils  # noqa: E402
import neural_network_lyapunov.train_utils as train_utils  # noqa: E402

DT = torch.float64
MODES = train_utils.ProjectGradientMode


class Net(torch.nn.Module):
    """ two parameters; the losses below are linear in them, so that their
    gradients are whatever we choose """
    def __init__(self, dtype=DT):
        super().__init__()
        self.a = torch.nn.Parameter(torch.tensor([[1., 2.]], dtype=dtype))
        self.b = torch.nn.Parameter(torch.tensor([-1.], dtype=dtype))

    def dot(self, g):
        return (self.a.reshape(-1) @ g[:2]) + self.b[0] * g[2]


GRADS = [(0., 0., 0.), (1., 0., 0.), (-1., 0., 0.), (0., 2., 0.),
         (1., -2., .5), (-1., 2., -.5), (2., 1., 0.), (.5, .25, -3.),
         (-2.**-12, 1., .125)]


def projected(n1, n2, mode):
    if n1 @ n2 >= 0:
        return n1 + n2, False
    p1 = n1 - (n1 @ n2) / (n2 @ n2) * n2
    p2 = n2 - (n1 @ n2) / (n1 @ n1) * n1
    return {MODES.LOSS1: p1, MODES.LOSS2: p2, MODES.BOTH: p1 + p2,
            MODES.EMPHASIZE_LOSS1: n1 + p2,
            MODES.EMPHASIZE_LOSS2: p1 + n2}[mode], True


def project(cx, task):
    _, i, tier = task
    for dtype in (DT, torch.float32):
        for j in range(len(GRADS)):
            for mode in MODES:
                for hist in ("fresh", "zero", "none", "twice", "retain"):
                    cx.states()
                    cx.trans()
                    cx.traces()
                    net = Net(dtype)
                    g1 = torch.tensor(GRADS[i], dtype=dtype)
                    g2 = torch.tensor(GRADS[j], dtype=dtype)
                    keep = [p.detach().clone() for p in net.parameters()]
                    if hist in ("zero", "none"):
                        (net.a.sum() * 3 + net.b.sum()).backward()
                        net.zero_grad(set_to_none=hist == "none")
                    l1, l2 = net.dot(g1), net.dot(g2)
                    retain = hist in ("twice", "retain")
                    need, n1, n2 = train_utils.project_gradient(
                        net, l1, l2, mode, retain_graph=retain)
                    if hist == "twice":
                        net.zero_grad()
                        need, n1, n2 = train_utils.project_gradient(
                            net, l1, l2, mode)
                    where = dict(n1=GRADS[i], n2=GRADS[j], mode=str(mode),
                                 hist=hist)
                    want, wneed = projected(np.array(GRADS[i]),
                                            np.array(GRADS[j]), mode)
                    got = np.concatenate([p.grad.numpy().reshape(-1)
                                          for p in net.parameters()])
                    if not np.allclose(got, want, atol=1e-5):
                        cx.fail("projected gradient", got=got, want=want,
                                **where)
                        return
                    # orthogonal or zero gradients: the projection is a no-op,
                    # so whether it "is needed" makes no difference
                    if not (abs(np.dot(GRADS[i], GRADS[j])) <= 1e-9) and \
                            bool(need) != wneed:
                        cx.fail("whether projection is needed", got=need,
                                want=wneed, **where)
                        return
                    if not (torch.allclose(n1, g1)
                            and torch.allclose(n2, g2)):
                        cx.fail("the separate gradients", got=[n1, n2],
                                **where)
                        return
                    if any(p.grad.shape != p.shape or
                           p.grad.dtype != p.dtype
                           for p in net.parameters()) or any(
                            not torch.equal(p, k) for p, k in zip(
                                net.parameters(), keep)):
                        cx.fail("parameters untouched, gradients of their "
                                "shape", **where)
                        return
                    # an optimiser step must not write into n1, n2
                    with torch.no_grad():
                        for p in net.parameters():
                            p.grad += 100.
                    if not (torch.allclose(n1, g1)
                            and torch.allclose(n2, g2)):
                        cx.fail("separate gradients are copies", **where)
                        return
                    cx.outcome(np.round(want, 4), wneed, str(mode))
    # through a real network: the two losses share the graph
    for mode in MODES:
        net = utils.setup_relu((2, 3, 1), torch.from_numpy(
            np.sin(np.arange(1., 14) + i)), .1, bias=True, dtype=DT)
        x = torch.tensor([[1., -2.], [.5, .25]], dtype=DT)
        y = net(x)
        n = []
        for l in (y[0].sum(), y[1].sum() * -1):
            n.append(torch.cat([
                t.reshape(-1) for t in torch.autograd.grad(
                    l, list(net.parameters()), retain_graph=True)]).numpy())
        y = net(x)
        need, n1, n2 = train_utils.project_gradient(
            net, y[0].sum(), y[1].sum() * -1, mode)
        want, wneed = projected(n[0], n[1], mode)
        got = utils.extract_relu_parameters_grad(net).numpy()
        cx.trans()
        if not np.allclose(got, want, atol=1e-9) or bool(need) != wneed:
            cx.fail("projected gradient of a network", mode=str(mode))
    cx.sample(n1=GRADS[i], n2=GRADS[j], grad=want)


# ------------------------------------------------------------ training loops
class Recorder:
    """ Sees every evaluation of the model: the batch and the parameters at
    that time. """
    def __init__(self, params):
        self.params = params
        self.calls = []

    def note(self, x):
        self.calls.append((x.detach().clone(),
                           [p.detach().clone() for p in self.params]))

    def end(self):
        self.final = [p.detach().clone() for p in self.params]

    def updates(self):
        """ [(batch, before, after)] of the evaluations after which the
        parameters moved, and the batches after which they did not """
        moved, still = [], []
        for k, (x, before) in enumerate(self.calls):
            after = self.calls[k + 1][1] if k + 1 < len(self.calls) else \
                self.final
            if any(not torch.equal(a, b) for a, b in zip(before, after)):
                moved.append((x, before, after))
            else:
                still.append((k, x))
        return moved, still


def adam_step(state, params, grads, lr):
    state["t"] += 1
    out = []
    for k, (p, g) in enumerate(zip(params, grads)):
        m = state["m"].setdefault(k, torch.zeros_like(p))
        v = state["v"].setdefault(k, torch.zeros_like(p))
        m.mul_(.9).add_(g * .1)
        v.mul_(.999).add_(g * g * .001)
        mh = m / (1 - .9**state["t"])
        vh = v / (1 - .999**state["t"])
        out.append(p - lr * mh / (vh.sqrt() + 1e-8))
    return out


def rows(t):
    return [tuple(np.round(r, 9)) for r in t.reshape(len(t), -1).tolist()]


def dataset(n):
    x = torch.stack((torch.arange(1., n + 1, dtype=DT),
                     torch.cos(torch.arange(1., n + 1, dtype=DT))), dim=1)
    y = torch.stack((torch.sin(3 * x[:, 0]), x[:, 1] * x[:, 0] + 2), dim=1)
    return x, y


def check_moves(cx, moved, target, fn, loss, lr, where):
    state = dict(t=0, m={}, v={})
    for k, (x, before, after) in enumerate(moved):
        ps = [p.clone().requires_grad_(True) for p in before]
        y = torch.stack([target[r] for r in rows(x)])
        loss(fn(ps, x), y).backward()
        want = adam_step(state, before, [p.grad for p in ps], lr)
        cx.trans()
        if any(not ((a - b).abs().max() <= 1e-7) for a, b in zip(after, want)):
            cx.fail("parameters after a batch", step=k, got=after,
                    want=want, **where)
            return False
    return True


def linear(ps, x):
    return x @ ps[0].T + ps[1]


def fit_model(cx, task):
    """ utils.train_model """
    _, n, tier = task
    for batch in (1, 2, 3, n, n + 2):
        for epochs in (1, 3) if tier == "quick" else (1, 2, 5):
            for lr in (1e-2, .3):
                cx.states()
                cx.traces()
                x, y = dataset(n)
                model = torch.nn.Linear(2, 2).type(DT)
                with torch.no_grad():
                    model.weight.copy_(torch.tensor([[.5, -1.], [2., .25]]))
                    model.bias.copy_(torch.tensor([.1, -.2]))
                start = [p.detach().clone() for p in model.parameters()]
                rec = Recorder(list(model.parameters()))
                model.register_forward_pre_hook(lambda m, a: rec.note(a[0]))
                kx, ky = x.clone(), y.clone()
                ret = utils.train_model(model, x, y, batch_size=batch,
                                        num_epoch=epochs, learning_rate=lr)
                rec.end()
                where = dict(n=n, batch=batch, epochs=epochs, lr=lr)
                if ret is not model or not (torch.equal(x, kx)
                                            and torch.equal(y, ky)):
                    cx.fail("train_model: returns the model, keeps the data",
                            **where)
                moved, still = rec.updates()
                per = -(-n // batch)
                if len(moved) != per * epochs:
                    cx.fail("train_model: number of steps", got=len(moved),
                            want=per * epochs, **where)
                    return
                for e in range(epochs):
                    seen = sum((rows(b[0]) for b in
                                moved[e * per:(e + 1) * per]), [])
                    if sorted(seen) != sorted(rows(x)) or max(
                            len(b[0]) for b in
                            moved[e * per:(e + 1) * per]) > batch:
                        cx.fail("train_model: batches partition the data",
                                epoch=e, **where)
                        return
                target = dict(zip(rows(x), y))
                if not torch.equal(moved[0][1][0], start[0]):
                    cx.fail("train_model: starts from the model", **where)
                if not check_moves(
                        cx, moved, target, linear, lambda p, t: (
                            (p - t)**2).sum() / batch, lr, where):
                    return
                cx.outcome(n, batch, epochs, lr, moved[-1][2][0])
    cx.sample(**where)


def fit_approximator(cx, task):
    """ utils.train_approximator """
    _, n, extra, tier = task
    ntrain = int(n * .8)
    for batch in (1, 2, ntrain, ntrain + 3):
        for epochs in (1, 3) if tier == "quick" else (1, 2, 5):
            cx.states()
            cx.traces()
            x, y = dataset(n)
            model = torch.nn.Sequential(torch.nn.Linear(2, 2).type(DT))
            with torch.no_grad():
                model[0].weight.copy_(torch.tensor([[.5, -1.], [2., .25]]))
                model[0].bias.copy_(torch.tensor([.1, -.2]))
            ps = list(model.parameters())
            add = torch.tensor([1., -1.], dtype=DT, requires_grad=True)
            gain = torch.tensor([1.5], dtype=DT, requires_grad=True)
            if extra:
                ps += [add, gain]
            rec = Recorder(ps)

            def output(m, inp, scale=1.):
                rec.note(inp)
                out = m(inp)
                if extra:
                    out = out * scale * gain + add
                return out
            lr = .05
            data = torch.utils.data.TensorDataset(x, y)
            kw = {}
            if extra:
                kw = dict(additional_variable=[add, gain],
                          output_fun_args=dict(scale=2.))
            utils.train_approximator(data, model, output, batch, epochs, lr,
                                     verbose=bool(n % 2), **kw)
            rec.end()
            where = dict(n=n, batch=batch, epochs=epochs, extra=extra)
            moved, still = rec.updates()
            per = -(-ntrain // batch)
            if len(moved) != per * epochs:
                cx.fail("train_approximator: number of steps",
                        got=len(moved), want=per * epochs, **where)
                return
            train = None
            for e in range(epochs):
                seen = sorted(sum((rows(b[0]) for b in
                                   moved[e * per:(e + 1) * per]), []))
                if train is None:
                    train = seen
                if len(seen) != ntrain or len(set(seen)) != ntrain or \
                        not set(seen) <= set(rows(x)) or seen != train:
                    cx.fail("train_approximator: each epoch passes once over "
                            "the same 80 %", epoch=e, **where)
                    return
            held = set(rows(x)) - set(train)
            for k, b in still:
                if set(rows(b)) & held and not set(rows(b)) <= held:
                    cx.fail("train_approximator: held-out part apart",
                            **where)
                    return
            # what is reported after an epoch is measured on all of that part
            if n % 2 and not held <= set(sum((rows(b) for _, b in still),
                                             [])):
                cx.fail("train_approximator: held-out part not evaluated",
                        **where)
                return
            target = dict(zip(rows(x), y))

            def fn(p, z):
                out = linear(p, z)
                return out * 2. * p[3] + p[2] if extra else out
            if not check_moves(cx, moved, target, fn,
                               lambda p, t: ((p - t)**2).mean(), lr, where):
                return
            cx.outcome(n, batch, epochs, extra)
    cx.sample(**where)


# -------------------------------------------------------------- simulation
def simulation(cx, task):
    class System:
        def __init__(self):
            self.w = torch.tensor([[.5, 1.], [-.25, .75]], dtype=DT,
                                  requires_grad=True)
            self.calls = []

        def step_forward(self, x):
            self.calls.append((x.clone(), torch.is_grad_enabled()))
            return self.w @ x + .1

    for steps in (0, 1, 2, 5):
        for start in ([1., -2.], [0., 0.], [3., .5]):
            cx.states()
            cx.trans()
            cx.traces()
            s = System()
            x0 = torch.tensor(start, dtype=DT)
            path = utils.step_system(s, x0, steps)
            x = np.array(start)
            want = [x]
            for _ in range(steps):
                x = s.w.detach().numpy() @ x + .1
                want.append(x)
            if len(path) != steps + 1 or not np.allclose(
                    np.stack([p.numpy() for p in path]), want) or any(
                        p.requires_grad for p in path) or \
                    len(s.calls) != steps:
                cx.fail("step_system", steps=steps, start=start, got=path)
                return
            cx.outcome("path", steps, start)

    class Plant:
        def __init__(self):
            self.calls = []

        def dynamics(self, x, u):
            self.calls.append((np.array(x), np.array(u)))
            return np.array([x[1], -np.sin(x[0]) + u[0]])

    for k in range(3):
        net = utils.setup_relu((2, 3, 1), torch.from_numpy(
            2 * np.sin(np.arange(1., 14) + k)), .1, bias=True, dtype=DT)
        for lim in (.05, .5, 100.):
            for xe in ([0., 0.], [1., -.5]):
                for t0, t1 in ((0., .055), (.5, .75), (0., 1.)):
                    cx.states()
                    cx.trans()
                    cx.traces()
                    xeq = torch.tensor(xe, dtype=DT)
                    ueq = torch.tensor([.2], dtype=DT)
                    lo, up = ueq - lim, ueq + 2 * lim
                    plant = Plant()
                    x0 = np.array([.5, -1.])

                    def control(x):
                        with torch.no_grad():
                            u = net(torch.from_numpy(x)) - net(xeq) + ueq
                        return np.clip(u.numpy(), lo.numpy(), up.numpy())
                    r = utils.simulate_plant_with_controller(
                        plant, net, (t0, t1), xeq, ueq, lo, up, x0.copy())
                    where = dict(net=k, lim=lim, xe=xe, t=[t0, t1])
                    for x, u in plant.calls:
                        if u.shape != (1, ) or not (abs(u - control(x)).max() <= \
                                1e-9):
                            cx.fail("control input", x=x, got=u,
                                    want=control(x), **where)
                            return
                    ts = r.t
                    if not r.success or ts[0] != t0 or ts[-1] > t1 + 1e-9 or \
                            t1 - ts[-1] > .011 or not (np.abs(
                                np.diff(ts) - .01).max() <= 1e-9) or \
                            r.y.shape != (2, len(ts)):
                        cx.fail("time grid", got=[ts[0], ts[-1], len(ts)],
                                **where)
                        return
                    x = x0.copy()
                    ref = [x]
                    for a, b in zip(ts, ts[1:]):
                        m = 8
                        h = (b - a) / m
                        for _ in range(m):
                            f = Plant().dynamics
                            k1 = f(x, control(x))
                            k2 = f(x + h / 2 * k1, control(x + h / 2 * k1))
                            x = x + h * k2
                        ref.append(x)
                    if not (np.abs(np.array(ref).T - r.y).max() <= .05 * (
                            1 + np.abs(ref).max())):
                        cx.fail("trajectory", err=np.abs(
                            np.array(ref).T - r.y).max(), **where)
                        return
                    cx.outcome(k, lim, xe, t0, np.round(r.y[:, -1], 3))
    cx.sample(**where)


def tasks(tier):
    ts = [("project", i, tier) for i in range(len(GRADS))]
    ts += [("model", n, tier) for n in (1, 2, 3, 5)]
    ts += [("approx", n, e, tier) for n in (2, 4, 5, 10, 11)
           for e in (False, True)]
    ts.append(("simulation", ))
    return ts


def work(cx, task):
    {"project": project, "model": fit_model, "approx": fit_approximator,
     "simulation": simulation}[task[0]](cx, task)


if __name__ == "__main__":
    mc.main("C29", tasks, work,
            rule="every pair of gradients x mode x history; every data set "
            "size x batch size x epochs of the training loops, replayed "
            "batch by batch; every simulation of the family; states = "
            "configurations, transitions = steps compared",
            assumptions=["gradients are zero or absent before "
                         "project_gradient, as after zero_grad()"])

"""
C32: learning dynamics together with a Lyapunov function.  The Lyapunov losses
are the weighted exact optima (also with warm starts, over histories of
parameter changes, and when the search is stopped at the first counterexample
beyond a threshold); adversarial samples are true counterexamples; losses on
samples count exactly the samples in the stable box; roll-outs are the
trajectories of the learned system; training takes exactly the documented
steps, for every split of the epochs over calls and every point at which it
is interrupted, and saves what it ends with.
"""
import contextlib
import itertools
import os
import sys
import tempfile
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402
import gurobipy  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
from lyap import T, DT  # noqa: E402
from trainer import Setup  # noqa: E402

import neural_network_lyapunov.dynamics_learning as dl  # noqa: E402

TOL = 1e-6


class Recorder:
    """ stands in for the tensorboard writer """
    def __init__(self, *a, **k):
        self.seen = []

    def add_scalar(self, name, value, step=None, **k):
        self.seen.append((name, float(value), float(step)))


dl.SummaryWriter = Recorder


def configs(tier):
    quick = tier == "quick"
    S1 = [("autoeq", 1, 32, dict(scale=.5)), ("autoeq", 1, 37, {}),
          ("autores", 1, 33, dict(slope=.125, scale=.25))]
    S2 = [("autoeq", 2, 42, dict(scale=.25)),
          ("autores", 2, 43, dict(scale=.125))]
    V = [("relu", (2, ), True), (.125, (2, ), True), ("relu", (2, 2), True)]
    R = {1: ["fixed one", "fixed tall", "none"],
         2: ["fixed skew", "fixed tall", "none"]}
    if not quick:
        S1 += [(t[0], 1, t[2] + j, t[3]) for t in S1 for j in (20, 40)]
        S2 += [(t[0], 2, t[2] + j, t[3]) for t in S2 for j in (20, 40)]
    out = []
    k = 0
    for s in S1 + S2:
        for v, r in itertools.product(V, R[s[1]]):
            k += 1
            if quick and (k + k // 9) % (3 if s[1] == 1 else 4):
                continue
            out.append((s, v, r, [F(1, 2), F(2), F(1, 4)][k % 3], k % 11))
    return out


EP, EL, EU = F(1, 8), F(1, 4), F(3, 4)
W = [(1., 1., 1.), (2., .5, 0.), (0., 3., .25)]


class Learner:
    """ a learner with the exact value of everything it uses """
    def __init__(self, cfg, encoder=None, equilibrium=None, train=(), val=(),
                 **opt):
        s, v, r, lam, k = cfg
        none = r == "none"
        base = (s, True, v, "fixed " + ("one" if s[1] == 1 else "eye")
                if none else r, lam, EP, EL, "ExpLower", k)
        self.U = U = Setup(base)
        self.d, self.k = U.d, k
        d = U.d
        self.Rt = None if none else U.ropt.R().detach()
        lo = [F(-3, 4), F(-1, 2)][:d]
        up = [F(1), F(3, 4)][:d]
        self.slo, self.sup = lo, up
        o = dict(dtype=DT, V_lambda=float(lam), V_eps_pos=float(EP),
                 V_eps_der_lo=float(EL), V_eps_der_up=float(EU), R=self.Rt,
                 x_dim=d, z_dim=d, x_lo_stable=T(lo), x_up_stable=T(up),
                 z_lo_stable=T(lo), z_up_stable=T(up),
                 lyap_loss_optimal=True, lyap_loss_warmstart=False,
                 lyap_loss_freq=0, lyap_pos_loss_at_samples_weight=1.,
                 lyap_der_lo_loss_at_samples_weight=1.,
                 lyap_der_up_loss_at_samples_weight=1.,
                 lyap_pos_loss_weight=1., lyap_der_lo_loss_weight=1.,
                 lyap_der_up_loss_weight=1., use_bce=False,
                 use_variational=False, kl_weight_lo=.25, kl_weight_up=1.,
                 kl_weight_center_step=1, kl_weight_steps_lo_to_up=2,
                 decoded_equilibrium_loss_weight=.5, image_width=2,
                 image_height=3)
        for a in opt:
            assert a in o, a
        o.update(opt)
        self.o = o
        self.opt = dl.DynamicsLearningOptions(o)
        if encoder is None:
            self.dl = dl.StateSpaceDynamicsLearning(
                list(train), list(val), U.L, self.opt)
        else:
            self.dl = dl.LatentSpaceDynamicsLearning(
                list(train), list(val), U.L, self.opt, *encoder,
                decoded_equilibrium=equilibrium)
        self.encoder = encoder

    # ---- parameters
    def groups(self):
        g = [list(self.U.C.net.parameters()),
             list(self.U.S.net.parameters())]
        if self.encoder is not None:
            g += [list(e.parameters()) for e in self.encoder]
        return g

    def params(self, lyapunov_only=False):
        g = self.groups()
        return g[0] if lyapunov_only else [p for q in g for p in q]

    def snapshot(self):
        return [p.detach().clone() for p in self.params()]

    def restore(self, snap):
        with torch.no_grad():
            for p, q in zip(self.params(), snap):
                p.copy_(q)
        self.reread()

    def reread(self):
        self.U.C.reread()
        self.U.S.layers = cells.layers_of(self.U.S.net)

    # ---- exact
    def der(self, x, which):
        U = self.U
        y, = U.S.succ(x)
        e = EL if which == 1 else EU
        t = U.C.V(y) - U.C.V(x) + e * U.C.V(x)
        return t if which == 1 else -t

    def value(self, x, which):
        return self.U.pos(x) if which == 0 else self.der(x, which)

    def maxima(self):
        """ exact optima; None for those without a feasible state """
        U = self.U
        ret = [U.pos_max()]
        for ty, e in (("ExpLower", EL), ("ExpUpper", EU)):
            U.ty, U.ed = ty, e
            ret.append(U.der_max())
        return ret

    def feasible(self, x, which, tol=F(1, 10**6)):
        U = self.U
        pts = [x] + (U.S.succ(x) if which else [])
        return all(a - tol <= t <= b + tol for p in pts
                   for a, t, b in zip(U.S.xlo, p, U.S.xup))

    # ---- differentiable reference
    def V(self, X):
        U = self.U
        R = nets.tensor(U.C.R)
        xs = T(U.S.xeq)
        return U.C.net(X).reshape(-1) - U.C.net(xs) + float(
            U.C.lam) * torch.sum(torch.abs((X - xs) @ R.T), dim=1)

    def l1(self, X):
        return torch.sum(torch.abs((X - T(self.U.S.xeq)) @ nets.tensor(
            self.U.C.R).T), dim=1)

    def step(self, X):
        n, xs = self.U.S.net, T(self.U.S.xeq)
        return n(X) - n(xs) + (xs if self.U.kind == "autoeq" else X)

    def inside(self, Z):
        return Z[[bool(((z >= T(self.slo)) & (z <= T(self.sup))).all())
                  for z in Z]]

    def at_samples(self, Z):
        Z = self.inside(Z)
        if not len(Z):
            return [torch.zeros(1, dtype=DT)] * 3
        h = lambda t: torch.mean(torch.clamp(t, min=0))  # noqa: E731
        a, b = self.V(Z), self.V(self.step(Z))
        o = self.o
        return [o["lyap_pos_loss_at_samples_weight"] * h(
            float(EP) * self.l1(Z) - a),
            o["lyap_der_lo_loss_at_samples_weight"] * h(
                b - a + float(EL) * a),
            o["lyap_der_up_loss_at_samples_weight"] * h(
                -(b - a + float(EU) * a))]


WN = ["lyap_pos_loss_weight", "lyap_der_lo_loss_weight",
      "lyap_der_up_loss_weight"]
SN = ["lyap_pos_loss_at_samples_weight", "lyap_der_lo_loss_at_samples_weight",
      "lyap_der_up_loss_at_samples_weight"]


def moves(L):
    """ a declared history of parameters: start, shifted, scaled, back """
    s = L.snapshot()
    t = nets.stream(1200 + L.k)

    def shift(q):
        return q + torch.tensor([float(next(t)) / 8 for _ in range(
            q.numel())], dtype=DT).reshape(q.shape)
    b = [shift(q) for q in s]
    return [s, b, [q * .5 for q in b], s, [-q for q in s]]


# ------------------------------------------------------------ exact losses
def loss_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])
    L = Learner(cfg)
    hist = []
    for snap in moves(L):
        L.restore(snap)
        hist.append((snap, L.maxima()))
        cx.states()
    for w, warm in itertools.product(W, (False, True)):
        L.opt.set_options(dict(zip(WN, w)))
        L.opt.set_option("lyap_loss_optimal", True)
        L.opt.set_option("lyap_loss_warmstart", warm)
        seq = hist if warm else hist[:2 if tier == "quick" else 5]
        for i, (snap, mx) in enumerate(seq):
            if cx.out_of_time():
                return
            if None in mx:
                cx.count("no transition stays in the box")
                continue
            L.restore(snap)
            got = [float(t.detach()) for t in L.dl.lyapunov_loss()]
            cx.trans()
            cx.outcome([v > 1e-6 for v in map(float, mx)])
            for a, b, v in zip(got, w, mx):
                if not (abs(a - b * float(v)) <= TOL * max(1, b * abs(v))):
                    return cx.fail("Lyapunov losses are not the optima",
                                   got=got, want=mx, weights=w, warm=warm,
                                   position=i, **kw)
            if warm:
                for which, x in enumerate((L.dl.lyap_pos_x_adv,
                                           L.dl.lyap_der_lo_x_adv,
                                           L.dl.lyap_der_up_x_adv)):
                    x = [F(v) for v in x.tolist()]
                    if not (abs(L.value(x, which) - mx[which]) <= F(1, 10**5)):
                        return cx.fail("the next warm start is not the "
                                       "optimum", which=which, x=x, **kw)
        # ---- gradients: of the exact optima
        if warm or L.d > 1 and tier == "quick":
            continue
        snap, mx = hist[0]
        if None in mx:
            continue
        L.restore(snap)
        for which in range(3):
            ps = L.params()
            try:
                loss = L.dl.lyapunov_loss()[which]
            except dl.IncorrectActiveConstraint:
                cx.count("degenerate optimum (no gradient)")
                continue
            g = torch.autograd.grad(loss, ps, allow_unused=True)
            h = 2.**-14
            for p, gp in list(zip(ps, g)):
                e = (k * 3) % p.numel()
                old = float(p.data.view(-1)[e])
                ds = []
                for s in (1, -1):
                    p.data.view(-1)[e] = old + s * h
                    L.reread()
                    v = (L.U.pos_max() if which == 0 else L.maxima()[which])
                    ds.append(w[which] * float(v - mx[which]) / (s * h)
                              if v is not None else float("nan"))
                p.data.view(-1)[e] = old
                L.reread()
                if not abs(ds[0] - ds[1]) < 1e-3 * max(1, abs(ds[0])):
                    cx.count("kinks (no gradient)")
                    continue
                a = 0. if gp is None else float(gp.reshape(-1)[e])
                cx.trans()
                cx.count("gradient entries compared")
                if not (abs(a - ds[0]) <= 2e-3 * max(1, abs(ds[0]))):
                    return cx.fail("gradient of the optimum", which=which,
                                   got=a, want=ds, weights=w,
                                   shape=list(p.shape), entry=e, **kw)
    # ---- the search stops at a counterexample beyond the threshold
    L.opt.set_options(dict(zip(WN, W[0])))
    L.opt.set_option("lyap_loss_warmstart", False)
    L.opt.set_option("lyap_loss_optimal", False)
    for snap, mx in hist[:2 if tier == "quick" else 5]:
        if None in mx:
            continue
        L.restore(snap)
        for fr in ([-1., 0., .5, .999, 1.001] if tier != "quick" else
                   [-1., .5, 1.001]):
            th = [float(m) * fr if fr >= 0 else -1. for m in mx]
            th = [t if f else 0. for t, f in zip(th, (1, 1, 1))]
            got = [float(t.detach()) for t in L.dl.lyapunov_loss(*th)]
            cx.trans()
            for which, (g, t, m) in enumerate(zip(got, th, mx)):
                m = float(m)
                ok = g <= m + TOL and (
                    abs(g - m) <= TOL or g > t - TOL or g == 0.)
                cx.outcome("stopped early", g < m - TOL)
                if not ok:
                    return cx.fail("early termination: not a counterexample "
                                   "beyond the threshold", which=which,
                                   got=g, threshold=t, maximum=m, **kw)
    cx.traces()


# ----------------------------------------------------- adversarial samples
@contextlib.contextmanager
def solved(many):
    """ the programs solved meanwhile """
    models = []
    optimize = gurobipy.Model.optimize

    def run(self, *a, **k):
        if many:
            self.setParam(gurobipy.GRB.Param.PoolSearchMode, 2)
        optimize(self, *a, **k)
        models.append(self)
    gurobipy.Model.optimize = run
    try:
        yield models
    finally:
        gurobipy.Model.optimize = optimize


def adversarial_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])
    L = Learner(cfg)
    extra = []
    s = L.snapshot()
    nV = len(L.groups()[0])
    # V = lambda |.|_1 : no counterexample of positivity
    extra.append([q * (0 if i < nV else 1) for i, q in enumerate(s)])
    # constant dynamics / steep V: no counterexample of the derivative
    extra.append([q * 0 for q in s])
    mv = moves(L)
    for snap in (mv if tier != "quick" or L.d == 1 else mv[1:3]) + extra:
        L.restore(snap)
        mx = L.maxima()
        cx.states()
        if None in mx:
            continue
        # many: the solver keeps every solution instead of those on its way
        for optimal, many in ((True, False), (False, False), (True, True)):
            if cx.out_of_time():
                return
            L.opt.set_option("lyap_loss_optimal", optimal)
            with solved(many) as models:
                got = L.dl.adversarial_samples()
            cx.trans()
            pools = [sorted((o for o, _ in m._pool if o > 0), reverse=True)
                     for m in models]
            for which, (Z, m) in enumerate(zip(got, mx)):
                pts = [[F(v) for v in z.tolist()] for z in Z]
                cx.outcome(which, len(pts) > 0, m > 0)
                vals = [L.value(x, which) for x in pts]
                if m > F(1, 10**5) and not any(
                        len(q) == len(vals) and all(
                            abs(float(a) - b) <= 1e-6
                            for a, b in zip(vals, q)) for q in pools):
                    return cx.fail("adversarial samples are not the solutions "
                                   "that violate the condition", which=which,
                                   values=vals, pools=pools, optimal=optimal,
                                   **kw)
                if len(pts) > 1:
                    cx.count("several samples")
                if any(not L.feasible(x, which) for x in pts) or any(
                        v < -F(1, 10**6) for v in vals):
                    return cx.fail("adversarial sample is no counterexample",
                                   which=which, states=pts, values=vals,
                                   optimal=optimal, **kw)
                if m > F(1, 10**5) and (not pts or optimal and not (abs(
                        vals[0] - m) <= F(1, 10**5))):
                    return cx.fail("the worst state is not among the "
                                   "adversarial samples", which=which,
                                   values=vals, worst=m, optimal=optimal,
                                   **kw)
                if optimal and any(a < b - F(1, 10**6) for a, b in zip(
                        vals, vals[1:])):
                    return cx.fail("adversarial samples are not sorted",
                                   which=which, values=vals, **kw)
                if m < -F(1, 10**5) and pts:
                    return cx.fail("adversarial samples without one", **kw)
    cx.traces()


# ------------------------------------------------------- state-space model
def pool(L):
    lo, up, d = L.slo, L.sup, L.d
    e = F(1, 16)
    return [tuple(F(t) for t in p) for p in (
        lo, up, [(a + b * 3) / 4 for a, b in zip(lo, up)],
        [(a * 2 + b) / 3 for a, b in zip([F(-3, 4)] * d, [F(3, 4)] * d)],
        [up[0] + e] + list(lo[1:]), list(lo[:-1]) + [lo[-1] - e],
        [F(3)] * d)]


def state_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])
    L = Learner(cfg)
    U = L.U
    P = pool(L)
    nxt = {p: U.S.succ(p)[0] for p in P}
    n = 3 if tier == "quick" else 4
    for w in W:
        L.opt.set_options(dict(zip(SN, w)))
        for m in range(1, n + 1):
            for q in itertools.combinations_with_replacement(P, m):
                if cx.out_of_time():
                    return
                X = torch.stack([T(p) for p in q])
                X0 = X.clone()
                got = [float(t.detach()) for t in
                       L.dl.lyapunov_loss_at_samples(X)]
                ins = [p for p in q if all(a <= t <= b for a, t, b in zip(
                    L.slo, p, L.sup))]
                cx.states()
                cx.trans()
                cx.outcome(len(ins), m)
                want = [w[i] * float(sum(max(L.value(p, i), F(0))
                                         for p in ins)) / max(1, len(ins))
                        for i in range(3)]
                if any(not (abs(a - b) <= 1e-9 * max(1, abs(b))) for a, b in zip(
                        got, want)) or not torch.equal(X, X0):
                    return cx.fail("Lyapunov losses on samples", samples=q,
                                   weights=w, got=got, want=want, **kw)
                # prediction error against every shift of the samples
                if w != W[0]:
                    continue
                Y = torch.stack([T(p) for p in q[1:] + q[:1]])
                g = float(L.dl.dynamics_loss(X, Y).detach())
                v = float(sum((a - b)**2 for p, y in zip(q, q[1:] + q[:1])
                              for a, b in zip(nxt[p], y)) / (m * L.d))
                if not (abs(g - v) <= 1e-9 * max(1, v)):
                    return cx.fail("prediction error", samples=q, got=g,
                                   want=v, **kw)
    # ---- roll-outs
    rolls = {}
    for p, N in itertools.product(P, range(0, 4)):
        X, V = L.dl.rollout(T(p), N)
        cx.trans()
        tr = [list(p)]
        for i in range(N):
            tr.append(U.S.succ(tr[-1])[0])
        want = np.array([[float(t) for t in x] for x in tr])
        vw = np.array([float(U.C.V(x)) for x in tr])
        if X.shape != (N + 1, L.d) or V.shape != (N + 1, ) or not (np.abs(
                X.detach().numpy() - want).max() <= 1e-8) or not (np.abs(
                    V.detach().numpy() - vw).max() <= 1e-8):
            return cx.fail("roll-out is not the trajectory", start=p, N=N,
                           got=[X, V], want=[want, vw], **kw)
        rolls[p, N] = want
    for N in (1, 2):
        for q in itertools.product(P[:4], repeat=2):
            # expected: another trajectory that starts at the same state
            exp = [np.concatenate([rolls[p, N][:1], rolls[o, N][1:]])
                   for p, o in zip(q, q[::-1])]
            errs = [((e - rolls[p, N])**2).mean(axis=1)
                    for p, e in zip(q, exp)]
            for p, e, r in zip(q, exp, errs):
                g = L.dl.rollout_loss(torch.tensor(e, dtype=DT))
                cx.trans()
                if g.shape != (N + 1, ) or not (np.abs(
                        g.detach().numpy() - r).max() <= 1e-8):
                    return cx.fail("loss of a roll-out", got=g, want=r, **kw)
            for m in (1, 2):
                g = L.dl.rollout_validation(
                    [torch.tensor(e, dtype=DT) for e in exp[:m]])
                cx.trans()
                if g.requires_grad or not (np.abs(g.numpy() - np.mean(
                        errs[:m], axis=0)).max() <= 1e-8):
                    return cx.fail("validation: not the mean loss of the "
                                   "roll-outs", got=g, want=errs[:m], **kw)
    # ---- options
    L.opt.set_options(dict(x_dim=L.d, new=3))
    if L.opt.new != 3 or hasattr(L.opt, "missing") or L.opt.x_dim != L.d:
        return cx.fail("options", **kw)
    cx.traces()


# ----------------------------------------------------------------- training
class Interrupting(list):
    """ a data set; iterating it is interrupted before batch `at` (counted
    over all epochs) """
    def __init__(self, data, at=None):
        super().__init__(data)
        self.at, self.seen = at, 0

    def __iter__(self):
        for b in super().__iter__():
            if self.seen == self.at:
                raise KeyboardInterrupt
            self.seen += 1
            yield b


def same(a, b, tol=1e-9):
    return len(a) == len(b) and all(
        float(torch.max(torch.abs(p - q))) <= tol * max(
            1., float(torch.max(torch.abs(q)))) for p, q in zip(a, b))


class Monitor:
    """ what the Lyapunov losses were asked and the gradients they gave """
    def __init__(self, L):
        self.calls = []
        real = L.dl.lyapunov_loss

        def seen(*a, **kw):
            ret = real(*a, **kw)
            g = torch.autograd.grad(sum(ret), L.params(), allow_unused=True,
                                    retain_graph=True)
            self.calls.append(([float(t) for t in list(a) + list(
                kw.values())], g))
            return ret
        L.dl.lyapunov_loss = seen


def reference(cx, L, epochs, batches, opt, freq, losses_of, calls):
    """ the documented steps, with the gradients of the exact losses that
    were `calls` -> states before each batch and after the last, the losses
    logged and the thresholds """
    traj, log, ths = [L.snapshot()], [], []
    n = 0
    for _ in range(epochs):
        for x, y in batches:
            for p in L.params():
                p.grad = None
            dyn, sam = losses_of(L, x, y, n)
            (dyn + sum(sam)).sum().backward()
            opt.step()
            log.append([n] + [float(v.detach()) for v in (dyn, *sam)])
            if freq > 0 and n % freq == 0:
                with torch.no_grad():
                    ths.append([float(t) for t in losses_of(L, x, y, n)[1]])
                if len(ths) > len(calls):
                    return traj, log, ths
                for p, g in zip(L.params(), calls[len(ths) - 1][1]):
                    p.grad = g
                opt.step()
            n += 1
            traj.append(L.snapshot())
            cx.states()
    return traj, log, ths


def state_losses(L, x, y, n):
    return torch.mean((L.step(x) - y)**2), L.at_samples(x)


def optimizer(how, L, only):
    ps = L.params(only)
    if how == "own":
        return torch.optim.SGD(ps, lr=.01, momentum=.5)
    return torch.optim.Adam(ps)


LOGGED = ("Dynamics", "LyapunovPosSamples", "LyapunovDerSamples/low",
          "LyapunovDerSamples/up")


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1, abs(b))


def training(cx, tier, make, losses_of, kw, variants, k):
    for freq, warm, optimal, how, only in variants:
        if cx.out_of_time():
            return None
        flags = dict(freq=freq, warm=warm, optimal=optimal, optimizer=how,
                     lyapunov_only=only)
        E = 2

        def fresh(at=None):
            L = make(freq, warm, optimal)
            L.dl.train_dataloader = Interrupting(L.dl.train_dataloader, at)
            if how == "own":
                L.dl.optimizer = optimizer(how, L, only)
            else:
                L.dl.reset_optimizer(lyapunov_only=only)
            return L
        L = make(freq, warm, optimal)
        batches = list(L.dl.train_dataloader)
        nb = len(batches)
        L.reread()
        if freq and None in L.maxima():
            cx.count("no transition stays in the box")
            continue

        def run(fn, at=None):
            """ a run of the code, and what is documented for it """
            L = fresh(at)
            mon = Monitor(L)
            try:
                fn(L)
            except dl.IncorrectActiveConstraint:
                cx.count("degenerate optimum (no step)")
                return None
            except gurobipy.GurobiError:
                if None not in L.maxima():
                    raise
                cx.count("no transition stays in the box")
                return None
            del L.dl.lyapunov_loss
            ref = make(freq, warm, optimal)
            opt = optimizer(how, ref, only)
            traj, log, ths = reference(cx, ref, E, batches, opt, freq,
                                       losses_of, mon.calls)
            good = [a for a, b in mon.calls]
            if at is not None:
                ths = ths[:len(good)]
            if not optimal and not (len(good) == len(ths) and all(
                    len(p) == 3 and all(abs(a - b) <= 1e-6 * max(1, abs(b))
                                        for a, b in zip(p, q))
                    for p, q in zip(good, ths))):
                cx.fail("thresholds of the search", got=good, want=ths,
                        **flags, **kw)
                return None
            if at is None and len(traj) != E * nb + 1:
                cx.fail("a step on the exact losses is missing",
                        got=len(mon.calls), **flags, **kw)
                return None
            return L, traj, log
        # ---- every way to split the epochs over calls
        for parts, val in (((2, ), True), ((2, ), False), ((1, 1), True),
                           ((1, 0, 1), False)):
            def go(L):
                for p in parts:
                    L.dl.train(p, validate=val)
            got = run(go)
            cx.trans()
            if got is None:
                if cx.fails:
                    return None
                break
            L, traj, log = got
            cx.outcome("moved", not same(traj[0], traj[-1], 1e-7), how)
            got = L.snapshot()
            if not same(got, traj[-1], 1e-6):
                return cx.fail("training is not at the documented state",
                               calls=parts, validate=val, **flags, **kw)
            if L.dl.n_iter != E * nb:
                return cx.fail("number of iterations", got=L.dl.n_iter, **kw)
            if isinstance(L.dl.writer, Recorder):
                for j, name in enumerate(LOGGED):
                    seen = [(int(s), v) for n_, v, s in L.dl.writer.seen
                            if n_ == name + "/train"]
                    if len(seen) != len(log) or any(
                            a[0] != b[0] or not near(a[1], b[1 + j])
                            for a, b in zip(seen, log)):
                        return cx.fail("logged losses", name=name, got=seen,
                                       want=log, **flags, **kw)
                if val:
                    want = []
                    for e in range(1, E + 1):
                        L.restore(traj[e * nb])
                        with torch.no_grad():
                            v = [(losses_of(L, x, y, e * nb), len(x))
                                 for x, y in L.dl.validation_dataloader]
                        n = sum(m for _, m in v)
                        want.append([
                            sum(float((t[0], *t[1])[j]) * m for t, m in v) / n
                            for j in range(4)])
                    for j, name in enumerate(LOGGED):
                        seen = [v for n_, v, s in L.dl.writer.seen
                                if n_ == name + "/validate"]
                        cx.trans()
                        if len(seen) != E or not all(
                                near(a, b[j]) for a, b in zip(seen, want)):
                            return cx.fail(
                                "logged validation loss", name=name,
                                got=seen, want=want, **flags, **kw)
        # ---- every point of interruption, and every saving rate
        points = [(a, 0) for a in range(E * nb)] + [
            (None, 1), (None, 2), (E * nb - 1, 1)]
        for at, rate in points if tier != "quick" else points[k % 2::2]:
            if cx.out_of_time():
                return None
            with tempfile.TemporaryDirectory() as tmp:
                path = os.path.join(tmp, "new")
                got = run(lambda L: L.dl.train(E, save_rate=rate,
                                               save_path=path), at)
                cx.trans()
                if got is None:
                    if cx.fails:
                        return None
                    break
                L, traj, log = got
                want = traj[-1 if at is None else at]
                if not same(L.snapshot(), want, 1e-6):
                    return cx.fail("interrupted training is not at the "
                                   "documented state", at=at, **flags, **kw)
                back = type(L.dl).load(path, [], [], L.opt)
                ps = list(back.lyap.lyapunov_relu.parameters()) + list(
                    back.lyap.system.dynamics_relu.parameters())
                if L.encoder is not None:
                    ps += list(back.encoder.parameters()) + list(
                        back.decoder.parameters())
                if L.encoder is not None:
                    eqs = [o.decoded_equilibrium for o in (L.dl, back)]
                    if (eqs[0] is None) != (eqs[1] is None) or (
                            eqs[0] is not None and not torch.equal(*eqs)):
                        return cx.fail("the picture of the equilibrium is not "
                                       "loaded back", at=at, **flags, **kw)
                L.dl.reset_optimizer()
                if L.dl.n_iter != 0:
                    return cx.fail("a new optimizer does not count from 0",
                                   got=L.dl.n_iter, **flags, **kw)
                if not same([p.detach() for p in ps], want, 1e-6):
                    return cx.fail("saved model is not the trained one",
                                   at=at, rate=rate, **flags, **kw)
    return True


def train_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])

    def make(freq, warm, optimal):
        s = nets.stream(1300 + k)
        pts = lambda n, d: torch.tensor(  # noqa: E731
            [[float(next(s)) * .6 + .037 for _ in range(d)]
             for _ in range(n)], dtype=DT)
        d = cfg[0][1]
        train = [(pts(n, d), pts(n, d)) for n in (3, 2)]
        val = [(pts(n, d), pts(n, d)) for n in (2, 1)]
        w = W[k % 3]
        return Learner(cfg, train=train, val=val, lyap_loss_freq=freq,
                       lyap_loss_warmstart=warm, lyap_loss_optimal=optimal,
                       **dict(zip(SN + WN, W[(k + 1) % 3] + w)))

    vs = list(itertools.product((0, 1, 2), (False, True), (True, False),
                                ("own", "default"), (False, True)))
    vs = [v for v in vs if v[0] or not v[1] and v[2]]
    if tier == "quick":
        vs = vs[k % 12::12]
    if training(cx, tier, make, state_losses, kw, vs, k):
        cx.traces()


# ------------------------------------------------------------- latent space
class Enc(torch.nn.Module):
    """ linear, with an output for the variance """
    def __init__(self, n, d, k):
        super().__init__()
        self.mu = nets.table_net((n, d), None, 1400 + k, True)
        self.lv = nets.table_net((n, d), None, 1410 + k, True)

    def forward(self, x):
        v = x.reshape(x.shape[0], -1)
        return self.mu(v) * .25, self.lv(v) * .25


class Dec(torch.nn.Module):
    def __init__(self, shape, d, k):
        super().__init__()
        self.shape = shape
        n = shape[0] * shape[1] * shape[2]
        self.net = nets.table_net((d, n), None, 1420 + k, True)

    def forward(self, z):
        return torch.sigmoid(self.net(z)).reshape(z.shape[0], *self.shape)


class Noise:
    """ torch.randn gives a fixed sequence, depending on the shape only """
    def __init__(self, k):
        self.k = k

    def value(self, shape, dtype=DT):
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        s = nets.stream(1500 + self.k + len(shape))
        return torch.tensor([float(next(s)) for _ in range(n)],
                            dtype=dtype).reshape(shape)

    def __enter__(self):
        self.real = torch.randn, torch.randn_like

        def randn(*shape, dtype=DT, **kw):
            if len(shape) == 1 and not isinstance(shape[0], int):
                shape = shape[0]
            return self.value(shape, dtype)

        torch.randn = randn
        torch.randn_like = lambda t, **kw: self.value(t.shape, t.dtype)
        return self

    def __exit__(self, *a):
        torch.randn, torch.randn_like = self.real


def images(n, shape, k):
    s = nets.stream(1600 + k)
    m = n * int(np.prod(shape))
    return torch.tensor([(float(next(s)) + 1.75) / 3.5 for _ in range(m)],
                        dtype=DT).reshape(n, *shape)


def bce(x, p):
    return -(x * torch.log(p) + (1 - x) * torch.log(1 - p))


class Latent:
    """ the differentiable reference of the latent-space losses """
    def __init__(self, L, noise):
        self.L, self.noise = L, noise

    def z(self, X):
        e = self.L.encoder[0]
        mu, lv = e(X)
        if not self.L.o["use_variational"]:
            return mu, mu, None
        return mu + self.noise.value(mu.shape) * torch.exp(.5 * lv), mu, lv

    def rec(self, x, p):
        return torch.mean(bce(x, p) if self.L.o["use_bce"] else (x - p)**2)

    def losses(self, X, Y, n):
        L, o = self.L, self.L.o
        z, mu, lv = self.z(X)
        c = X.shape[1] // 2
        if Y.shape[1] == c:
            Y = torch.cat((X[:, c:], Y), dim=1)
        dec = L.encoder[1]
        loss = self.rec(X, dec(z)) + self.rec(Y, dec(L.step(z)))
        if o["use_variational"]:
            kl = .5 * torch.mean(torch.sum(
                mu**2 + torch.exp(lv) - lv - 1, dim=1))
            t = (n - o["kl_weight_center_step"]) / o[
                "kl_weight_steps_lo_to_up"]
            loss = loss + (o["kl_weight_lo"] + (
                o["kl_weight_up"] - o["kl_weight_lo"]) / (
                    1 + np.exp(-t))) * kl
        eq = L.dl.decoded_equilibrium
        if eq is not None:
            loss = loss + o["decoded_equilibrium_loss_weight"] * self.rec(
                eq.unsqueeze(0), dec(T(L.U.S.xeq).unsqueeze(0)))
        return loss, L.at_samples(z)


def make_latent(cfg, c, eq, k, **opt):
    shape = (2 * c, 2, 3)
    d = cfg[0][1]
    e = images(1, shape, 31 + k)[0] if eq else None
    return Learner(cfg, (Enc(12 * c, d, k), Dec(shape, d, k)), e, **opt)


def latent_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])
    grid = list(itertools.product((1, 3), (True, False), (True, False),
                                  (True, False)))
    for c, eq, var, b in grid[k % 2::2] if tier == "quick" else grid:
        flags = dict(channels=c, equilibrium=eq, variational=var, bce=b)
        L = make_latent(cfg, c, eq, k, use_variational=var, use_bce=b)
        shape = (2 * c, 2, 3)
        with Noise(k) as noise:
            ref = Latent(L, noise)
            for n, full, it in itertools.product((1, 2, 3), (True, False),
                                                 (0, 1, 5)):
                if cx.out_of_time():
                    return
                X = images(n, shape, k)
                Y = images(n, shape if full else (c, 2, 3), k + 7)
                L.dl.n_iter = it
                cx.states()
                with torch.no_grad():
                    want, sam = ref.losses(X, Y, it)
                    got = L.dl.dynamics_loss(X, Y)
                    gs = L.dl.lyapunov_loss_at_samples(X)
                cx.trans(2)
                if not (abs(float(got) - float(want)) <= 1e-9 * max(1, float(want))):
                    return cx.fail("loss of the latent dynamics", got=got,
                                   want=want, batch=n, iteration=it, **flags,
                                   **kw)
                if any(not (abs(float(p) - float(q)) <= 1e-9) for p, q in zip(
                        gs, sam)):
                    return cx.fail("Lyapunov losses of encoded samples",
                                   got=gs, want=sam, batch=n, **flags, **kw)
                with torch.no_grad():
                    a, bb, mu, lv, zn = L.dl.vae_forward(X)
                    z, mu2, lv2 = ref.z(X)
                    zn2 = L.step(z)
                    dec = L.encoder[1]
                    ok = same([a, bb, mu, zn], [dec(z), dec(zn2), mu2, zn2])
                    ok = ok and (lv is None) == (not var) and (
                        lv is None or same([lv], [lv2]))
                if not ok:
                    return cx.fail("forward pass", batch=n, **flags, **kw)
            if var:
                continue
            # ---- roll-outs
            X = images(2, shape, k + 3)
            for i, N, inter in itertools.product((0, 1), range(0, 4),
                                                 (False, True)):
                with torch.no_grad():
                    traj, V, Z = L.dl.rollout(X[i], N, inter)
                    ims = [X[i][:c], X[i][c:]]
                    zs = [L.encoder[0](X[i:i + 1])[0]]
                    for t in range(N):
                        src = zs[-1] if not inter else L.encoder[0](
                            torch.cat(ims[-2:]).unsqueeze(0))[0]
                        zs.append(L.step(src))
                        ims.append(L.encoder[1](zs[-1])[0, c:])
                    vs = torch.stack([L.V(z)[0] for z in zs])
                cx.trans()
                if traj.shape != (N + 2, c, 2, 3) or V.shape != (N + 1, ) or \
                        Z.shape != (N + 1, L.d) or not same(
                            [traj, V, Z],
                            [torch.stack(ims), vs, torch.cat(zs)]):
                    return cx.fail("latent roll-out", N=N, decode=inter,
                                   **flags, **kw)
                exp = images(N + 2, (c, 2, 3), k + 4 + i)
                with torch.no_grad():
                    got = L.dl.rollout_loss(exp, inter)
                    ims = [exp[0], exp[1]]
                    z = L.encoder[0](torch.cat(ims).unsqueeze(0))[0]
                    for t in range(N):
                        if inter:
                            z = L.encoder[0](torch.cat(
                                ims[-2:]).unsqueeze(0))[0]
                        z = L.step(z)
                        ims.append(L.encoder[1](z)[0, c:])
                    p = torch.stack(ims)
                    want = (bce(exp, p) if b else (exp - p)**2).mean(
                        dim=[1, 2, 3])
                cx.trans()
                if got.shape != (N + 2, ) or not same([got], [want]):
                    return cx.fail("loss of a latent roll-out", N=N,
                                   decode=inter, got=got, want=want, **flags,
                                   **kw)
                both = [exp, images(N + 2, (c, 2, 3), k + 9)]
                if not inter:
                    with torch.no_grad():
                        each = [L.dl.rollout_loss(e) for e in both]
                        got = L.dl.rollout_validation(both)
                    if not same([got], [sum(each) / 2]):
                        return cx.fail("validation: not the mean loss of the "
                                       "roll-outs", got=got, want=each,
                                       **flags, **kw)
    cx.traces()


def latent_train_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])
    grid = list(itertools.product((1, 3), (True, False), (True, False),
                                  (True, False)))
    for c, eq, var, b in grid[k % 8::8] if tier == "quick" else \
            grid[k % 3::3]:
        kw.update(channels=c, equilibrium=eq, variational=var, bce=b)
        shape = (2 * c, 2, 3)

        def make(freq, warm, optimal):
            train = [(images(n, shape, k + n), images(n, (c, 2, 3), k + 5 * n)
                      ) for n in (2, 1)]
            val = [(images(n, shape, k + 11 * n),
                    images(n, (c, 2, 3), k + 7 * n)) for n in (1, 2)]
            return make_latent(cfg, c, eq, k, train=train, val=val,
                               use_variational=var, use_bce=b,
                               lyap_loss_freq=freq, lyap_loss_warmstart=warm,
                               lyap_loss_optimal=optimal,
                               **dict(zip(SN + WN, W[(k + 1) % 3] + W[k % 3])
                                      ))
        with Noise(k) as noise:

            def losses_of(L, x, y, n):
                return Latent(L, noise).losses(x, y, n)
            vs = [(0, False, True, "own", False),
                  (2, True, True, "default", False),
                  (0, False, True, "default", True),
                  (1, False, False, "own", False)]
            if tier == "quick":
                vs = vs[k % 2::2]
            if not training(cx, tier, make, losses_of, kw, vs, k):
                return
    cx.traces()


def work(cx, task):
    tier, group, cfg, k = task
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            dict(loss=loss_work, adversarial=adversarial_work,
                 state=state_work, train=train_work, latent=latent_work,
                 latent_train=latent_train_work)[group](cx, tier, cfg, k)
        finally:
            os.chdir(here)


def tasks(tier):
    quick = tier == "quick"
    out = []
    for i, c in enumerate(configs(tier)):
        for j, g in enumerate(("loss", "adversarial", "state", "train",
                               "latent", "latent_train")):
            if quick and g == "adversarial" and c[0][1] == 2 and \
                    c[1][1] == (2, 2):
                continue
            if quick and g in ("state", "latent", "latent_train") and (
                    i + j) % 2:
                continue
            out.append((tier, g, c, i))
    return out


if __name__ == "__main__":
    mc.main("C32", tasks, work, rule="every configuration (system, network, "
            "R) x histories of parameters, weights, thresholds; every list of "
            "up to 3 (4) samples; every split of the epochs over calls, every "
            "point of interruption; image size 2x3",
            assumptions=["the MIP stand-in holds what the code put in",
                         "the optimiser's own step is torch's",
                         "encoders and decoders are linear (C30 is about the "
                         "library's own)"])

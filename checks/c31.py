"""
C31: the training loops.  Training for 1, 2, ... iterations visits exactly the
states of the documented transition system: every step is the optimiser's step
on the gradient of the total loss with the grown sample pools; success is
reported exactly when both exact optimal values are within their tolerances,
at the parameters left behind.  Descent on samples never leaves a worse state
than it found and keeps the best epoch, for every schedule of the shuffled
batches; training on samples returns the epoch with the least test loss, for
every split.  Clustering and the value approximator do what they state.
"""
import itertools
import os
import sys
import tempfile
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import cells  # noqa: E402
import lyap  # noqa: E402
import nets  # noqa: E402
import torch  # noqa: E402
from lyap import T  # noqa: E402
from trainer import Setup  # noqa: E402

import neural_network_lyapunov.hybrid_linear_system as hls  # noqa: E402
import neural_network_lyapunov.train_lyapunov_barrier as tlb  # noqa: E402

TOL = 1e-9
OUT = hls.AutonomousHybridLinearSystem.StepForwardException
OPT = [("SGD", 0., .05), ("SGD", .5, .03), ("Adam", 0., .04)]


def configs(tier):
    quick = tier == "quick"
    S1 = [("auto", 1, 31, dict(scale=.5)), ("autoeq", 1, 32, dict(scale=.5)),
          ("autores", 1, 33, dict(slope=.125, scale=.25)),
          ("hyb", 1, 5, dict(xeq=(F(1, 4), ), scale=F(1, 2))),
          ("fb", 1, 34, dict(scale=.5)),
          ("fb", 1, 36, dict(limits="wide", scale=.25))]
    S2 = [("autoeq", 2, 42, dict(scale=.25)),
          ("fb", 2, 44, dict(scale=.25))]
    V = [("relu", (2, ), True), (.125, (2, ), True)]
    R = {1: ["fixed one", "spd", "svd tall", "free"],
         2: ["fixed skew", "spd tall", "svd", "free"]}
    if not quick:
        S1 += [(t[0], 1, t[2] + 20, t[3]) for t in S1 if t[0] != "hyb"]
        S2 += [(t[0], 2, t[2] + 20, t[3]) for t in S2]
    out = []
    k = 0
    for sys_ in S1 + S2:
        for v, r in itertools.product(V, R[sys_[1]]):
            k += 1
            if quick and (k + k // 8 if sys_[1] == 1 else 3 * k + k // 8) % (
                    3 if sys_[1] == 1 else 5):
                continue
            out.append((sys_, True, v, r, [F(1, 2), F(2), F(1, 4)][k % 3],
                        [F(1, 8), F(1, 2)][k % 2], F(1, 4),
                        ["ExpLower", "ExpUpper", "Asymp"][k // 2 % 3],
                        k % 11))
    return out


def samples_of(U, k, n):
    S, d = U.S, U.d
    grid = [tuple(p) for p in cells.grid(S.xlo, S.xup, 7 if d == 1 else 4)]
    grid = [p for p in grid if len(U.succ(p)) == 1]
    return torch.stack([T(p) for p in (grid[k % 3:] + grid)[:n]])


def optimizer(tr, params):
    if tr.optimizer == "SGD":
        return torch.optim.SGD(params, lr=tr.learning_rate,
                               momentum=tr.momentum)
    return torch.optim.Adam(params, lr=tr.learning_rate)


def same(a, b, tol=TOL):
    return len(a) == len(b) and all(
        p.shape == q.shape and (not p.numel() or float(
            torch.max(torch.abs(p - q))) <= tol) for p, q in zip(a, b))


def nexts(U, X):
    """ exact successors of samples (as the training uses them) """
    if not len(X):
        return torch.empty_like(X)
    return U.S.obj.step_forward(X)


def soil(U):
    """ gradients that earlier work of the user left behind """
    for p in U.params():
        p.grad = torch.full_like(p, 3.)


# ------------------------------------------------------------------ train()
def train_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])
    N = 3 if tier == "quick" else 4
    variants = list(itertools.product(
        OPT, [(10., 10.), (0., 3.), (2., 0.)], [0., .5],
        [(True, True), (False, False), (True, False), (False, True)],
        [500, 2], [True, False], [3, 0], [True, False]))
    step = 289 if tier == "quick" else 193
    variants = variants[(k * 17) % step::step]
    for (opt, mom, lr), mw, gap, (ap, ad), size, only, n, ctrl in variants:
        if cx.out_of_time():
            return
        flags = dict(optimizer=[opt, mom, lr], mip=mw, gap=gap, add=[ap, ad],
                     size=size, only=only, samples=n, search=ctrl)

        def fresh(iters, tols=(-1e9, -1e9), **extra):
            U = Setup(cfg, optimizer=opt, momentum=mom, learning_rate=lr,
                      max_iterations=iters, search_controller=ctrl,
                      lyapunov_positivity_mip_cost_weight=mw[0],
                      lyapunov_derivative_mip_cost_weight=mw[1],
                      boundary_value_gap_mip_cost_weight=gap,
                      add_positivity_adversarial_state=ap,
                      add_derivative_adversarial_state=ad,
                      add_adversarial_state_only=only,
                      max_sample_pool_size=size,
                      lyapunov_positivity_convergence_tol=tols[0],
                      lyapunov_derivative_convergence_tol=tols[1], **extra)
            X = samples_of(U, k, n) if n else torch.empty(
                (0, U.d), dtype=lyap.DT)
            return U, X
        # ---- the reference trajectory
        U, X = fresh(N)
        w = (U.tr.lyapunov_positivity_sample_cost_weight,
             U.tr.lyapunov_derivative_sample_cost_weight)
        P, D = X.clone(), X.clone()
        Dn = nexts(U, D).detach()
        train = U.groups()["V"] + U.groups()["R"] + (
            U.groups().get("u", []) if ctrl else [])
        oref = optimizer(U.tr, train)
        traj = [U.snapshot()]
        maxima, losses = [], []
        ok = True
        for i in range(N):
            U.reread()
            pm, dm = U.pos_max(), U.der_max()
            if dm is None:
                ok = False
                cx.count("no transition stays in the box")
                break
            maxima.append((float(pm), float(dm)))
            for p in U.params():
                p.grad = None
            if U.kind == "fb":
                Dn = nexts(U, D)
            ret = U.tr.total_loss(P, D, Dn, *w, *mw, gap)
            P, D, Dn = (ret.lyap_loss.positivity_state_samples,
                        ret.lyap_loss.derivative_state_samples,
                        ret.lyap_loss.derivative_state_samples_next.detach())
            losses.append(float(ret.loss.detach()))
            if ret.loss.requires_grad:
                ret.loss.backward()
            oref.step()
            traj.append(U.snapshot())
            cx.states()
        if not ok:
            continue
        moved = not same(traj[0], traj[-1])
        cx.outcome("moved", moved, opt)
        # ---- every prefix of it
        for m in range(1, N + 1):
            U, X = fresh(m)
            soil(U)
            ret = U.tr.train(X)
            cx.trans()
            got = U.snapshot()
            if ret[0] is not False or len(ret) != 4:
                return cx.fail("train() reports success", got=ret, **flags,
                               **kw)
            if not same(got, traj[m], 1e-8):
                return cx.fail("train() is not at the documented state",
                               iterations=m, got=got, want=traj[m], **flags,
                               **kw)
            if not (abs(ret[1] - losses[m - 1]) <= 1e-7) or any(
                    not (abs(a - b) <= 1e-6) for a, b in zip(
                        ret[2:], maxima[m - 1])):
                return cx.fail("train() reports other values", iterations=m,
                               got=ret, want=[losses[m - 1],
                                              *maxima[m - 1]],
                               **flags, **kw)
        # ---- every pair of tolerances around the trajectory
        ts = [sorted({v[j] + e for v in maxima for e in (1e-3, -1e-3)})
              for j in (0, 1)]
        pairs = list(itertools.product(*ts))
        step = 5 if tier == "quick" else 3
        pairs = pairs[k % step::step]
        for tols in pairs:
            if cx.out_of_time():
                return
            first = next((i for i, v in enumerate(maxima) if
                          v[0] <= tols[0] and v[1] <= tols[1]), None)
            U, X = fresh(N, tols)
            ret = U.tr.train(X)
            cx.trans()
            cx.outcome("stop", first)
            if ret[0] is not (first is not None):
                return cx.fail("train() is wrong about success", got=ret,
                               maxima=maxima, tolerances=tols, **flags, **kw)
            at = N if first is None else first
            if not same(U.snapshot(), traj[at], 1e-8):
                return cx.fail("train() stops at another state", got=ret,
                               maxima=maxima, tolerances=tols, want=first,
                               **flags, **kw)
            if ret[0]:
                U.reread()
                v = float(U.pos_max()), float(U.der_max())
                if v[0] > tols[0] or v[1] > tols[1] or any(
                        not (abs(a - b) <= 1e-6) for a, b in zip(ret[2:], v)):
                    return cx.fail("reported as converged, but is not",
                                   got=ret, want=v, tolerances=tols, **flags,
                                   **kw)
        # ---- saved models are the visited ones
        for every in (1, 2, N + 3):
            with tempfile.TemporaryDirectory() as tmp:
                U, X = fresh(N, save_network_path=tmp,
                             save_network_iterations=every)
                U.tr.train(X)
                last = (N - 1) // every * every
                nV = len(U.groups()["V"])
                got = torch.load(tmp + "/lyapunov.pt", weights_only=False)
                R = torch.load(tmp + "/R.pt", weights_only=False)
                U.restore(traj[last])
                good = same([p.detach() for p in got.parameters()],
                            traj[last][:nV], 1e-8) and same(
                                [R.detach()], [U.ropt.R().detach()], 1e-8)
                if U.kind == "fb":
                    c = torch.load(tmp + "/controller.pt", weights_only=False)
                    good = good and same(
                        [p.detach() for p in c.parameters()],
                        traj[last][-len(U.groups()["u"]):], 1e-8)
                cx.trans()
                if not good:
                    return cx.fail("saved model is not the visited one",
                                   every=every, **flags, **kw)
    cx.traces()
    cx.sample(config=kw["config"], variants=len(variants), iterations=N)


# ------------------------------------------------- schedules of the shuffles
class Schedules:
    """ explores every outcome of the calls of torch.randperm """
    def __init__(self, budget):
        self.todo, self.budget, self.done = [[]], budget, 0

    def __iter__(self):
        while self.todo and self.done < self.budget:
            # (any order: the early calls vary too when the budget ends)
            self.prefix = self.todo.pop(self.done * 7919 % len(self.todo))
            self.trace = []
            self.done += 1
            yield self
            for i in range(len(self.prefix), len(self.trace)):
                n, c = self.trace[i]
                if c != 0:
                    continue
                head = [t[1] for t in self.trace[:i]]
                f = 1
                for j in range(2, n + 1):
                    f *= j
                self.todo += [head + [a] for a in range(f - 1, 0, -1)]

    def perm(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((n, c))
        left, out = list(range(n)), []
        for j in range(n, 0, -1):
            c, r = divmod(c, j)
            out.append(left.pop(r))
        return out

    def __enter__(self):
        self.real = torch.randperm
        self.split = getattr(torch.utils.data.dataset, "randperm", None)

        def fake(n, *a, **k):
            return torch.tensor(self.perm(int(n)), dtype=torch.int64)
        torch.randperm = fake
        if self.split is not None:
            torch.utils.data.dataset.randperm = fake
        return self

    def __exit__(self, *a):
        torch.randperm = self.real
        if self.split is not None:
            torch.utils.data.dataset.randperm = self.split


def splits(n, size):
    """ all ordered partitions of range(n) into batches of the size """
    def go(left):
        if not left:
            yield []
            return
        for b in itertools.combinations(left, min(size, len(left))):
            rest = [i for i in left if i not in b]
            for t in go(rest):
                yield [list(b)] + t
    return list(go(list(range(n))))


def sample_loss(U, P, D):
    tr = U.tr
    a, b = tr.lyapunov_sample_loss(
        P, D, nexts(U, D), tr.lyapunov_positivity_sample_cost_weight,
        tr.lyapunov_derivative_sample_cost_weight)
    return a + b


def descend(U, opt, P, D, plan):
    """ one epoch over the batches of the plan """
    for bp, bd in plan:
        for p in U.params():
            p.grad = None
        loss = sample_loss(U, P[bp], D[bd])
        if loss.requires_grad:
            loss.backward()
        opt.step()


def descent(U, P, D, epochs):
    """ one batch per epoch; the best epoch is kept -> (state, loss) """
    opt = optimizer(U.tr, U.params())
    best = float(sample_loss(U, P, D).detach())
    keep = U.snapshot()
    for e in range(epochs):
        descend(U, opt, P, D, [(slice(None), slice(None))])
        v = float(sample_loss(U, P, D).detach())
        if v < best or v == 0:
            best, keep = v, U.snapshot()
        if v == 0.:
            break
    last = same(keep, U.snapshot(), 0.)
    U.restore(keep)
    return keep, best, last


def grown(old, new, size, got, value, tol):
    """ is `got` the last `size` of old + new?  None: cannot say, as a new
    state with the value zero may or may not count as a counterexample """
    full = torch.cat((old, new))
    if same([got], [full[-size:]], tol):
        return True
    border = any(abs(float(v)) < 1e-7 for X in (new, got) for x in X.tolist()
                 for v in value([F(t) for t in x]))
    return None if border else False


def adversarial_work(cx, tier, cfg, k):
    kw = dict(config=[str(t) for t in cfg])
    N = 2 if tier == "quick" else 3
    variants = list(itertools.product(
        OPT + [("SGD", .9, .3)], [1, 2, 5], [(3, 2), (1, 1)], [True, False],
        [(10000, 10000), (4, 3)], [float("inf"), .25, 4.], [0, 2],
        [(0., 0.), (.25, .125)], [(1., 1.), (2., 0.), (0., 1.)]))
    step = 577 if tier == "quick" else 389
    variants = variants[(k * 29) % step::step]
    # steps that are too long: the best epoch is not the last one
    variants += [(("SGD", 0., lr), e, (3, 2), False, (10000, 10000),
                  float("inf"), 0, (.25, .125), (1., 1.))
                 for lr, e in ((3., 2), (1., 4))]
    for (opt, mom, lr), epochs, pools, only, sizes, radius, pert, mg, w in \
            variants:
        if cx.out_of_time():
            return
        flags = dict(optimizer=[opt, mom, lr], epochs=epochs, pools=pools,
                     only=only, sizes=sizes, radius=radius, perturb=pert,
                     margins=mg, weights=w)

        def fresh(iters, tols=(-1e9, -1e9)):
            U = Setup(cfg, optimizer=opt, momentum=mom, learning_rate=lr,
                      max_iterations=iters,
                      lyapunov_positivity_mip_pool_solutions=pools[0],
                      lyapunov_derivative_mip_pool_solutions=pools[1],
                      lyapunov_positivity_sample_cost_weight=w[0],
                      lyapunov_derivative_sample_cost_weight=w[1],
                      lyapunov_positivity_sample_margin=mg[0],
                      lyapunov_derivative_sample_margin=mg[1],
                      add_positivity_adversarial_state=True,
                      add_derivative_adversarial_state=True,
                      add_adversarial_state_only=only,
                      lyapunov_positivity_convergence_tol=tols[0],
                      lyapunov_derivative_convergence_tol=tols[1])
            o = U.tr.AdversarialTrainingOptions()
            o.num_batches, o.num_epochs_per_mip = 1, epochs
            o.positivity_samples_pool_size = sizes[0]
            o.derivative_samples_pool_size = sizes[1]
            o.adversarial_cluster_radius = radius
            o.perturb_derivative_sample_count = pert
            # perturbed states have to stay in a mode of a hybrid system
            o.perturb_derivative_sample_std = 0. if U.kind == "hyb" else 1e-3
            return U, o, samples_of(U, k, 2), samples_of(U, k + 1, 2)
        U, o, P, D = fresh(N)
        seed = 77 + k
        torch.manual_seed(seed)
        traj, maxima = [U.snapshot()], []
        ok, kinky = True, False
        for i in range(N):
            U.reread()
            dm = U.der_max()
            if dm is None:
                ok = False
                cx.count("no transition stays in the box")
                break
            maxima.append((float(U.pos_max()), float(dm)))
            a = U.tr.solve_positivity_mip()[2]
            b = U.tr.solve_lyap_derivative_mip()[2]
            if radius != float("inf"):
                a, b = cluster(a, radius)[0], cluster(b, radius)[0]
            run = fresh(i + 1)
            torch.manual_seed(seed)
            try:
                # in one order of the samples: no other sums at kinks
                soil(run[0])
                with next(iter(Schedules(1))):
                    ret = run[0].tr.train_adversarial(run[2], run[3], run[1])
            except OUT as e:
                if U.kind != "hyb":
                    raise
                return cx.fail("train_adversarial of a hybrid system: an "
                               "adversarial state is out of all modes by "
                               "rounding", message=str(e), **flags, **kw)
            cx.trans()
            cx.states()
            if len(ret) != 5 or ret[0] is not False:
                return cx.fail("train_adversarial() reports success",
                               got=ret[0], **flags, **kw)
            P2, D2 = ret[1], ret[2]
            one = grown(P, a, sizes[0], P2, lambda x: [U.pos(x)], 1e-7)
            two = grown(D, torch.cat((b, ) * (1 + pert)), sizes[1], D2,
                        lambda x: [U.der(x, y) for y in U.succ(x)],
                        1e-2 if pert else 1e-7)
            if False in (one, two):
                return cx.fail("pool of adversarial states", got=[P2, D2],
                               want=[P, a, D, b], sizes_=sizes, iteration=i,
                               **flags, **kw)
            if None in (one, two):
                # a worst state of value zero (x* for instance)
                cx.count("borderline adversarial state")
                ok = False
                break
            if ret[3].shape != (len(P2), ) or ret[4].shape != (len(D2), ):
                return cx.fail("repetitions", got=[ret[3], ret[4]], **flags,
                               **kw)
            P, D = P2, D2
            # ---- descent on the pools: one batch, so no schedule
            if len(P) == 0 or len(D) == 0:
                ok = False
                break
            begin = U.snapshot()
            start = float(sample_loss(U, P, D).detach())
            keep, best, last = descent(U, P, D, epochs)
            cx.outcome("descent", best < start, best == 0, last)
            if not last:
                cx.count("best epoch before the last one: " + U.kind)
            got = run[0].snapshot()
            if not same(got, keep, 1e-7):
                # kinks: the smallest difference may take another side
                for t in range(24):
                    U.restore([q * (1 + 1e-12 * torch.randn(
                        q.shape, dtype=lyap.DT)) for q in begin])
                    if same(got, descent(U, P, D, epochs)[0], 1e-6):
                        cx.count("a kink was taken on the other side")
                        break
                else:
                    return cx.fail("train_adversarial() is not at the "
                                   "documented state", iteration=i, got=got,
                                   want=keep, **flags, **kw)
                U.restore(got)
                keep, kinky = got, True
            v = float(sample_loss(run[0], P, D).detach())
            if v > start + 1e-9:
                return cx.fail("the descent made the samples worse", got=v,
                               want=start, **flags, **kw)
            for p in run[0].params():
                if not (p.is_leaf and p.requires_grad):
                    return cx.fail("a parameter can no longer be trained",
                                   **flags, **kw)
            traj.append(keep)
        if not ok or pert and U.kind != "hyb":
            continue
        ts = [sorted({v[j] + e for v in maxima for e in (1e-3, -1e-3)})
              for j in (0, 1)]
        pairs = list(itertools.product(*ts))
        for tols in pairs if tier != "quick" else pairs[k % 3::3]:
            if cx.out_of_time():
                return
            first = next((i for i, v in enumerate(maxima) if
                          v[0] < tols[0] and v[1] < tols[1]), None)
            U, o, P, D = fresh(N, tols)
            torch.manual_seed(seed)
            with next(iter(Schedules(1))):
                ret = U.tr.train_adversarial(P, D, o)
            cx.trans()
            cx.outcome("stop", first)
            at = N if first is None else first
            if ret[0] is not (first is not None) or (not kinky and not same(
                    U.snapshot(), traj[at], 1e-7)):
                return cx.fail("train_adversarial() is wrong about success",
                               got=ret[0], maxima=maxima, tolerances=tols,
                               **flags, **kw)
            if ret[0]:
                U.reread()
                if float(U.pos_max()) >= tols[0] or float(
                        U.der_max()) >= tols[1]:
                    return cx.fail("reported as converged, but is not",
                                   tolerances=tols, **flags, **kw)
    cx.traces()


def schedule_work(cx, tier, cfg, k):
    """ shuffled batches: every schedule ends in a documented state """
    kw = dict(config=[str(t) for t in cfg])
    if not hasattr(tlb.Trainer, "_batch_descent_on_samples"):
        cx.count("no separate descent")
        cx.states()
        return
    budget = 40 if tier == "quick" else 2000
    for (opt, mom, lr), (np_, nd, nb) in itertools.product(
            OPT[::2], ((4, 3, 2), (2, 4, 2), (3, 3, 3))):
        U = Setup(cfg, optimizer=opt, momentum=mom, learning_rate=lr,
                  lyapunov_positivity_sample_margin=.5,
                  lyapunov_derivative_sample_margin=.25)
        P, D = samples_of(U, k, np_), samples_of(U, k + 1, nd)
        start = U.snapshot()
        l0 = float(sample_loss(U, P, D).detach())
        sp = splits(np_, -(-np_ // nb))
        sd = splits(nd, -(-nd // nb))
        ends = []
        for a, b in itertools.product(sp, sd):
            U.restore(start)
            descend(U, optimizer(U.tr, U.params()), P, D, list(zip(a, b)))
            v = float(sample_loss(U, P, D).detach())
            ends.append(U.snapshot() if v < l0 or v == 0. else start)
            cx.states()
        o = U.tr.AdversarialTrainingOptions()
        o.num_batches, o.num_epochs_per_mip = nb, 1
        seen = set()
        sch = Schedules(budget)
        for s in sch:
            if cx.out_of_time():
                return
            U.restore(start)
            with s:
                U.tr._batch_descent_on_samples(
                    P, D, optimizer(U.tr, U.params()), torch.ones(np_),
                    torch.ones(nd), o)
            cx.trans()
            got = U.snapshot()
            hit = [i for i, e in enumerate(ends) if same(got, e, 1e-8)]
            if not hit:
                return cx.fail("a schedule of the batches ends elsewhere",
                               schedule=s.trace, start=l0, sizes=[
                                   np_, nd, nb], optimizer=opt, got=float(
                                       sample_loss(U, P, D)), **kw)
            seen.add(hit[0])
        cx.outcome("schedules", len(seen) > 1)
        cx.count("schedules of the batches", sch.done)
    cx.traces()


def on_samples_work(cx, tier, cfg, k):
    """ every split into training and test set, every order of batches """
    kw = dict(config=[str(t) for t in cfg])
    for n, bs, epochs in ((5, 4, 3), (5, 2, 1), (6, 4, 2)):
        lr = [.05, .3][(k + n) % 2]
        U = Setup(cfg, learning_rate=lr, lyapunov_positivity_sample_margin=.5,
                  lyapunov_derivative_sample_margin=.25)
        X = samples_of(U, k, n)
        # no symmetric pairs: their gradients cancel up to rounding, which
        # the optimiser amplifies
        mid = (X.max(0).values + X.min(0).values) / 2
        X = mid + (X - mid) * (1 - torch.arange(n).unsqueeze(1) / 37)
        start = U.snapshot()
        ntrain = int(n * .8)

        def reference(begin):
            """ where every split and every order of its batches ends """
            for tr_set in itertools.combinations(range(n), ntrain):
                te = [i for i in range(n) if i not in tr_set]
                XT, XE = X[list(tr_set)], X[te]
                for seq in itertools.product(splits(ntrain, bs),
                                             repeat=epochs):
                    U.restore(begin)
                    oref = torch.optim.Adam(U.params(), lr=lr)
                    best, keep = float("inf"), None
                    for plan in seq:
                        descend(U, oref, XT, XT, [(b, b) for b in plan])
                        v = float(sample_loss(U, XE, XE).detach())
                        if v < best:
                            best, keep = v, U.snapshot()
                    yield tr_set, keep, best
        ends = []
        for e in reference(start):
            ends.append(e)
            cx.states()
        sch = Schedules(20 if tier == "quick" else 600)
        for s in sch:
            if cx.out_of_time():
                return
            U.restore(start)
            soil(U)
            with s:
                U.tr.train_lyapunov_on_samples(X, epochs, bs)
            cx.trans()
            got = U.snapshot()
            hit = [e for e in ends if same(got, e[1], 1e-8)]
            # kinks: the smallest difference may take another side
            for t in range(0 if hit else 12):
                hit = [e for e in reference([
                    q * (1 + 1e-12 * torch.randn(q.shape, dtype=lyap.DT))
                    for q in start]) if same(got, e[1], 1e-6)]
                if hit:
                    cx.count("a kink was taken on the other side")
                    break
            if not hit:
                return cx.fail("training on samples ends elsewhere",
                               schedule=s.trace, samples=n, batch=bs,
                               epochs=epochs, **kw)
            cx.outcome("split", hit[0][0])
        cx.count("schedules of the splits", sch.done)
    cx.traces()


# ------------------------------------------------------------- clustering
def cluster(X, radius):
    return tlb._cluster_adversarial_states(X, radius)


def cluster_work(cx, tier, n):
    vals = [F(0), F(1, 4), F(1), F(9, 8)]
    for d, q in itertools.product((1, 2), itertools.product(vals, repeat=n)):
        pts = [(v, ) if d == 1 else (v, F(i % 2, 4)) for i, v in
               enumerate(q)]
        X = torch.stack([T(p) for p in pts]) if n else torch.empty(
            (0, d), dtype=lyap.DT)
        cx.states()
        for radius in (F(3, 16), F(1, 2), F(5)):
            got, rep = cluster(X, float(radius))
            cx.trans()
            # a state that is close to its predecessor repeats its cluster
            want, reps = [], []
            for i, p in enumerate(pts):
                if i and sum((a - b)**2 for a, b in zip(
                        p, pts[i - 1])) <= radius**2:
                    reps[-1] += 1
                else:
                    want.append(p)
                    reps.append(1)
            cx.outcome(len(want), n)
            if [tuple(map(F, r)) for r in got.tolist()] != want or [
                    float(v) for v in rep.tolist()] != reps:
                return cx.fail("clusters of adversarial states", states=pts,
                               radius=radius, got=[got, rep],
                               want=[want, reps])
    cx.traces()


# ------------------------------------------------------- value approximator
def value_work(cx, tier, d, k):
    for slope, lam, R, tol, lr, ep in itertools.product(
            ("relu", .25), (F(1, 2), F(2)), list(lyap.RS[d]),
            (-1., 1e6, .4), (.05, ), (1, 3)):
        xeq = [F(1, 4), F(-1, 2)][:d]
        C = lyap.Candidate(d, xeq, 60 + k, lam, R, slope, (2, ), True)
        grid = [tuple(p) for p in cells.grid([-1] * d, [F(3, 2)] * d,
                                             4 if d == 1 else 3)]
        vals = [F((3 * i) % 5, 4) for i in range(len(grid))]
        pairs = [(T(p), torch.tensor(float(v), dtype=lyap.DT))
                 for p, v in zip(grid, vals)]
        params = list(C.net.parameters())
        cx.states()

        def mse():
            C.reread()
            return float(sum((C.V(p) - v)**2 for p, v in zip(
                grid, vals)) / len(grid))
        start = [p.detach().clone() for p in params]

        def forward():
            X = torch.stack([a for a, _ in pairs])
            Rm = nets.tensor(C.R)
            V = C.net(X).squeeze() - C.net(T(xeq)) + float(lam) * torch.norm(
                (X - T(xeq)) @ Rm.T, p=1, dim=1)
            return torch.mean((V - torch.stack([b for _, b in pairs]))**2)
        o = torch.optim.Adam(params, lr=lr)
        want, loss = False, None
        for e in range(ep):
            loss = mse()
            if loss <= tol:
                want = True
                break
            for p in params:
                p.grad = None
            forward().backward()
            o.step()
        end = [p.detach().clone() for p in params]
        with torch.no_grad():
            for p, q in zip(params, start):
                p.copy_(q)
        a = tlb.TrainValueApproximator()
        a.max_epochs, a.convergence_tolerance, a.learning_rate = ep, tol, lr
        got = a.train_with_cost_to_go(C.net, pairs, float(lam), T(xeq), C.Rt)
        cx.trans()
        cx.outcome(want, tol)
        if got[0] is not want or not (abs(got[1] - loss) <= 1e-9 * max(1, loss)) or \
                not same([p.detach() for p in params], end, 1e-8):
            return cx.fail("value approximator", R=R, slope=slope, lam=lam,
                           tolerance=tol, epochs=ep, got=got,
                           want=[want, loss])
        if want and mse() > tol:
            return cx.fail("value approximator: not within the tolerance",
                           got=mse(), tolerance=tol)
    # ---- from a system: the samples are the costs of its trajectories
    s = hls.AutonomousHybridLinearSystem(1, lyap.DT)
    one = torch.ones((1, 1), dtype=lyap.DT)
    s.add_mode(one * .5, T([F(0)]), torch.cat((one, -one)), T([F(0), F(2)]))
    s.add_mode(one * .25, T([F(0)]), torch.cat((-one, one)), T([F(0), F(2)]))
    for lam, steps in itertools.product((F(1, 2), F(1)), (1, 2, 4)):
        C = lyap.Candidate(1, [F(0)], 60 + k, lam, None, "relu", (2, ), True)
        x0 = [F(-1), F(1), F(3, 2)]
        costs = []  # of every state on the trajectories
        for x in x0:
            traj = [x]
            for i in range(steps):
                x = x * (F(1, 2) if x <= 0 else F(1, 4))
                traj.append(x)
            costs += [(x, sum(t * t for t in traj[i:]))
                      for i, x in enumerate(traj)]
        a = tlb.TrainValueApproximator()
        a.max_epochs, a.convergence_tolerance = 1, 1e9
        got = a.train(s, C.net, float(lam), T([F(0)]), lambda x: x @ x,
                      torch.stack([T([x]) for x in x0]), steps, True, None)
        cx.trans()
        loss = float(sum((C.V([x]) - c)**2 for x, c in costs) / len(costs))
        if got[0] is not True or not (abs(got[1] - loss) <= 1e-9):
            return cx.fail("value approximator from a system", got=got,
                           want=loss, steps=steps)
    cx.traces()


def work(cx, task):
    tier, group, cfg, k = task
    dict(train=train_work, adversarial=adversarial_work,
         schedule=schedule_work, on_samples=on_samples_work)[group](
             cx, tier, cfg, k) if group not in ("cluster", "value") else (
                 cluster_work(cx, tier, k) if group == "cluster" else
                 value_work(cx, tier, cfg, k))


def tasks(tier):
    quick = tier == "quick"
    cs = configs(tier)
    out = []
    for i, c in enumerate(cs):
        for j, g in enumerate(("train", "adversarial", "schedule",
                               "on_samples")):
            if quick and (g == "schedule" and i % 3 or
                          g == "on_samples" and (i + 1) % 3):
                continue
            if g in ("schedule", "on_samples") and c[0][1] == 2 and quick:
                continue
            out.append((tier, g, c, i))
    out += [(tier, "cluster", None, n) for n in range(0, 5 if quick else 7)]
    out += [(tier, "value", d, k) for d in (1, 2)
            for k in range(2 if quick else 6)]
    return out


if __name__ == "__main__":
    mc.main("C31", tasks, work, rule="every configuration (system, network, R)"
            " x the declared variants of the training options: every prefix "
            "of the training trajectory, every pair of tolerances around the "
            "optimal values met, every schedule of the shuffles (up to a "
            "bound on their number), every split",
            assumptions=["the MIP stand-in holds what the code put in",
                         "the optimiser's own step is torch's",
                         "initial sample sets of the adversarial training are "
                         "not empty"])

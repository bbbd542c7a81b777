"""
C11: every ReLU dynamics class: the simulated step equals the stated map, and
the mixed-integer constraints that are added for it allow, at every state and
input and for every assignment of the binaries, exactly that successor.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "lib"))
import mc  # noqa: E402
import cells  # noqa: E402
import nets  # noqa: E402
import numpy as np  # noqa: E402
import torch  # noqa: E402
import gurobipy  # noqa: E402
from mip import Encoding  # noqa: E402
from program import Program  # noqa: E402

import neural_network_lyapunov.relu_system as rs  # noqa: E402
from neural_network_lyapunov import gurobi_torch_mip as gtm  # noqa: E402
from neural_network_lyapunov import mip_utils  # noqa: E402

DT = torch.float64
GRB = gurobipy.GRB
PM = mip_utils.PropagateBoundsMethod
METHODS = {"IA": PM.IA, "LP": PM.LP, "MIP": PM.MIP, "IA_MIP": PM.IA_MIP}
TOL = 1e-6


def T(v):
    return nets.tensor(list(v))


class Sys:
    """ one configuration: the object under test and its exact reference """
    def __init__(self, kind, widths, slope, k, bias, xbox, ubox, xeq, ueq,
                 method, disc, dt, idx, extra):
        self.kind, self.disc = kind, disc
        self.net = nets.table_net(widths, slope, k, bias)
        self.layers = cells.layers_of(self.net)
        self.xlo, self.xup = [list(map(F, b)) for b in xbox]
        self.ulo, self.uup = [list(map(F, b)) for b in ubox] if ubox else (
            [], [])
        self.nx, self.nu = len(self.xlo), len(self.ulo)
        self.xeq, self.ueq = list(map(F, xeq or [])), list(map(F, ueq or []))
        self.dt = F(dt)
        self.idx = idx
        self.extra = extra
        self.method = METHODS[method]
        a = (DT, T(self.xlo), T(self.xup))
        u = (T(self.ulo), T(self.uup))
        m = dict(network_bound_propagate_method=self.method)
        if kind == "auto":
            self.obj = rs.AutonomousReLUSystem(*a, self.net, **m)
        elif kind == "autoeq":
            self.obj = rs.AutonomousReLUSystemGivenEquilibrium(
                *a, self.net, T(self.xeq), disc, **m)
        elif kind == "autores":
            self.obj = rs.AutonomousResidualReLUSystemGivenEquilibrium(
                *a, self.net, T(self.xeq), disc, **m)
        elif kind == "ctrl":
            self.obj = rs.ReLUSystem(*a, *u, self.net)
        elif kind == "ctrleq":
            self.obj = rs.ReLUSystemGivenEquilibrium(
                *a, *u, self.net, T(self.xeq), T(self.ueq), disc)
        elif kind == "second":
            self.obj = rs.ReLUSecondOrderSystemGivenEquilibrium(
                *a, *u, self.net, T(self.xeq), T(self.ueq), float(dt))
        elif kind == "secondres":
            self.obj = rs.ReLUSecondOrderResidueSystemGivenEquilibrium(
                *a, *u, self.net, T(self.xeq), T(self.ueq), float(dt),
                list(idx))
        self.nv = widths[-1]
        self.nq = self.nx - self.nv

    def phi(self, z):
        return cells.eval_layers(self.layers, z)[0]

    def f(self, x, u):
        k = self.kind
        if k == "auto":
            return self.phi(x)
        if k in ("autoeq", "autores"):
            d = [a - b for a, b in zip(self.phi(x), self.phi(self.xeq))]
            if self.disc:
                add = self.xeq if k == "autoeq" else x
                d = [a + b for a, b in zip(d, add)]
            return d
        if k == "ctrl":
            return self.phi(list(x) + list(u))
        if k == "ctrleq":
            d = [a - b for a, b in zip(self.phi(list(x) + list(u)),
                                       self.phi(self.xeq + self.ueq))]
            if self.disc:
                d = [a + b for a, b in zip(d, self.xeq)]
            return d
        q, v = list(x[:self.nq]), list(x[self.nq:])
        xeq = self.xeq + [F(0)] * self.nv
        if k == "second":
            vn = [a - b for a, b in zip(self.phi(list(x) + list(u)),
                                        self.phi(xeq + self.ueq))]
        else:
            vn = [a + b - c for a, b, c in zip(
                v, self.phi([x[i] for i in self.idx] + list(u)),
                self.phi([xeq[i] for i in self.idx] + self.ueq))]
        qn = [a + (b + c) * self.dt / 2 for a, b, c in zip(q, v, vn)]
        return qn + vn

    def equilibrium(self):
        if self.kind in ("auto", "ctrl"):
            return None
        if self.kind.startswith("second"):
            return self.xeq + [F(0)] * self.nv, self.ueq
        return self.xeq, self.ueq

    def step(self, x, u):
        a = (x, ) if not self.nu else (x, u)
        return self.obj.step_forward(*a)


def configs(tier):
    quick = tier == "quick"
    out = []

    def add(*a, dt=F(1, 4), idx=None, extra=None, method="IA", disc=True,
            ueq=None, ubox=None, xeq=None):
        kind, widths, slope, k, bias, xbox = a
        out.append((kind, widths, slope, k, bias, xbox, ubox, xeq, ueq,
                    method, disc, dt, idx, extra))
    B1 = [((-1, ), (1, )), ((F(-1, 2), ), (F(3, 2), ))]
    B2 = [((-1, -1), (1, 1)), ((0, -1), (1, F(1, 2)))]
    nets1 = [((1, 2, 1), "relu", 21, True), ((1, 2, 2, 1), (0.125, "relu"), 22, False),
             ((1, 1, 1), "relu", 23, True), ((1, 3, 1), 0.5, 24, (False, True))
             ]
    nets2 = [((2, 2, 2), "relu", 25, True), ((2, 3, 2), 0.125, 26, False),
             ((2, 2, 2, 2), ("relu", 0.5), 27, (True, False, True))]
    if not quick:
        nets1 += [((1, 2, 2, 1), "relu", k, b) for k in range(30, 36)
                  for b in (True, (True, True, False))]
        nets2 += [((2, 3, 3, 2), s, k, True) for k in range(40, 44)
                  for s in ("relu", .25)]
        B1 += [((F(1, 4), ), (F(1, 4), )), ((-2, ), (-1, ))]
        B2 += [((F(-1, 2), F(1, 4)), (F(3, 2), F(1, 4)))]
    for meth in METHODS:
        for (net, box) in [*itertools.product(nets1, B1),
                           *itertools.product(nets2, B2)]:
            d = net[0][0]
            eqs = [[F(0)] * d, [F(1, 4), F(-1, 2)][:d]] if not quick else [
                [F(1, 4), F(-1, 2)][:d]]
            add("auto", *net, box, method=meth)
            for disc, eq in itertools.product((True, False), eqs):
                add("autoeq", *net, box, xeq=eq, method=meth, disc=disc)
                add("autores", *net, box, xeq=eq, method=meth, disc=disc)
    # controlled systems
    U1 = [((-1, ), (1, ))] + ([] if quick else [((0, ), (F(1, 2), ))])
    cn = [((2, 2, 1), "relu", 51, True, 1, 1), ((2, 3, 1), .125, 52, False, 1,
                                                1),
          ((3, 2, 2), "relu", 53, True, 2, 1), ((3, 2, 1), "relu", 54, True,
                                                1, 2),
          ((3, 2, 2, 2), (.25, .5), 55, (True, False, True), 2, 1)]
    if not quick:
        cn += [((2, 3, 2, 1), s, 60 + k, b, 1, 1) for k in range(4)
               for s in ("relu", .125) for b in (True, (False, True, False))]
        cn += [((3, 3, 2), s, 70 + k, True, 2, 1) for k in range(3)
               for s in ("relu", .5)]
    extras = [None, ((F(-1, 2), ), (2, )), ((-3, ), (F(1, 4), ))]
    for (w, s, k, b, nx, nu), u1, ex in itertools.product(cn, U1, extras):
        ub = tuple(tuple(t) * nu for t in u1)
        e = ex and tuple(tuple(t) * nu for t in ex)
        xb = ([((-1, ), (1, )), ((0, ), (2, ))] if nx == 1 else
              [((-1, -1), (1, 1)), ((0, -1), (1, F(1, 2)))])
        for xbox in xb if not quick else xb[1:]:
            add("ctrl", w, s, k, b, xbox, ubox=ub, extra=e)
            for disc in (True, False):
                add("ctrleq", w, s, k, b, xbox, ubox=ub, extra=e, disc=disc,
                    xeq=[F(1, 4), F(1, 4)][:nx], ueq=[F(1, 4), F(0)][:nu])
    # second order systems
    sn = [((3, 2, 1), "relu", 81, True, 1), ((3, 2, 2, 1), .125, 82, False, 1)
          ]
    rn = [((2, 2, 1), "relu", 83, True, 1, (1, )), ((3, 2, 1), .25, 84, True,
                                                    1, (0, 1)),
          ((3, 2, 1), "relu", 85, False, 1, (1, 0)),
          ((3, 2, 2), "relu", 86, True, 1, (1, 3)),
          ((4, 2, 2), .125, 87, True, 2, (2, 0))]
    if not quick:
        sn += [((5, 2, 2), "relu", 88, True, 1), ((6, 3, 2), .25, 89, True, 2)]
        rn += [((2, 3, 2), .25, 90, True, 1, (2, ))]
    for (w, s, k, b, nu), ex, dt in itertools.product(sn, extras, (
            F(1, 4), F(1, 2))):
        nq = w[-1]
        add("second", w, s, k, b, ((-1, ) * nq + (-2, ) * nq,
                                   (2, ) * nq + (1, ) * nq), dt=dt,
            ubox=((-1, ) * nu, (1, ) * nu),
            extra=ex and tuple(tuple(t) * nu for t in ex),
            xeq=[F(1, 2), F(-1, 4)][:nq], ueq=[F(1, 4), F(0)][:nu])
    for (w, s, k, b, nu, idx), ex, dt in itertools.product(rn, extras, (
            F(1, 4), F(1, 2))):
        nq = w[-1]
        add("secondres", w, s, k, b, ((-1, ) * nq + (-2, ) * nq,
                                      (2, ) * nq + (1, ) * nq), dt=dt,
            idx=idx, ubox=((-1, ) * nu, (1, ) * nu),
            extra=ex and tuple(tuple(t) * nu for t in ex),
            xeq=[F(1, 2), F(-1, 4)][:nq], ueq=[F(1, 4), F(0)][:nu])
    return out


def points(S, n, tier):
    lo, up = S.xlo + S.ulo, S.xup + S.uup
    return [(list(p[:S.nx]), list(p[S.nx:])) for p in cells.grid(lo, up, n)]


def refs(S):
    """ points where hidden units switch, in low dimension """
    if S.nx + S.nu > 2 or S.kind.startswith("second"):
        return []
    lo, up = S.xlo + S.ulo, S.xup + S.uup
    c = [cells.box_cell(lo, up)]
    d = len(lo)
    ident = [cells.Aff([F(int(i == j)) for j in range(d)], F(0))
             for i in range(d)]
    c = [cells.Cell(k.verts, {"x": ident}, ()) for k in c]
    c = cells.network(c, "x", "y", S.layers)
    return [(list(p[:S.nx]), list(p[S.nx:]))
            for p in cells.vertices(c) + cells.midpoints(c)]


def simulate(cx, S, pts):
    # the stated map, single and batched, arguments untouched
    X = torch.stack([T(x) for x, _ in pts])
    U = torch.stack([T(u) for _, u in pts]) if S.nu else None
    X0 = X.clone()
    p0 = [p.detach().clone() for p in S.net.parameters()]
    batch = S.step(X, U)
    for i, (x, u) in enumerate(pts):
        want = np.array([float(v) for v in S.f(x, u)])
        one = S.step(X[i], U[i] if S.nu else None).detach().numpy()
        dx = S.obj.possible_dx(*((X[i], U[i]) if S.nu else (X[i], )))
        cx.trans(2)
        b = batch[i].detach().numpy()
        if one.shape != want.shape or not (np.abs(one - want).max() <= 1e-9):
            return cx.fail("step_forward is not the stated dynamics", x=x, u=u,
                           got=one, want=want)
        if b.shape != want.shape or not (np.abs(b - want).max() <= 1e-9):
            return cx.fail("batched step_forward differs", x=x, u=u, got=b,
                           want=want)
        if len(dx) != 1 or not (np.abs(dx[0].detach().numpy() - want).max() <= 1e-9):
            return cx.fail("possible_dx is not the stated dynamics", x=x, u=u,
                           want=want)
    if not torch.equal(X, X0) or any(
            not torch.equal(a, b) for a, b in zip(p0, S.net.parameters())):
        return cx.fail("step_forward changed its arguments or the network")
    # the derivative of the map, away from kinks
    X = X + .0123456789 * torch.sin(torch.arange(
        1., X.numel() + 1, dtype=DT)).reshape(X.shape)
    X = X[::2].clone().requires_grad_(True)
    leaves = [X] + list(S.net.parameters())
    if S.nu:
        U = U + .0123456789 * torch.cos(torch.arange(
            1., U.numel() + 1, dtype=DT)).reshape(U.shape)
        U = U[::2].clone().requires_grad_(True)
        leaves.append(U)
    mul = torch.cos(torch.arange(1., X.numel() + 1, dtype=DT))
    obj = getattr(S.obj, "_obj", S.obj)
    args = (X, U) if S.nu else (X, )
    for what, f in (("step_forward", lambda: (obj.step_forward(
            *args).reshape(-1) * mul).sum()), ("step_forward of one state",
            lambda: (obj.step_forward(*[a[0] for a in args]) *
                     mul[:S.nx]).sum()), ("possible_dx", lambda: (
                         obj.possible_dx(*[a[-1] for a in args])[0] *
                         mul[:S.nx]).sum())):
        if nets.slopes(cx, f, leaves, what, {}, [S.net]) is not True:
            return
    eq = S.equilibrium()
    if eq is not None:
        got = S.step(T(eq[0]), T(eq[1]) if S.nu else None).detach().numpy()
        want = np.array([float(v) for v in (eq[0] if S.disc else
                                            [0] * S.nx)])
        if not (np.abs(got - want).max() <= 1e-12):
            return cx.fail("the equilibrium is not an equilibrium", got=got,
                           want=want)
    return True


def direct(cx, S, pts, kw):
    """ the constraints as they are handed out, with and without bounds """
    if not hasattr(S.obj, "mixed_integer_constraints"):
        return True
    calls = [((), S.ulo, S.uup)]
    if S.nu and S.extra is not None:
        el, eu = [list(map(F, b)) for b in S.extra]
        a = [max(p, q) for p, q in zip(S.ulo, el)]
        b = [min(p, q) for p, q in zip(S.uup, eu)]
        calls += [((T(a), ), a, S.uup), ((None, T(b)), S.ulo, b),
                  ((T(a), T(b)), a, b)]
    for args, ul, uu in calls:
        enc = Encoding(S.obj.mixed_integer_constraints(*args),
                       num_input=S.nx + S.nu)
        for name in ("Aout_input", "Aout_slack", "Aout_binary"):
            m = enc.g[name]
            if m is not None and m.ndim == 1:
                enc.g[name] = m.reshape(1, -1)
        enc.no = S.nx
        for x, u in pts:
            if cx.out_of_time():
                return True
            p = np.array([float(v) for v in x + u])
            inside = all(a <= b <= c for a, b, c in zip(ul, u, uu))
            want = np.array([float(v) for v in S.f(x, u)])
            n = 0
            for z in enc.binaries():
                r = enc.at(p, z)
                cx.trans()
                if r is None:
                    continue
                n += 1
                if np.any(np.abs(r[0] - want) > TOL) or np.any(
                        np.abs(r[1] - want) > TOL):
                    return cx.fail("mixed_integer_constraints allow a "
                                   "different successor", x=x, u=u, want=want,
                                   allowed=r[:2], binaries=z, **kw)
            if bool(n) != inside:
                return cx.fail("mixed_integer_constraints exclude a "
                               "transition or allow an input outside of the "
                               "bounds", x=x, u=u, allowed=n, bounds=(ul, uu),
                               **kw)
            cx.outcome("direct", len(args), n)
    return True


def work(cx, task):
    tier, cfg = task
    S = Sys(*cfg)
    n = 5 if S.nx + S.nu <= 2 else 3
    pts = points(S, n, tier) + refs(S)
    if S.nx + S.nu > 3:
        pts = pts[::3]
    cx.states(len(pts))
    kw = dict(config=[str(c) for c in cfg])
    for name, want in (("x_lo_all", S.xlo), ("x_up_all", S.xup)):
        got = getattr(S.obj, name)
        if not isinstance(got, np.ndarray) or \
                got.tolist() != [float(t) for t in want]:
            return cx.fail("declared box of the states: " + name, got=got,
                           want=want, **kw)
    real, S.obj = S.obj, nets.Aged(S.obj, S.net)
    if simulate(cx, S, pts) is None:
        return
    if direct(cx, S, pts[::2] if tier == "quick" else pts, kw) is None:
        return
    S.obj = real
    with nets.earlier(S.net):
        mip = gtm.GurobiTorchMILP(DT)
        S.obj.add_dynamics_constraint(
            mip, *(mip.addVars(n, lb=-GRB.INFINITY)
                   for n in (S.nx, S.nx) + ((S.nu, ) if S.nu else ())),
            "s", "b")
    # ---- the constraints, added twice to the same program
    relaxed = None
    for btype in (GRB.BINARY, gtm.BINARYRELAX):
        mip = gtm.GurobiTorchMILP(DT)
        x = mip.addVars(S.nx, lb=-GRB.INFINITY, name="x")
        y = mip.addVars(S.nx, lb=-GRB.INFINITY, name="y")
        y2 = mip.addVars(S.nx, lb=-GRB.INFINITY, name="y2")
        u = mip.addVars(S.nu, lb=-GRB.INFINITY, name="u") if S.nu else None
        ul, uu = S.ulo, S.uup
        args = {}
        if S.nu and S.extra is not None:
            el, eu = [list(map(F, b)) for b in S.extra]
            if cfg[4] is False:
                args = dict(additional_u_lo=T(el))
                ul = [max(a, b) for a, b in zip(ul, el)]
            else:
                args = dict(additional_u_lo=T(el), additional_u_up=T(eu))
                ul = [max(a, b) for a, b in zip(ul, el)]
                uu = [min(a, b) for a, b in zip(uu, eu)]
        rets = []
        for k, yy in enumerate((y, y2)):
            a = (x, yy) + ((u, ) if S.nu else ())
            rets.append(S.obj.add_dynamics_constraint(
                mip, *a, f"s{k}", f"b{k}", binary_var_type=btype, **args))
        prog = Program(mip.gurobi_model)
        if btype == gtm.BINARYRELAX:
            relaxed = prog
            if prog.bin:
                return cx.fail("relaxed binaries are not continuous", **kw)
        else:
            exact, ret, V = prog, rets[0], (x, y, u, y2)
        VR = (x, y, u, y2)
    x, y, u, y2 = V
    xr, yr, ur, y2r = VR
    ret_relu_lo = ret.relu_input_lo
    ins = list(x if S.idx is None else [x[i] for i in S.idx]) + list(u or [])
    if [v.VarName for v in ret.nn_input] != [v.VarName for v in ins]:
        return cx.fail("nn_input are not the network inputs", **kw)
    bp = None
    if ret.x_next_bound_prog is not None:
        bp = Program(ret.x_next_bound_prog.gurobi_model)
        want_bin = S.method in (PM.MIP, PM.IA_MIP)
        if bool(bp.bin) != (want_bin and len(exact.bin) > 0):
            return cx.fail("wrong kind of bound program", **kw)
    want_ia = S.kind.startswith("auto") and S.method in (PM.IA, PM.IA_MIP)
    if want_ia != (ret.x_next_lb_IA is not None):
        return cx.fail("IA bounds (not) there", **kw)

    def val(t):
        return None if t is None else t.detach().numpy().reshape(-1)

    for p, w in pts:
        if cx.out_of_time():
            return
        inside = all(a <= b <= c for a, b, c in zip(ul, w, uu))
        fx = np.array([float(v) for v in S.f(p, w)])
        fix = {v: t for v, t in zip(x, p)}
        fix.update({v: t for v, t in zip(u or [], w)})
        n = 0
        for z, lo, up in exact.leaves(fix):
            n += 1
            cx.trans()
            for i, (mn, mx) in enumerate(exact.extent(
                    lo, up, [exact.unit(v) for v in y + y2])):
                if mn < fx[i % S.nx] - TOL or mx > fx[i % S.nx] + TOL:
                    return cx.fail(
                        "constraints allow a different successor", x=p, u=w,
                        component=i, allowed=[mn, mx], want=fx, binaries=z,
                        **kw)
        if inside and not n:
            return cx.fail("constraints exclude the true successor", x=p, u=w,
                           want=fx, **kw)
        if not inside and n:
            return cx.fail("inputs outside the given bounds are allowed", x=p,
                           u=w, **kw)
        cx.outcome(n)
        if not inside:
            continue
        full = {v: t for v, t in zip(xr, p)}
        full.update({v: t for v, t in zip(ur or [], w)})
        full.update({v: t for v, t in zip(yr, fx)})
        full.update({v: t for v, t in zip(y2r, fx)})
        if not relaxed.feasible({v: full[v] for v in full if v not in set(
                yr + y2r)}):
            return cx.fail("the relaxation excludes a true transition", x=p,
                           u=w, **kw)
        # bounds
        lo, up = val(ret.x_next_lb_IA), val(ret.x_next_ub_IA)
        if lo is not None and (np.any(fx < lo - TOL) or np.any(fx > up + TOL)):
            return cx.fail("x_next interval bounds do not enclose", x=p, u=w,
                           want=fx, lo=lo, up=up, **kw)
        nin = [float(v) for v in ([p[i] for i in S.idx] if S.idx is not None
                                  else p) + w]
        if S.kind != "second" or True:
            a, b = val(ret.nn_input_lo), val(ret.nn_input_up)
            if np.any(nin < a - TOL) or np.any(nin > b + TOL):
                return cx.fail("nn_input bounds do not enclose", x=p, u=w, **kw)
        zin = [F(v) for v in nin]
        out, pres = cells.eval_layers(S.layers, zin)
        out = np.array([float(v) for v in out])
        a, b = val(ret.nn_output_lo), val(ret.nn_output_up)
        if a is not None and (np.any(out < a - TOL) or np.any(out > b + TOL)):
            return cx.fail("nn_output bounds do not enclose", x=p, u=w, **kw)
        if ret_relu_lo is not None:
            flat = np.array([float(v) for layer in pres[:-1] for v in layer])
            a, b = val(ret.relu_input_lo), val(ret.relu_input_up)
            if len(a) == len(flat) and (np.any(flat < a - TOL) or np.any(
                    flat > b + TOL)):
                return cx.fail("relu input bounds do not enclose", x=p, u=w,
                               **kw)
        if bp is not None:
            fb = {v: t for v, t in zip(ret.x_var, p)}
            k = 0
            for z, lo, up in bp.leaves(fb):
                k += 1
                ex = bp.extent(lo, up, [bp.unit(v) for v in
                                        ret.x_next_bound_var])
                hit = all(mn - TOL <= t <= mx + TOL
                          for (mn, mx), t in zip(ex, fx))
                tight = all(t - TOL <= mn and mx <= t + TOL
                            for (mn, mx), t in zip(ex, fx))
                cx.trans()
                if not hit or (bp.bin and not tight):
                    return cx.fail("bound program differs from the dynamics",
                                   x=p, allowed=ex, want=fx, **kw)
            if not k:
                return cx.fail("bound program excludes a state", x=p, **kw)
    # outside of the box nothing may be claimed
    for j in range(len(ins)):
        base = {v: (a + b) / 2 for v, a, b in zip(x, S.xlo, S.xup)}
        base.update({v: (a + b) / 2 for v, a, b in zip(u or [], ul, uu)})
        lo_ = (S.xlo if S.idx is None else [S.xlo[i] for i in S.idx]) + ul
        up_ = (S.xup if S.idx is None else [S.xup[i] for i in S.idx]) + uu
        for t in (lo_[j] - F(1, 64), up_[j] + F(1, 64), up_[j] + 2):
            fix = dict(base)
            fix[ins[j]] = t
            cx.trans()
            if exact.feasible(fix):
                return cx.fail("a network input outside of its bounds is "
                               "allowed", which=j, value=t, **kw)
    cx.traces()
    cx.sample(config=kw["config"], points=len(pts), binaries=len(exact.bin))


def tasks(tier):
    return [(tier, c) for c in configs(tier)]


if __name__ == "__main__":
    mc.main("C11", tasks, work, rule="every configuration x every grid point "
            "and cell vertex/midpoint x every feasible binary assignment",
            assumptions=[
                "the MIP stand-in reads back what the code put in (validated "
                "by the repository's own gurobi tests)",
                "second-order systems: nq == nv",
                "tolerance 1e-6 on successors"])

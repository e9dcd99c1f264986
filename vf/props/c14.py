"""C14 parallel-in-time solvers converge to the sequential fine solution"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import Field, FieldModule, T, fine_solve, moves, rk_solve
from vf.props.c10 import weights
from vf.solvers import UserHeun3
from torchdyn.numerics.odeint import odeint_mshooting
from torchdyn.numerics.solvers.ode import MSBackward, MSZero, str_to_solver
from torchdyn.core import MultipleShootingLayer

F = core.Registry()
RULE = ("random autonomous field, batch, uniform grid with 2-7 points (both directions, offsets), coarse and fine methods as names or objects, number of "
        "fine steps, iteration limit 0-7, own or random initial shooting parameters; reference is the textbook recurrence in plain loops; non-trivial = "
        "more than two intervals and fewer iterations than intervals, or a converged solution different from the first guess")
ASSUMPTIONS = ["autonomous fields and uniform grids: the documented domain of these solvers"]
D = torch.float64
METHODS = ["euler", "midpoint", "rk4", "heun3"]
ZERO, NEWTON = ["mszero", "zero", "parareal"], ["msbackward", "backward", "discrete-adjoint"]


def propagate(name, f, x, dt, k):
    h = dt / k
    for i in range(k):
        x = rk_solve(name, f, x, torch.stack([i * h, (i + 1) * h]))[-1]
    return x


def reference(kind, coarse, fine, f, B, dt, k, iters):
    "textbook iterations over shooting points 0..N"
    N = len(B) - 1
    C, Fi = lambda b: propagate(coarse, f, b, dt, k), lambda b: propagate(fine, f, b, dt, k)
    for _ in range(iters):
        new = [B[0]]
        for m in range(1, N + 1):
            if kind == "zero":
                new.append(C(new[m - 1]) + Fi(B[m - 1]) - C(B[m - 1]))
            else:
                v, j = torch.autograd.functional.jvp(Fi, B[m - 1], new[m - 1] - B[m - 1], create_graph=True)
                new.append(v + j)
        B = new
    return torch.stack(list(B))


def iterations(maxiter, N):
    "iterations performed for an iteration limit and N intervals (all points are exact after N)"
    return min(maxiter + 1, N)


def solver_objects(case):
    mk = lambda n: UserHeun3(D) if n == "heun3" else (n if case["by"] == "name" and n != "heun3" else str_to_solver(n, D))
    if case["defaults"]:
        return case["alias"], "euler", "rk4"
    return (MSZero if case["kind"] == "zero" else MSBackward)(mk(case["coarse"]), mk(case["fine"])), case["coarse"], case["fine"]


@st.composite
def case_ms(draw, affine=False):
    kind = draw(st.sampled_from(["zero", "zero", "newton"])) if not affine else "newton"
    f = draw(gen.field(d=2, time=False, nonlinear=False if affine else None))
    t = draw(gen.grid(nmin=2, nmax=7, hmin=0.05, hmax=0.4, uniform=True))
    return dict(kind=kind, f=f, x=draw(gen.state(2, shapes=("b", "b", "v", "bk"))), t=t, coarse=draw(st.sampled_from(METHODS)), fine=draw(st.sampled_from(METHODS)),
                by=draw(st.sampled_from(["object", "name"])), defaults=draw(st.integers(0, 3)) == 0, alias=draw(st.sampled_from(ZERO if kind == "zero" else NEWTON)),
                k=draw(st.integers(1, 4)), it=draw(st.integers(0, 7)), b0=draw(st.sampled_from(["own", "own", "random", "exact"])), seed=draw(st.integers(0, 99)))


def setup(case):
    s, coarse, fine = solver_objects(case)
    t = case["t"]
    ts = torch.linspace(t[0], t[-1], len(t), dtype=D)
    x, f = T(case["x"]), Field(case["f"], cap=10 ** 7)
    dt = ts[1] - ts[0]
    seq = [x]
    for _ in range(len(ts) - 1):
        seq.append(propagate(fine, f, seq[-1], dt, case["k"]))
    seq = torch.stack(seq)
    own = rk_solve(coarse, f, x, ts)
    if case["b0"] == "own":
        B0, first = None, own
    elif case["b0"] == "exact":
        B0 = first = seq.clone()
    else:
        g = torch.Generator().manual_seed(case["seed"])
        B0 = first = torch.cat([x[None], x[None] + torch.randn(len(ts) - 1, *x.shape, generator=g, dtype=D)])
    exact = case["by"] == "object" and not case["defaults"]
    return s, coarse, fine, ts, x, f, dt, seq, B0, first, 1e-6 if exact else 2e-5


def labels(ctx, case):
    ctx.label(case["kind"], "defaults" if case["defaults"] else case["by"], case["b0"], "rev" if case["t"][-1] < case["t"][0] else "fwd", f"n{len(case['t'])}")


@F.facet(case_ms(), quick=500, thorough=8000, shards=3)
def textbook_iterates(case, ctx):
    "the result equals the plain-loop recurrence after the same number of iterations"
    s, coarse, fine, ts, x, f, dt, seq, B0, first, tol = setup(case)
    keep = None if B0 is None else B0.clone()
    te, sol = odeint_mshooting(f, x, ts, s, B0=B0, fine_steps=case["k"], maxiter=case["it"])
    n = iterations(case["it"], len(ts) - 1)
    want = reference(case["kind"], coarse, fine, f, list(first), dt, case["k"], n).detach()
    ctx.check(te.tolist() == ts.tolist(), "times differ from the requested ones")
    scale = 1 + float(want.abs().max()) * 3 ** (n - 1 if case["b0"] == "random" else 0)
    ctx.close(sol, want, 0, tol * scale, f"{case['kind']} iterate {n} (coarse {coarse}, fine {fine}, {case['k']} fine steps, limit {case['it']})")
    if keep is not None:
        ctx.check(torch.equal(keep, B0.detach()), "the initial shooting parameters were modified")
    ctx.nontrivial(len(ts) > 3 and n < len(ts) - 1 and moves(case["f"], case["x"]))
    labels(ctx, case)


@F.facet(case_ms(), quick=400, thorough=6000, shards=2)
def finite_convergence(case, ctx):
    "exact at the first k+1 shooting points after k iterations, everywhere after as many as there are intervals; the exact solution is a fixed point"
    s, coarse, fine, ts, x, f, dt, seq, B0, first, tol = setup(case)
    te, sol = odeint_mshooting(f, x, ts, s, B0=B0, fine_steps=case["k"], maxiter=case["it"])
    n = iterations(case["it"], len(ts) - 1)
    scale = 1 + float(seq.abs().max()) + float(first.abs().max()) * 3 ** (n if case["b0"] == "random" else 0)
    k = len(ts) if case["b0"] == "exact" else n + 1
    ctx.close(sol[:k], seq[:k], 0, tol * scale, f"first {k} of {len(ts)} shooting points after {n} iterations against the sequential fine solution")
    ctx.nontrivial(float((first - seq).abs().max()) > 1e-6 or case["b0"] == "exact")
    labels(ctx, case)
    ctx.label("all" if n == len(ts) - 1 else "part")


@F.facet(case_ms(affine=True), quick=200, thorough=3000)
def newton_affine(case, ctx):
    "Newton iterations are exact after one iteration for affine fields"
    s, coarse, fine, ts, x, f, dt, seq, B0, first, tol = setup(case)
    te, sol = odeint_mshooting(f, x, ts, s, B0=B0, fine_steps=case["k"], maxiter=0 if case["it"] < 4 else case["it"])
    scale = 1 + float(seq.abs().max()) + float(first.abs().max())
    ctx.close(sol, seq, 0, 10 * tol * scale, f"affine field after {'one iteration' if case['it'] < 4 else 'several iterations'}")
    ctx.nontrivial(len(ts) > 3 and float((first - seq).abs().max()) > 1e-6)
    labels(ctx, case)


@F.facet(case_ms(), quick=60, thorough=800)
def names(case, ctx):
    "every alias of a solver stands for it"
    case = {**case, "defaults": True, "b0": "random", "it": case["it"] % 2}
    for alias in ZERO if case["kind"] == "zero" else NEWTON:
        s, coarse, fine, ts, x, f, dt, seq, B0, first, tol = setup({**case, "alias": alias})
        sol = odeint_mshooting(f, x, ts, s, B0=B0, fine_steps=case["k"], maxiter=case["it"])[1]
        n = iterations(case["it"], len(ts) - 1)
        want = reference(case["kind"], coarse, fine, f, list(first), dt, case["k"], n).detach()
        ctx.close(sol, want, 0, tol * (1 + 3 * float(want.abs().max())), f"solver named {alias}: iterate {n}")
    ctx.nontrivial(len(ts) > 3 and case["it"] < len(ts) - 2 and moves(case["f"], case["x"]))
    ctx.label(case["kind"])


@st.composite
def case_grad(draw):
    c = draw(case_ms())
    c["x"] = draw(gen.batch(2))
    c["w"], c["v"] = draw(weights(len(c["t"]), 2)), draw(weights(len(c["t"]), 2))
    c["api"] = draw(st.sampled_from(["layer", "layer", "functional"]))
    if c["api"] == "layer" and not c["defaults"]:
        c["by"] = "object"
    return c


@F.facet(case_grad(), quick=200, thorough=3000, shards=2)
def gradients(case, ctx):
    "backpropagated gradients are those of the recurrence; the layer is the functional solver"
    s, coarse, fine, ts, x, f, dt, seq, B0, first, tol = setup(case)
    fm, rm = FieldModule(case["f"], cap=10 ** 7), FieldModule(case["f"], cap=10 ** 7)

    def loss(sol):
        return (T(case["w"]).unsqueeze(1) * sol * sol).sum() + (T(case["v"]).unsqueeze(1) * sol).sum()
    xg, xr = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    if case["api"] == "layer":
        layer = MultipleShootingLayer(fm, s, fine_steps=case["k"], maxiter=case["it"])
        te, sol = layer(xg, ts, B0)
    else:
        te, sol = odeint_mshooting(fm, xg, ts, s, B0=B0, fine_steps=case["k"], maxiter=case["it"])
    n = iterations(case["it"], len(ts) - 1)
    guess = list(rk_solve(coarse, rm, xr, ts)) if B0 is None else list(first)
    want = reference(case["kind"], coarse, fine, rm, guess, dt, case["k"], n)
    g = torch.autograd.grad(loss(sol), [xg] + list(fm.parameters()), allow_unused=True) if sol.requires_grad else [None] * (1 + len(list(fm.parameters())))
    g0 = torch.autograd.grad(loss(want), [xr] + list(rm.parameters()), allow_unused=True) if want.requires_grad else [None] * len(g)
    big = 1 + max([float(b.abs().max()) for b in g0 if b is not None] + [0.]) + float(want.detach().abs().max())
    ctx.close(sol, want, 0, 10 * tol * big, f"{case['api']} values")
    for nme, a, b, p in zip(["x0"] + [nm for nm, _ in rm.named_parameters()], g, g0, [xg] + list(fm.parameters())):
        a = torch.zeros_like(p) if a is None else a
        b = torch.zeros_like(p) if b is None else b
        ctx.close(a, b, 0, 10 * tol * big * (5 if case["b0"] == "random" else 1), f"gradient of {nme} through {case['kind']} ({case['api']})")
    ctx.nontrivial(len(ts) > 2 and moves(case["f"], case["x"]))
    labels(ctx, case)
    ctx.label(case["api"])


@st.composite
def case_adj(draw):
    f = draw(gen.field(d=2, time=False))
    t = draw(gen.grid(nmin=2, nmax=5, hmin=0.05, hmax=0.2, uniform=True))
    return dict(f=f, x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)), solver=draw(st.sampled_from(ZERO + NEWTON)),
                adj=draw(st.sampled_from(["dopri5", "tsit5"])), it=draw(st.integers(0, 3)), k=draw(st.integers(1, 6)))


@F.facet(case_adj(), quick=100, thorough=1500, shards=2)
def adjoint_layer(case, ctx):
    "layer with the adjoint method: values of the parallel solver, true gradients"
    x, ts = T(case["x"]), torch.linspace(case["t"][0], case["t"][-1], len(case["t"]), dtype=D)
    fm, rm = FieldModule(case["f"]), FieldModule(case["f"])
    layer = MultipleShootingLayer(fm, case["solver"], sensitivity="adjoint", maxiter=8, fine_steps=4, solver_adjoint=case["adj"], atol_adjoint=1e-7, rtol_adjoint=1e-7)
    xg, xr = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    te, sol = layer(xg, ts)
    ref = fine_solve(rm, xr, ts, 16)

    def loss(sol):
        return (T(case["w"]).unsqueeze(1) * sol * sol).sum() + (T(case["v"]).unsqueeze(1) * sol).sum()
    g = torch.autograd.grad(loss(sol), [xg] + list(fm.parameters()), allow_unused=True)
    g0 = torch.autograd.grad(loss(ref), [xr] + list(rm.parameters()), allow_unused=True)
    ctx.close(sol, ref, 1e-4, 1e-4, "values of the layer")
    few = MultipleShootingLayer(Field(case["f"]), case["solver"], sensitivity="adjoint", maxiter=case["it"], fine_steps=case["k"], solver_adjoint=case["adj"])(x, ts)[1]
    want = odeint_mshooting(Field(case["f"]), x, ts, case["solver"], fine_steps=case["k"], maxiter=case["it"])[1]
    ctx.close(few, want, 1e-9, 1e-9, f"layer with {case['it']} iterations of {case['k']} fine steps against the functional solver")
    scale = 1 + max([float(b.abs().max()) for b in g0 if b is not None])
    for nme, a, b, p in zip(["x0"] + [nm for nm, _ in rm.named_parameters()], g, g0, [xg] + list(fm.parameters())):
        ctx.close(torch.zeros_like(p) if a is None else a, torch.zeros_like(p) if b is None else b, 0, 1e-3 * scale, f"adjoint gradient of {nme} (parallel solver {case['solver']})")
    ctx.nontrivial(len(ts) > 2 and moves(case["f"], case["x"]))
    ctx.label(case["solver"])


@st.composite
def case_pie(draw):
    return dict(f=draw(gen.field(d=2, time=False, lip=.7)), x=draw(gen.batch(2, bmax=2)), t=draw(gen.grid(nmin=3, nmax=5, hmin=0.05, hmax=0.25, reverse=False)),
                solver=draw(st.sampled_from(["ieuler", "parallel-implicit-euler"])))


@F.facet(case_pie(), quick=60, thorough=800)
def parallel_implicit_euler(case, ctx):
    "the parallel implicit Euler solver solves all implicit Euler steps at once"
    f, x, ts = Field(case["f"], cap=10 ** 7), T(case["x"]), T(case["t"])
    te, sol = odeint_mshooting(f, x, ts, case["solver"])
    want = [x]
    for i in range(len(ts) - 1):
        h, y = ts[i + 1] - ts[i], want[-1]
        for _ in range(200):
            y = want[-1] + h * f(ts[i], y)
        want.append(y)
    ctx.close(sol, torch.stack(want), 1e-3, 1e-3, "parallel implicit Euler against sequential implicit Euler")
    ctx.nontrivial(moves(case["f"], case["x"]))


@st.composite
def case_shift(draw):
    c = draw(case_ms())
    c["shift"] = draw(gen.num(-3, 3))
    return c


@F.facet(case_shift(), quick=120, thorough=1500)
def time_shift(case, ctx):
    "for autonomous fields the start of the grid does not matter"
    s, coarse, fine, ts, x, f, dt, seq, B0, first, tol = setup(case)
    a = odeint_mshooting(f, x, ts, s, B0=None, fine_steps=case["k"], maxiter=case["it"])[1]
    b = odeint_mshooting(f, x, ts + case["shift"], s, B0=None, fine_steps=case["k"], maxiter=case["it"])[1]
    ctx.close(b, a, 1e-8, 1e-8, f"solution on the grid shifted by {case['shift']}")
    ctx.nontrivial(abs(case["shift"]) > .01 and len(ts) > 2)

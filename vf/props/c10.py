"""C10 backpropagation through a solver gives the gradient of its result"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import Field, FieldModule, T, fine_solve, moves, rk_solve
from vf.solvers import UserBS23, UserHeun3
from torchdyn.numerics import odeint
from torchdyn.core import NeuralODE, ODEProblem

F = core.Registry()
RULE = ("random parametrised field, grid (both directions), random weights over every returned time and component (some zero), loss quadratic in the "
        "solution; reference gradients come from differentiating an independent implementation of the recurrence (fixed steps) or a fine reference "
        "solution (adaptive); non-trivial = the field is not constant in the state, three or more times, and weights on an intermediate time")
ASSUMPTIONS = ["implicit Euler is excluded here: its result is cut from the graph, see known_findings.txt"]
D = torch.float64


@st.composite
def weights(draw, n, d):
    return [draw(gen.vec(d, -2, 2)) if draw(st.integers(0, 3)) else [0.] * d for _ in range(n)]


@st.composite
def case_fixed(draw):
    f = draw(gen.field())
    d = f["d"]
    t = draw(gen.grid(nmax=6))
    return dict(f=f, x=draw(gen.state(d)), t=t, w=draw(weights(len(t), d)), v=draw(weights(len(t), d)), second=draw(st.booleans()),
                solver=draw(st.sampled_from(["euler", "midpoint", "rk4", "user"])), api=draw(st.sampled_from(["odeint", "NeuralODE", "ODEProblem"])))


def loss_of(sol, case):
    w, v = T(case["w"]), T(case["v"])
    while w.dim() < sol.dim():
        w, v = w.unsqueeze(1), v.unsqueeze(1)
    return (w * sol * sol).sum() + (v * sol).sum()


def grads(solve, case, module=None):
    "gradients (and second derivatives along a fixed direction) for solve(module, x)"
    fm = FieldModule(case["f"]) if module is None else module
    x = T(case["x"]).requires_grad_(True)
    ps = [x] + [p for p in fm.parameters()]
    sol = solve(fm, x)
    L = loss_of(sol, case)
    g = torch.autograd.grad(L, ps, allow_unused=True, create_graph=case.get("second", False))
    g = [torch.zeros_like(p) if a is None else a for a, p in zip(g, ps)]
    out = [L] + [a for a in g]
    if case.get("second"):
        s = sum((a * torch.linspace(.3, 1.1, a.numel()).double().reshape(a.shape)).sum() for a in g)
        if s.requires_grad:
            h = torch.autograd.grad(s, ps, allow_unused=True)
            out += [torch.zeros_like(p) if a is None else a for a, p in zip(h, ps)]
        else:
            out += [torch.zeros_like(p) for p in ps]
    return out, ["loss", "x"] + [n for n, _ in fm.named_parameters()] + (["d2 x"] + ["d2 " + n for n, _ in fm.named_parameters()] if case.get("second") else [])


def labels(ctx, case):
    t = case["t"]
    mid = any(any(abs(a) > 1e-9 for a in r) for r in case["w"][1:-1])
    ctx.nontrivial(len(t) > 2 and mid and any(abs(a) > 1e-9 for r in case["f"]["A"] for a in r))
    ctx.label("rev" if t[-1] < t[0] else "fwd", case["solver"], case.get("api", "-"), f"second={case.get('second', False)}")


@F.facet(case_fixed(), quick=800, thorough=12000, shards=3)
def fixed_step(case, ctx):
    "exact gradients and second derivatives of the textbook recurrence"
    ts = T(case["t"])

    def solve(fm, x):
        s = {"user": lambda: UserHeun3(D)}.get(case["solver"], lambda: case["solver"])()
        if case["api"] == "odeint":
            return odeint(fm, x, ts, s)[1]
        if isinstance(s, str):
            from torchdyn.numerics.solvers.ode import str_to_solver
            s = str_to_solver(s, D)
        m = (NeuralODE if case["api"] == "NeuralODE" else ODEProblem)(fm, solver=s, sensitivity="autograd")
        return m(x, ts)[1]
    name = {"user": "heun3"}.get(case["solver"], case["solver"])
    got, names = grads(solve, case)
    want, _ = grads(lambda fm, x: rk_solve(name, fm, x, ts), case)
    for n, a, b in zip(names, got, want):
        ctx.close(a, b, 1e-9, 1e-9, f"{case['solver']}: gradient of {n}")
    labels(ctx, case)


@st.composite
def case_adapt(draw):
    f = draw(gen.field())
    d = f["d"]
    t = draw(gen.grid(nmax=5, hmax=0.4))
    return dict(f=f, x=draw(gen.state(d)), t=t, w=draw(weights(len(t), d)), v=draw(weights(len(t), d)), interp=draw(st.booleans()),
                solver=draw(st.sampled_from(["dopri5", "dopri5", "tsit5", "user"])), api=draw(st.sampled_from(["odeint", "NeuralODE"])),
                logtol=draw(st.integers(-8, -5)), second=draw(st.integers(0, 3)) == 0)


@F.facet(case_adapt(), quick=320, thorough=5000, shards=4)
def adaptive(case, ctx):
    "true sensitivities to the accuracy of the tolerances, with and without interpolation"
    ts = T(case["t"])
    tol = max(10. ** case["logtol"], 1e-6 if case["solver"] == "user" or case["interp"] else 0)
    interp = "4th" if case["interp"] and case["solver"] == "dopri5" else None

    def solve(fm, x):
        s = UserBS23(D) if case["solver"] == "user" else case["solver"]
        if case["api"] == "odeint":
            return odeint(fm, x, ts, s, atol=tol, rtol=tol, interpolator=interp)[1]
        return NeuralODE(fm, solver=s, atol=tol, rtol=tol, interpolator=interp)(x, ts)[1]
    got, names = grads(solve, case)
    want, _ = grads(lambda fm, x: fine_solve(fm, x, ts, 30), case)
    scale = 1. + max(float(b.abs().max()) for b in want)
    acc = (3000 * tol + 2e-6) * scale
    for n, a, b in zip(names, got, want):
        if n == "loss" or not n.startswith("d2"):
            ctx.close(a, b, 0, acc, f"{case['solver']} (tol {tol:g}): gradient of {n}")
        else:
            ctx.close(a, b, 0, 10 * acc + 1e-3 * scale, f"{case['solver']} (tol {tol:g}): gradient of {n}")
    labels(ctx, case)
    ctx.label(f"interp={bool(interp)}")


@st.composite
def case_acc(draw):
    f = draw(gen.field(d=2))
    t = draw(gen.grid(nmax=4))
    return dict(f=f, x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)), solver=draw(st.sampled_from(["euler", "rk4", "midpoint"])),
                sub=draw(st.sampled_from(["all", "last", "slice"])))


@F.facet(case_acc(), quick=200, thorough=3000)
def training_form(case, ctx):
    "loss.backward() accumulates the same gradients in .grad, for losses on all, the last or some times"
    ts = T(case["t"])

    def pick(sol):
        L = (T(case["w"]).unsqueeze(1) * sol * sol + T(case["v"]).unsqueeze(1) * sol)
        return {"all": L, "last": L[-1], "slice": L[1::2]}[case["sub"]].sum()
    from torchdyn.numerics.solvers.ode import str_to_solver
    fm, rm = FieldModule(case["f"]), FieldModule(case["f"])
    m = NeuralODE(fm, solver=str_to_solver(case["solver"], D))
    for k in range(2):
        pick(m(T(case["x"]), ts)[1]).backward()
        pick(rk_solve(case["solver"], rm, T(case["x"]), ts)).backward()
    for (n, a), b in zip(fm.named_parameters(), rm.parameters()):
        ga = torch.zeros_like(a) if a.grad is None else a.grad
        gb = torch.zeros_like(b) if b.grad is None else b.grad
        ctx.close(ga, gb, 1e-9, 1e-9, f"accumulated gradient of {n} after two backward passes")
    labels(ctx, case)
    ctx.label(case["sub"])


@st.composite
def case_fd(draw):
    f = draw(gen.field(d=2))
    t = draw(gen.grid(nmax=4))
    return dict(f=f, x=draw(gen.batch(2, bmax=2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)), u=draw(gen.batch(2, bmin=2, bmax=2)),
                solver=draw(st.sampled_from(["euler", "midpoint", "rk4"])))


@F.facet(case_fd(), quick=150, thorough=2000)
def finite_differences(case, ctx):
    "the directional derivative of the computed solution itself (central differences)"
    ts = T(case["t"])
    x = T(case["x"]).requires_grad_(True)
    fm = FieldModule(case["f"])
    L = lambda x: loss_of(odeint(fm, x, ts, case["solver"])[1], case)
    g, = torch.autograd.grad(L(x), x)
    u = T(case["u"])[:x.shape[0]]
    h = 1e-5
    with torch.no_grad():
        fd = (L(x + h * u) - L(x - h * u)) / (2 * h)
    scale = 1 + float(g.abs().max())
    ctx.close((g * u).sum(), fd, 1e-5, 1e-6 * scale, f"{case['solver']}: directional derivative")
    labels(ctx, case)


def ieuler_detached():
    "gradient of implicit Euler for x' = -x over one step of 0.1 is 1/1.1"
    x = torch.ones(1, 1, dtype=D, requires_grad=True)
    sol = odeint(lambda t, x: -x, x, T([0., .1]), "ieuler")[1]
    g, = torch.autograd.grad(sol[-1].sum(), x, allow_unused=True)
    return g is None or abs(float(g) - 1 / 1.1) > 1e-4


KNOWN = {"ieuler-detached": ieuler_detached}

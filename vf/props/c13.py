"""C13 integral losses are integrated and differentiated along the trajectory"""
import torch
import torch.nn as nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import FieldModule, Field, T, fine_solve, moves, rk_solve
from vf.props.c10 import weights
from vf.props.c11 import SOLVERS, mk
from vf.props.c12 import refine
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

F = core.Registry()
RULE = ("random fields (first and second order), integral losses depending on time and state (function or module, per-sample vector or column), batches, "
        "grids in both directions, solvers and sensitivity methods; references integrate the loss next to the state; non-trivial = the loss varies along "
        "the trajectory")
D = torch.float64


class Loss(nn.Module):
    "l(t, x) = (q . x^2 + c . x + a cos(t)) per sample"
    def __init__(self, p, col):
        super().__init__()
        self.p, self.col = p, col

    def forward(self, t, x):
        q, c = T(self.p["q"])[:x.shape[-1]], T(self.p["c"])[:x.shape[-1]]
        t = torch.as_tensor(t, dtype=x.dtype).reshape(())
        l = (q * x * x + c * x).sum(-1) + self.p["a"] * torch.cos(1.3 * t) * (1 + x[..., 0])
        return l[..., None] if self.col else l


losses = st.fixed_dictionaries(dict(q=gen.vec(4, -1, 1), c=gen.vec(4, -1, 1), a=gen.num(-2, 2)))


def rhs_of(fm, order):
    if order == 1:
        return lambda t, x: fm(t, x)
    # q'' = f(t, v) + q/2: width 2
    return lambda t, x: torch.cat([x[..., 2:], fm(t, x[..., 2:]) + .5 * x[..., :2]], -1)


class Order2(nn.Module):
    def __init__(self, fm):
        super().__init__()
        self.fm = fm

    def forward(self, t, x):
        return self.fm(t, x[..., 2:]) + .5 * x[..., :2]


@st.composite
def case_fwd(draw):
    order = draw(st.sampled_from([1, 1, 2]))
    t = draw(gen.grid(nmax=6))
    return dict(f=draw(gen.field(d=2)), order=order, x=draw(gen.batch(2 * order)), t=t, loss=draw(losses), col=draw(st.booleans()),
                mod=draw(st.booleans()), l0=draw(st.sampled_from([0, 0, 1.5])), solver=draw(st.sampled_from(["euler", "midpoint", "rk4", "dopri5", "tsit5"])),
                w=draw(weights(len(t), 2 * order)), wl=draw(gen.vec(len(t), -2, 2)))


@F.facet(case_fwd(), quick=500, thorough=8000, shards=3)
def leading_column(case, ctx):
    "autograd: column 0 is the running integral, the other columns evolve as without the loss, gradients included"
    order, ts = case["order"], T(case["t"])
    fm = FieldModule(case["f"])
    vf = fm if order == 1 else Order2(fm)
    L = Loss(case["loss"], case["col"])
    fixed = case["solver"] in ("euler", "midpoint", "rk4")
    m = NeuralODE(vf, solver=str_to_solver(case["solver"], D), order=order, atol=1e-7, rtol=1e-7, integral_loss=L if case["mod"] else (lambda t, x: L(t, x)))
    x = T(case["x"])
    z = torch.cat([torch.full((x.shape[0], 1), float(case["l0"])).double(), x], -1)

    def run(solve, params):
        zg = z.clone().requires_grad_(True)
        sol = solve(zg)
        w = T(case["w"]).unsqueeze(1)
        loss = (w * sol[..., 1:] * sol[..., 1:]).sum() + (T(case["wl"])[:, None] * sol[..., 0]).sum()
        g = torch.autograd.grad(loss, [zg] + params, allow_unused=True)
        return sol, [torch.zeros_like(p) if a is None else a for a, p in zip(g, [zg] + params)]
    sol, g = run(lambda z: m(z, ts)[1], list(fm.parameters()))
    rm = FieldModule(case["f"])
    rhs, L1 = rhs_of(rm, order), Loss(case["loss"], True)
    aug = lambda t, y: torch.cat([L1(t, y[..., 1:]), rhs(t, y[..., 1:])], -1)
    ref, g0 = run((lambda z: rk_solve(case["solver"], aug, z, ts)) if fixed else (lambda z: fine_solve(aug, z, ts, 24)), list(rm.parameters()))
    ctx.check(m.vf.nfe == fm.f.n, lambda: f"{m.vf.nfe} evaluations counted by the model, {fm.f.n} made")
    tol = 1e-9 if fixed else 3e-5
    scale = 1 + float(ref.abs().max()) + max(float(a.abs().max()) for a in g0)
    ctx.close(sol[..., 0], ref[..., 0], tol, tol, "running integral of the loss")
    ctx.close(sol[..., 1:], ref[..., 1:], tol, tol, "state columns next to an integral loss")
    if fixed:
        plain = NeuralODE(FieldModule(case["f"]) if order == 1 else Order2(FieldModule(case["f"])), solver=str_to_solver(case["solver"], D), order=order)(x, ts)[1]
        ctx.close(sol[..., 1:], plain, 1e-10, 1e-10, "state columns with and without the integral loss")
    for n, a, b in zip(["state"] + [n for n, _ in rm.named_parameters()], g, g0):
        ctx.close(a, b, 0, (1e-9 if fixed else 1e-4) * scale, f"gradient of {n} through the integral loss")
    ctx.nontrivial(float((ref[-1, :, 0] - ref[0, :, 0]).abs().max()) > 1e-3)
    ctx.label(f"order{order}", case["solver"], "column" if case["col"] else "vector", "rev" if ts[-1] < ts[0] else "fwd")


@st.composite
def case_args(draw):
    order = draw(st.sampled_from([1, 1, 2]))
    return dict(f=draw(gen.field(d=2)), order=order, x=draw(gen.batch(2 * order)), t=draw(gen.grid(nmax=5)), loss=draw(losses), col=draw(st.booleans()),
                c=draw(gen.num(-2, 2)), give=draw(st.integers(0, 4)) > 0)


class ArgsRK4(nn.Module):
    "hands its arguments to the vector field"
    order, stepping_class = 4, "fixed"

    def __init__(self):
        super().__init__()
        self.dtype = D

    def sync_device_dtype(self, x, t_span): return x, t_span

    def step(self, f, x, t, dt, k1=None, args=None):
        k1 = f(t, x, args=args)
        k2 = f(t + dt / 2, x + dt / 2 * k1, args=args)
        k3 = f(t + dt / 2, x + dt / 2 * k2, args=args)
        k4 = f(t + dt, x + dt * k3, args=args)
        return None, x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4), None


@F.facet(case_args(), quick=150, thorough=2500)
def extra_arguments(case, ctx):
    "extra arguments reach the vector field below the integral loss"
    fm, ts, order, L = Field(case["f"]), T(case["t"]), case["order"], Loss(case["loss"], case["col"])
    base = rhs_of(fm, order)

    def inner(t, x, c):
        return (fm(t, x) if order == 1 else fm(t, x[..., 2:]) + .5 * x[..., :2]) + c

    class V(nn.Module):
        def forward(self, t, x, args={}): return inner(t, x, (args or {}).get("c", 0.))
    x = T(case["x"])
    z = torch.cat([torch.zeros(x.shape[0], 1).double(), x], -1)
    m = NeuralODE(V(), solver=ArgsRK4(), order=order, integral_loss=L)
    kw = dict(args={"c": case["c"]}) if case["give"] else {}
    te, sol = m(z, ts, **kw)
    c = case["c"] if case["give"] else 0.

    def full(t, y):
        s = y[..., 1:]
        ds = inner(t, s, c) if order == 1 else torch.cat([s[..., 2:], inner(t, s, c)], -1)
        return torch.cat([Loss(case["loss"], True)(t, s), ds], -1)
    ctx.close(sol, rk_solve("rk4", full, z, ts), 1e-10, 1e-10, f"integral loss next to a field with arguments {kw}")
    ctx.nontrivial(case["give"] and abs(case["c"]) > 1e-3)
    ctx.label(f"order{order}", f"given={case['give']}")


@st.composite
def case_adj(draw):
    order = draw(st.sampled_from([1, 1, 1, 2]))
    t = draw(gen.grid(nmax=4, hmax=0.4))
    return dict(f=draw(gen.field(d=2)), order=order, x=draw(gen.batch(2 * order)), t=t, loss=draw(losses), col=draw(st.booleans()),
                mod=draw(st.booleans()), sens=draw(st.sampled_from(["adjoint", "interpolated_adjoint"])), solver=draw(st.sampled_from(SOLVERS)), adj=draw(st.sampled_from(SOLVERS)),
                cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])), w=draw(weights(len(t), 2 * order)), v=draw(weights(len(t), 2 * order)))


@F.facet(case_adj(), quick=300, thorough=5000, shards=5)
def adjoint_gradients(case, ctx):
    "adjoint methods: gradient of terminal function + integral of the loss over the trajectory"
    order = case["order"]
    ts, idx = T(case["t"]), list(range(len(case["t"])))
    if case["sens"] == "interpolated_adjoint":
        ts, idx = refine(case["t"])
    fm = FieldModule(case["f"])
    vf = fm if order == 1 else Order2(fm)
    L = Loss(case["loss"], case["col"])
    cls = NeuralODE if case["cls"] == "NeuralODE" or order > 1 else ODEProblem
    m = cls(vf, solver=mk(case["solver"]), order=order, atol=1e-7, rtol=1e-7, sensitivity=case["sens"], solver_adjoint=mk(case["adj"]), atol_adjoint=1e-7,
            rtol_adjoint=1e-7, integral_loss=L if case["mod"] else (lambda t, x: L(t, x)))
    x = T(case["x"])

    def terminal(sol):
        w, v = T(case["w"]).unsqueeze(1), T(case["v"]).unsqueeze(1)
        return (w * sol * sol).sum() + (v * sol).sum()
    xg = x.clone().requires_grad_(True)
    te, sol = m(xg, ts)
    ctx.check(sol.shape[1:] == x.shape, lambda: f"solution of shape {tuple(sol.shape)} for a state of shape {tuple(x.shape)}")
    rows = torch.tensor([te.tolist().index(v) for v in ts[torch.tensor(idx)].tolist()])
    got = torch.autograd.grad(terminal(sol[rows]), [xg] + list(fm.parameters()), allow_unused=True)
    rm = FieldModule(case["f"])
    rhs, L1 = rhs_of(rm, order), Loss(case["loss"], True)
    aug = lambda t, y: torch.cat([L1(t, y[..., 1:]), rhs(t, y[..., 1:])], -1)
    xr = x.clone().requires_grad_(True)
    ref = fine_solve(aug, torch.cat([torch.zeros(x.shape[0], 1).double(), xr], -1), T(case["t"]), 24)
    loss = terminal(ref[..., 1:]) + ref[-1, :, 0].sum()
    g0 = torch.autograd.grad(loss, [xr] + list(rm.parameters()), allow_unused=True)
    g0 = [torch.zeros_like(p) if a is None else a for a, p in zip(g0, [xr] + list(rm.parameters()))]
    scale = 1. + max(float(b.abs().max()) for b in g0)
    acc = (1e-4 if case["sens"] == "adjoint" else 5e-4) * scale
    for n, a, b in zip(["state"] + [n for n, _ in rm.named_parameters()], got, g0):
        ctx.close(torch.zeros_like(b) if a is None else a, b, 0, acc, f"{case['sens']} gradient of {n} with an integral loss")
    ctx.nontrivial(float((ref[-1, :, 0]).abs().max()) > 1e-3)
    ctx.label(f"order{order}", case["sens"], case["cls"], "rev" if ts[-1] < ts[0] else "fwd")

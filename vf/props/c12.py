"""C12 interpolated adjoint gradients equal the true gradients"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import FieldModule, T, fine_solve, moves, spec_time
from vf.solvers import UserBS23
from vf.props.c10 import weights
from vf.props.c11 import WithUnused, case_tol, loss_of, mk, options_used, reference, SOLVERS, D
from torchdyn.numerics import odeint
from torchdyn.core import NeuralODE, ODEProblem

F = core.Registry()
RULE = ("random parametrised field, batch, a coarse grid of weighted times refined so that the stored trajectory resolves the solution (the spline is "
        "accurate), both directions, forward / adjoint solver pairs, tolerances; reference gradients by differentiating a fine reference solution; "
        "non-trivial = weight on an intermediate time and a field that depends on the state")
ASSUMPTIONS = ["two-dimensional states (the method does not accept other ranks)", "stored points at most 0.05 apart: the spline error is below the comparison bound"]


@st.composite
def case_g(draw):
    f = draw(gen.field(d=2))
    t = draw(gen.grid(nmax=4, hmax=0.3))
    return dict(f=f, x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)),
                solver=draw(st.sampled_from(SOLVERS + ["o:rk4", "n:rk4", "o:bs23"])), adj=draw(st.sampled_from(SOLVERS + ["none", "o:bs23"])),
                lf=draw(st.sampled_from([-8, -7, -6])), la=draw(st.sampled_from([-8, -7, -6])), unused=draw(st.sampled_from(["no", "no", "last", "first"])),
                cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])))


def refine(t, h=0.05):
    "grid with the points of t and others at most h apart; returns (times, index of the original points)"
    out, idx = [t[0]], [0]
    for a, b in zip(t, t[1:]):
        k = max(1, int(abs(b - a) / h + .999))
        out += [a + (b - a) * i / k for i in range(1, k)] + [b]
        idx.append(len(out) - 1)
    return torch.tensor(out, dtype=D), idx


@F.facet(case_g(), quick=300, thorough=5000, shards=6)
def gradients(case, ctx):
    x = T(case["x"])
    ts, idx = refine(case["t"])
    tf, ta = 10. ** case["lf"], 10. ** case["la"]
    if "bs23" in case["solver"] + case["adj"]:
        tf, ta = max(tf, 1e-6), max(ta, 1e-6)
    fm = WithUnused(case["f"], case["unused"])
    m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(fm, solver=mk(case["solver"]), atol=tf, rtol=tf, sensitivity="interpolated_adjoint",
                                                                  solver_adjoint=None if case["adj"] == "none" else mk(case["adj"]), atol_adjoint=ta, rtol_adjoint=ta)
    xg = x.clone().requires_grad_(True)
    te, sol = m(xg, ts)
    lst = te.tolist()
    ctx.check(all(v in lst for v in ts.tolist()), "requested times are missing")
    rows = torch.tensor([lst.index(v) for v in ts.tolist()])
    plain = odeint(FieldModule(case["f"]), x, ts, mk(case["solver"]) if case["solver"][0] == "o" else __import__("torchdyn").numerics.solvers.ode.str_to_solver(case["solver"][2:]),
                   atol=tf, rtol=tf)[1]
    ctx.close(sol[rows], plain, 1e-9, 1e-9, "forward values at the requested times against the plain integration")
    L = loss_of(sol[rows][torch.tensor(idx)], None, case)
    got = torch.autograd.grad(L, [xg] + list(fm.parameters()), allow_unused=True)
    L0, want = reference(case, WithUnused(case["f"], case["unused"]), T(case["t"]), x)
    want = [want[0]] + want[2:]
    scale = 1. + max(float(b.abs().max()) for b in want)
    acc = (200 * (tf + ta) + 2e-4) * scale
    ctx.close(L, L0, 0, acc, "loss")
    for n, a, b in zip(["x0"] + [n for n, _ in fm.named_parameters()], got, want):
        ctx.check(a is not None, f"no gradient of {n}")
        ctx.close(a, b, 0, acc, f"interpolated adjoint gradient of {n} (forward {case['solver']}, adjoint {case['adj']})")
    mid = any(any(abs(a) > 1e-9 for a in r) for r in case["w"][1:-1])
    ctx.nontrivial(mid and any(abs(a) > 1e-9 for r in case["f"]["A"] for a in r))
    ctx.label("rev" if ts[-1] < ts[0] else "fwd", case["solver"], "adj " + case["adj"], "time" if spec_time(case["f"]) else "autonomous", f"unused={case['unused']}")


@F.facet(case_tol().map(lambda c: dict(c, sens="interpolated_adjoint")), quick=100, thorough=1500, shards=2)
def adjoint_options_used(case, ctx):
    "the requested adjoint solver takes the backward steps, within the adjoint tolerances"
    options_used(case, ctx)


@st.composite
def case_lin(draw):
    t = draw(gen.grid(nmax=4, hmax=0.5))
    return dict(b=draw(gen.vec(2, -2, 2)), x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)),
                solver=draw(st.sampled_from(SOLVERS + ["o:rk4"])), adj=draw(st.sampled_from(SOLVERS)), a=draw(gen.vec(2, -1, 1)))


@F.facet(case_lin(), quick=200, thorough=3000, shards=2)
def exact_splines(case, ctx):
    "trajectories that are straight lines are stored exactly: the gradients are exact whatever the grid"
    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.b = torch.nn.Parameter(T(case["b"]))
            self.a = torch.nn.Parameter(torch.zeros(2).double())

        def forward(self, t, x):      # a = 0: the motion is straight, but its sensitivities depend on the path
            return self.b + self.a * x * torch.tensor(case["a"]).double()
    x, ts = T(case["x"]), T(case["t"])
    mod = M()
    m = NeuralODE(mod, solver=mk(case["solver"]), atol=1e-7, rtol=1e-7, sensitivity="interpolated_adjoint", solver_adjoint=mk(case["adj"]), atol_adjoint=1e-8, rtol_adjoint=1e-8)
    xg = x.clone().requires_grad_(True)
    te, sol = m(xg, ts)
    rows = torch.tensor([te.tolist().index(v) for v in ts.tolist()])
    L = loss_of(sol[rows], te, case)
    got = torch.autograd.grad(L, [xg, mod.b, mod.a])
    xr = x.clone().requires_grad_(True)
    want = torch.autograd.grad(loss_of(fine_solve(lambda t, y: mod(t, y), xr, ts, 10), ts, case), [xr, mod.b, mod.a])
    scale = 1. + max(float(b.abs().max()) for b in want)
    for n, a, b in zip(["x0", "b", "a"], got, want):
        ctx.close(a, b, 0, 2e-5 * scale, f"gradient of {n} along a straight trajectory")
    ctx.nontrivial(any(abs(v) > 1e-6 for r in case["w"][1:-1] for v in r))
    ctx.label("rev" if ts[-1] < ts[0] else "fwd", case["solver"])


@st.composite
def case_own(draw):
    f = draw(gen.field(d=2, nonlinear=draw(st.sampled_from([True, True, None]))))
    t = draw(gen.grid(nmax=4, hmin=0.4, hmax=1.2, kinds=["irregular", "uniform"]))
    return dict(f=f, x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)), solver=draw(st.sampled_from(SOLVERS)),
                adj=draw(st.sampled_from(SOLVERS)), interp=draw(st.booleans()), cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])))


@F.facet(case_own(), quick=120, thorough=2500, shards=2)
def own_steps(case, ctx):
    "few requested times far apart: the steps an accurate adaptive forward pass takes resolve the trajectory, with or without an interpolator"
    x, ts = T(case["x"]), T(case["t"])
    fm = FieldModule(case["f"])
    interp = "4th" if case["interp"] and case["solver"].endswith("dopri5") else None
    m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(fm, solver=mk(case["solver"]), atol=1e-8, rtol=1e-8, sensitivity="interpolated_adjoint",
                                                                  solver_adjoint=mk(case["adj"]), atol_adjoint=1e-5, rtol_adjoint=1e-5, interpolator=interp)
    xg = x.clone().requires_grad_(True)
    te, sol = m(xg, ts)
    lst = te.tolist()
    ctx.check(all(v in lst for v in ts.tolist()), "requested times are missing")
    rows = torch.tensor([lst.index(v) for v in ts.tolist()])
    L = loss_of(sol[rows], None, case)
    got = torch.autograd.grad(L, [xg] + list(fm.parameters()), allow_unused=True)
    L0, want = reference(case, FieldModule(case["f"]), ts, x, n=60)
    want = [want[0]] + want[2:]
    scale = 1. + max(float(b.abs().max()) for b in want)
    ctx.close(L, L0, 0, 1e-5 * scale, "loss")
    for n, a, b in zip(["x0"] + [n for n, _ in fm.named_parameters()], got, want):
        ctx.check(a is not None, f"no gradient of {n}")
        ctx.close(a, b, 0, 5e-3 * scale, f"interpolated adjoint gradient of {n} on a coarse request (forward {case['solver']}, interpolator {interp})")
    ctx.nontrivial(moves(case["f"], case["x"]) and any(abs(a) > 1e-9 for r in case["f"]["A"] for a in r))
    ctx.label("rev" if ts[-1] < ts[0] else "fwd", case["solver"], f"interp={bool(interp)}")

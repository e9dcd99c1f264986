"""C01 requested-times output contract of every integration entry point"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.core import Violation
from vf.fields import DT, Field, FieldModule, T, moves, same
from vf.solvers import UserBS23, UserHeun3
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_mshooting
from torchdyn.core import NeuralODE, ODEProblem

F = core.Registry()
RULE = ("random vector field (linear / tanh / time-dependent), state of rank 1-3, strictly monotone request times (uniform, irregular, "
        "graded, increasing or decreasing, offset), solver, tolerance and dtype; non-trivial = the field moves the state and there are >= 3 "
        "requested times or the direction is reversed")
ASSUMPTIONS = ["request times are strictly monotone and distinguishable in the working precision"]

FIXED = ["euler", "midpoint", "rk4", "rk-4", "RungeKutta4", "user"]
ADAPT = ["dopri5", "tsit5", "DormandPrince45", "Tsitouras5", "user"]


@st.composite
def case_fixed(draw):
    f = draw(gen.field())
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.grid(nmax=9)), off=draw(st.sampled_from([0, 0, 10, -100])),
                dtype=draw(gen.dtypes), solver=draw(st.sampled_from(FIXED)),
                tdtype=draw(st.sampled_from(["same", "same", "other"])),
                form=draw(st.sampled_from(["tensor", "tensor", "floats", "tensors0", "tensors1"])))


@st.composite
def case_adapt(draw):
    f = draw(gen.field(lip=draw(st.sampled_from([1., 1., 3.]))))
    dtype = draw(gen.dtypes)
    grid = draw(st.one_of(gen.grid(nmax=8), gen.grid(nmax=8), gen.grid(nmax=6, hmin=0.002, hmax=0.01), gen.grid(nmax=3, hmin=1., hmax=3.),
                          near_grid(dtype == "f64")))
    return dict(f=f, x=draw(gen.state(f["d"])), t=grid, off=draw(st.sampled_from([0, 0, 0, 10, -50])), dtype=dtype,
                tdtype=draw(st.sampled_from(["same", "same", "other"])) if dtype == "f64" and min(abs(b - a) for a, b in zip(grid, grid[1:])) > 2e-3 else "same",
                solver=draw(st.sampled_from(ADAPT)), interp=draw(st.booleans()), all=draw(st.booleans()),
                logtol=draw(st.integers(-9 if dtype == "f64" else -5, -1)), scale=draw(st.sampled_from([1, 1, 1, 0, 1e-3, 30])))


@st.composite
def near_grid(draw, f64):
    "pairs of very close request times between ordinary ones"
    gaps = [1e-4, 1e-3, 2e-3] + ([1e-8, 1e-7, 1e-6, 1e-5] if f64 else [])
    t, out = draw(gen.num(-1, 1)), []
    for _ in range(draw(st.integers(1, 3))):
        out += [t, round(t + draw(st.sampled_from(gaps)), 9)]
        t = round(t + draw(gen.pos(0.1, 0.6)), 6)
    return out[::-1] if draw(st.booleans()) else out


def times(case):
    return [round(v + case.get("off", 0), 9) for v in case["t"]]


def time_dtype(case):
    "the request times may come in the other floating point type (a float32 state with float64 times only for fixed steps)"
    d = case["dtype"]
    return DT[d if case.get("tdtype", "same") == "same" else {"f32": "f64", "f64": "f32"}[d]]


def span(case, dt):
    t = times(case)
    form = case.get("form", "tensor")
    if form == "floats":
        return t, torch.tensor(t)
    if form == "tensors0":
        return [torch.tensor(v, dtype=dt) for v in t], torch.tensor(t, dtype=dt)
    if form == "tensors1":
        return [torch.tensor([v], dtype=dt) for v in t], torch.tensor(t, dtype=dt)
    return torch.tensor(t, dtype=dt), torch.tensor(t, dtype=dt)


def contract(ctx, x, ts, te, sol, dtype, superset=False):
    ctx.check(torch.is_tensor(te) and te.dim() == 1, "evaluation times are not a vector")
    ctx.check(torch.is_tensor(sol) and sol.shape == (len(te), *x.shape),
              lambda: f"{len(te)} times but solution of shape {tuple(sol.shape)} for a state of shape {tuple(x.shape)}")
    ctx.check(torch.isfinite(sol).all(), "solution is not finite")
    ctx.check(sol.dtype == x.dtype, lambda: f"solution of dtype {sol.dtype} for a state of dtype {x.dtype}")
    want, got = ts.detach().tolist(), te.detach().tolist()
    if not superset:
        ctx.check(got == want, lambda: f"evaluation times {got} instead of the requested {want}")
    else:
        s = 1 if want[-1] > want[0] else -1
        ctx.check(all(s * (b - a) > 0 for a, b in zip(got, got[1:])), lambda: f"evaluation times are not strictly monotone: {got}")
        ctx.check(got[0] == want[0] and got[-1] == want[-1], lambda: f"evaluation times {got[0]}..{got[-1]} for {want[0]}..{want[-1]}")
        missing = [w for w in want if w not in set(got)]
        ctx.check(not missing, lambda: f"requested times {missing} are not evaluated; got {got}")
    ctx.check(torch.equal(sol[0], x.to(sol)), lambda: f"first solution point {core.short(sol[0])} is not the initial state {core.short(x)}")


def labels(ctx, case):
    t = case["t"]
    ctx.label(f"times-{case.get('tdtype', 'same')}", "rev" if t[-1] < t[0] else "fwd", f"n{min(len(t), 4)}", case["dtype"], case.get("solver", "-"), f"rank{T(case['x']).dim()}")
    ctx.nontrivial(moves(case["f"], case["x"]) and (len(t) > 2 or t[-1] < t[0]))


@F.facet(case_fixed(), quick=500, thorough=8000, shards=2)
def fixed_step(case, ctx):
    dt = DT[case["dtype"]]
    f, x = Field(case["f"], dt), T(case["x"], dt)
    arg, ts = span(case, time_dtype(case))
    s = UserHeun3(dt) if case["solver"] == "user" else case["solver"]
    te, sol = odeint(f, x, arg, s)
    contract(ctx, x, ts, te, sol, case["dtype"])
    labels(ctx, case)
    ctx.label(case["form"])


@F.facet(case_adapt(), quick=700, thorough=12000, shards=4)
def adaptive(case, ctx):
    dt = DT[case["dtype"]]
    f, x = Field(case["f"], dt), T(case["x"], dt) * case["scale"]
    ts = torch.tensor(times(case), dtype=time_dtype(case))
    s = UserBS23(dt) if case["solver"] == "user" else case["solver"]
    tol = 10. ** case["logtol"]
    if case["solver"] == "user":
        tol = max(tol, 1e-6)
    interp = "4th" if case["interp"] and case["solver"] != "user" else None
    te, sol = odeint(f, x, ts, s, atol=tol, rtol=tol, interpolator=interp, return_all_eval=case["all"])
    contract(ctx, x, ts, te, sol, case["dtype"], superset=case["all"])
    labels(ctx, case)
    ctx.label(f"interp={bool(interp)}", f"all={case['all']}", f"tol1e{case['logtol']}")


@st.composite
def case_model(draw):
    f = draw(gen.field(d=2))
    return dict(f=f, x=draw(gen.batch(2)), t=draw(gen.grid(nmax=6)), dtype="f64",
                solver=draw(st.sampled_from(["euler", "rk4", "dopri5", "tsit5"])),
                sens=draw(st.sampled_from(["autograd", "adjoint", "interpolated_adjoint"])),
                model=draw(st.sampled_from(["NeuralODE", "ODEProblem"])), grad=draw(st.booleans()))


@F.facet(case_model(), quick=250, thorough=4000, shards=2)
def models(case, ctx):
    "model classes return the requested times too; the interpolated adjoint returns a superset"
    f, x = FieldModule(case["f"]), T(case["x"])
    ts = T(case["t"])
    cls = NeuralODE if case["model"] == "NeuralODE" else ODEProblem
    m = cls(f, solver=case["solver"], sensitivity=case["sens"], atol=1e-5, rtol=1e-5)
    if case["grad"]:
        x.requires_grad_(True)
    te, sol = m(x, ts)
    contract(ctx, x, ts, te, sol, "f64", superset=case["sens"] == "interpolated_adjoint")
    if case["model"] == "NeuralODE":
        tr = m.trajectory(x, ts)
        ctx.check(tr.shape == (len(ts), *x.shape), lambda: f"trajectory of shape {tuple(tr.shape)} for {len(ts)} times")
    labels(ctx, case)
    ctx.label(case["sens"], case["model"])


@st.composite
def case_ms(draw):
    return dict(f=draw(gen.field(d=2, time=False)), x=draw(gen.batch(2)), t=draw(gen.grid(nmax=6, uniform=True, reverse=False)),
                dtype="f64", solver=draw(st.sampled_from(["zero", "mszero", "parareal", "msbackward", "backward", "discrete-adjoint"])))


@F.facet(case_ms(), quick=80, thorough=1500)
def multiple_shooting(case, ctx):
    f, x, ts = Field(case["f"]), T(case["x"]), T(case["t"])
    te, sol = odeint_mshooting(f, x, ts, case["solver"])
    contract(ctx, x, ts, te, sol, "f64")
    labels(ctx, case)


@st.composite
def case_dict(draw):
    f = draw(gen.field())
    return dict(f=f, x=draw(gen.state(f["d"])), y=draw(gen.batch(2)), t=draw(gen.grid(nmax=5, reverse=False)), dtype="f64")


@F.facet(case_dict(), quick=80, thorough=1000)
def dict_states(case, ctx):
    "a user solver over dictionaries of tensors gets one stacked tensor per key"
    from torchdyn.numerics.solvers.ode import SolverTemplate

    class DictEuler(SolverTemplate):
        def __init__(self):
            super().__init__(order=1)
            self.dtype, self.stepping_class = torch.float32, "fixed"

        def step(self, f, x, t, dt, k1=None, args=None):
            k = f(t, x)
            return None, {n: x[n] + dt * k[n] for n in x}, None
    f = Field(case["f"])
    x0 = {"a": T(case["x"]), "b": T(case["y"])}
    ts = T(case["t"])
    te, sol = odeint(lambda t, x: {"a": f(t, x["a"]), "b": -x["b"]}, dict(x0), ts, DictEuler())
    ctx.check(te.tolist() == ts.tolist(), lambda: f"evaluation times {te.tolist()} instead of {ts.tolist()}")
    ctx.check(isinstance(sol, dict) and set(sol) == {"a", "b"}, "solution is not a dictionary of the state's keys")
    a, b = x0["a"], x0["b"]
    A, B = [a], [b]
    for i in range(len(ts) - 1):
        h = ts[i + 1] - ts[i]
        A.append(A[-1] + h * f(ts[i], A[-1])); B.append(B[-1] - h * B[-1])
    ctx.close(sol["a"], torch.stack(A), 1e-10, 1e-10, "dict state entry 'a'")
    ctx.close(sol["b"], torch.stack(B), 1e-10, 1e-10, "dict state entry 'b'")
    labels(ctx, case)

"""C17 hypersolvers are the base method plus the scaled correction"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, FieldModule, T, moves, rk_solve, rk_step, rtol, scipy_solve, spec_time
from vf.props.c10 import weights
from torchdyn.core import NeuralODE
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.numerics.solvers.ode import Euler, Midpoint, RungeKutta4

F = core.Registry()
RULE = ("random fields and random correction networks (time-dependent, nonlinear, trainable), the three hypersolvers, states of every shape, step sizes including zero "
        "and negative ones for single steps, forward grids through odeint and Neural ODEs; non-trivial = the correction is non-zero")
ASSUMPTIONS = ["forward integration: in reversed time the integrator runs on a negated clock, for which a correction network is not defined"]
D = torch.float64
H = {"euler": (HyperEuler, Euler, 1), "midpoint": (HyperMidpoint, Midpoint, 2), "rk4": (HyperRungeKutta4, RungeKutta4, 4)}


def hyper_solve(name, f, net, x, ts):
    p, out = H[name][2], [x]
    for i in range(len(ts) - 1):
        h = ts[i + 1] - ts[i]
        out.append(rk_step(name, f, ts[i], out[-1], h) + h ** (p + 1) * net(ts[i], out[-1]))
    return torch.stack(out)


@st.composite
def case_step(draw):
    d = draw(st.integers(1, 3))
    return dict(name=draw(st.sampled_from(list(H))), f=draw(gen.field(d=d)), net=draw(gen.field(d=d, lip=2)), x=draw(gen.state(d)), t=draw(gen.num(-2, 2)),
                h=draw(gen.num(-1, 1)), dtype=draw(gen.dtypes), k1=draw(st.sampled_from([None, 1, 2])), zero=draw(st.integers(0, 4)) == 0)


@F.facet(case_step(), quick=500, thorough=10000)
def step_formula(case, ctx):
    "one step is the base step plus h^(p+1) times the network at the start of the step"
    cls, base, p = H[case["name"]]
    dt = DT[case["dtype"]]
    f, net, x = Field(case["f"], dt), FieldModule(case["net"], dt), T(case["x"], dt)
    zero = lambda t, y: torch.zeros_like(y)
    g = zero if case["zero"] else net
    s, b = cls(g, dtype=dt), base(dtype=dt)
    ctx.check(s.order == p and s.stepping_class == "fixed", f"order {s.order}, {s.stepping_class} stepping")
    t, h = T(case["t"], dt), T(case["h"], dt)
    k1 = f(t, x) * case["k1"] if case["k1"] else None       # 2: a slope handed over by the caller, used by the base step instead of f(t, x)
    keep = x.clone()
    out = s.step(f, x, t, h, k1=k1)[1]
    own = b.step(f, x, t, h, k1=k1)[1]
    corr = h.double() ** (p + 1) * FieldModule(case["net"])(t.double(), x.double()) * (0 if case["zero"] else 1)
    tol = rtol(dt, 10)
    if case["k1"] != 2:
        ctx.close(out, rk_step(case["name"], Field(case["f"]), t.double(), x.double(), h.double()) + corr, tol, tol, f"step of the hypersolver over {case['name']}")
    ctx.close(out, own.double() + corr, tol, tol, "step against the base solver of the library")
    if case["zero"]:
        ctx.check(torch.equal(out, own), "a zero network changes the base method")
    ctx.check(torch.equal(keep, x), "state modified in place")
    ctx.nontrivial(case["zero"] or float(corr.abs().max()) > 1e-4)
    ctx.label(case["name"], case["dtype"], "zero" if case["zero"] else "net", "neg" if case["h"] < 0 else "pos")


@st.composite
def case_solve(draw):
    d = draw(st.integers(1, 3))
    t = draw(gen.grid(nmin=2, nmax=7, reverse=False))
    return dict(name=draw(st.sampled_from(list(H))), f=draw(gen.field(d=d)), net=draw(gen.field(d=d, lip=1)), x=draw(gen.batch(d)), t=t, dtype=draw(gen.dtypes),
                w=draw(weights(len(t), d)), zero=draw(st.integers(0, 4)) == 0, api=draw(st.sampled_from(["odeint", "NeuralODE"])), train=draw(st.booleans()))


@F.facet(case_solve(), quick=400, thorough=8000, shards=2)
def whole_solutions(case, ctx):
    "solutions through the integrator and the model class follow the same recurrence on irregular grids; gradients reach the network"
    cls, base, p = H[case["name"]]
    dt = DT[case["dtype"]]
    f, net, x, ts = FieldModule(case["f"], dt), FieldModule(case["net"], dt), T(case["x"], dt), T(case["t"], dt)
    rf, rn, xr = FieldModule(case["f"]), FieldModule(case["net"]), T(case["x"]).clone().requires_grad_(True)
    if case["zero"]:
        with torch.no_grad():
            for q in list(net.parameters()) + list(rn.parameters()):
                q.zero_()
    xg = x.clone().requires_grad_(True)
    solver = cls(net, dtype=dt)
    solver.train(case.get("train", True))
    if case["api"] == "odeint":
        te, sol = odeint(f, xg, ts, solver)
    else:
        te, sol = NeuralODE(f, solver=solver, sensitivity="autograd").train(case.get("train", True))(xg, ts)
    want = hyper_solve(case["name"], rf, rn, xr, ts.double())
    k = 10 if case["dtype"] == "f64" else 2 * 3 ** len(ts)
    ctx.close(sol, want, rtol(dt, k), rtol(dt, k), f"hypersolver over {case['name']} through {case['api']}")
    if case["zero"] and case["api"] == "odeint":
        ctx.check(torch.equal(sol, odeint(f, xg, ts, base(dtype=dt))[1]), "a zero network changes the base method")
    if case["dtype"] == "f64":
        W = T(case["w"])[:, None]
        ga = torch.autograd.grad((W * sol * sol).sum(), [xg] + list(f.parameters()) + list(net.parameters()), allow_unused=True)
        gb = torch.autograd.grad((W * want * want).sum(), [xr] + list(rf.parameters()) + list(rn.parameters()), allow_unused=True)
        big = max([1.] + [float(v.abs().max()) for v in gb if v is not None])
        names = ["x0"] + ["f." + n for n, _ in rf.named_parameters()] + ["net." + n for n, _ in rn.named_parameters()]
        for n, a, b in zip(names, ga, gb):
            ctx.check((a is None) == (b is None), f"gradient of {n} is {a} instead of {b}")
            if a is not None:
                ctx.close(a, b, 0, 1e-9 * big, f"gradient of {n}")
    with torch.no_grad():
        ctx.nontrivial(len(ts) > 2 and (case["zero"] or float(rn(T(0.3), T(case["x"])).abs().max()) > 1e-3))
    ctx.label(case["name"], case["api"], "zero" if case["zero"] else "net", case["dtype"])


@st.composite
def case_order(draw):
    d = draw(st.integers(1, 2))
    name = draw(st.sampled_from(list(H)))
    return dict(name=name, f=draw(gen.field(d=d, nonlinear=None if name == "euler" else False, time=None if name == "euler" else False)),
                x=draw(gen.batch(d, bmax=2)), T=draw(gen.pos(.6, 1.5)))


@F.facet(case_order(), quick=120, thorough=2000)
def gains_an_order(case, ctx):
    "with the exact leading residual the global error falls with one power more than that of the base method"
    cls, base, p = H[case["name"]]
    f, x = Field(case["f"], cap=10 ** 7), T(case["x"])
    if case["name"] == "euler":
        def net(t, y):
            fy = f(t, y)
            _, fx = torch.autograd.functional.jvp(lambda z: f(t, z), y, fy)
            _, ft = torch.autograd.functional.jvp(lambda u: f(u, y), t.reshape(()), torch.ones((), dtype=D)) if spec_time(case["f"]) else (0, 0.)
            return (fx + ft) / 2
    else:
        A = T(case["f"]["A"])
        Ap = torch.linalg.matrix_power(A, p)
        fact = 6. if p == 2 else 120.

        def net(t, y):
            return f(t, y) @ Ap.T / fact
    grid = [0., case["T"]]
    ref = scipy_solve(lambda t, y: f(t, y), x, grid)[-1]
    err, eb = [], []
    for n in (4, 8, 16):
        ts = torch.linspace(0, case["T"], n + 1, dtype=D)
        err.append(float((odeint(f, x, ts, cls(net, dtype=D))[1][-1] - ref).abs().max()))
        eb.append(float((odeint(f, x, ts, base(dtype=D))[1][-1] - ref).abs().max()))
    # order p+1 from 4 to 16 steps: factor 4^(p+1); accept anything clearly above order p unless at rounding or the errors pass through zero
    ok = max(err[1], err[2]) <= 1e-9 or err[2] <= err[0] / 4 ** (p + .4) + 1e-9 or err[2] <= err[1] / 2 ** (p + .4) + 1e-9
    bound = max(eb) * case["T"] / 4 + 1e-9
    ctx.check(ok or err[2] <= eb[2] * .05, f"errors {err} with the exact residual, {eb} without: no order gained over {p}")
    ctx.nontrivial(eb[0] > 1e-6)
    ctx.label(case["name"])

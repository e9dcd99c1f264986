"""C26 benchmark systems implement their published equations"""
import math
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, T, scipy_solve
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import DormandPrince45
from torchdyn.numerics.systems import (CoupledFourierSystem, FourierSystem, Lorenz, LTISystem, MatMulBoundedSystem, MatMulSystem, ODEProblem2, ODEProblem3, ODEProblem4,
                                       SineSystem, StiffFourierSystem, VanDerPol)

F = core.Registry()
RULE = ("states of any leading shape with entries up to 20, scalar and batched times, dimensions 1-4, parameters and random seeds; oracle: formulas evaluated sample by sample "
        "with Python floats; non-trivial = a non-zero right-hand side")
D = torch.float64

EQ = {   # published equations, one state at a time
    "lorenz": (3, lambda t, x, a: [10 * (x[1] - x[0]), x[0] * (28 - x[2]) - x[1], x[0] * x[1] - 8 * x[2] / 3]),
    "vanderpol": (2, lambda t, x, a: [x[1], a * (1 - x[0] ** 2) * x[1] - x[0]]),
    "growth": (None, lambda t, x, a: [.5 * v for v in x]),
    "decay": (None, lambda t, x, a: [-.1 * v for v in x]),
    "rabinovich-fabrikant": (3, lambda t, x, a: [x[1] * (x[2] - 1 + x[0] ** 2) + .87 * x[0], x[0] * (3 * x[2] + 1 - x[0] ** 2) + .87 * x[1], -2 * x[2] * (1.1 + x[0] * x[1])]),
    "sine": (None, lambda t, x, a: [math.sin(t) for _ in x]),
}
MAKE = {"lorenz": lambda a: Lorenz(), "vanderpol": lambda a: VanDerPol(a) if a is not None else VanDerPol(), "growth": lambda a: ODEProblem2(), "decay": lambda a: ODEProblem3(),
        "rabinovich-fabrikant": lambda a: ODEProblem4(), "sine": lambda a: SineSystem()}


@st.composite
def case_eq(draw):
    name = draw(st.sampled_from(list(EQ)))
    d = EQ[name][0] or draw(st.integers(1, 4))
    lead = [draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 3)))]
    n = math.prod(lead)
    return dict(name=name, d=d, lead=lead, x=draw(gen.mat(n, d, -20, 20) if draw(st.booleans()) else gen.mat(n, d, -2, 2)), t=draw(gen.num(-10, 10)), a=draw(st.one_of(st.none(), gen.num(-5, 20))),
                dtype=draw(st.sampled_from(["f64", "f32"])), kw=draw(st.booleans()))


@F.facet(case_eq(), quick=600, thorough=12000)
def equations(case, ctx):
    "every state of every batch shape"
    name, dt = case["name"], DT[case["dtype"]]
    m = MAKE[name](case["a"])
    X = T(case["x"], dt).reshape(*case["lead"], case["d"])
    keep = X.clone()
    args = {"args": {}} if case["kw"] and name in ("lorenz", "vanderpol") else {}
    got = m(torch.tensor(case["t"], dtype=dt), X, **args)
    a = 10 if case["a"] is None else case["a"]
    want = torch.tensor([EQ[name][1](float(torch.tensor(case["t"], dtype=dt)), r, a) for r in X.reshape(-1, case["d"]).tolist()], dtype=D).reshape(X.shape)
    scale = 1 + float(want.abs().max())
    ctx.check(got.dtype == dt, f"{name}: result of type {got.dtype} for states of type {dt}")
    ctx.close(got.double(), want, 1e-12 if dt == D else 1e-6, (1e-12 if dt == D else 2e-6) * scale, f"{name} at time {case['t']}")
    ctx.check(torch.equal(X, keep), "the state was modified")
    ctx.nontrivial(float(want.abs().max()) > 1e-6)
    ctx.label(name, f"lead{len(case['lead'])}", case["dtype"])


KINDS = {"fourier": FourierSystem, "stiff": StiffFourierSystem, "coupled": CoupledFourierSystem}


@st.composite
def case_fourier(draw):
    return dict(kind=draw(st.sampled_from(list(KINDS))), dim=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10 ** 6)), ts=draw(st.lists(gen.num(-4, 4), min_size=1, max_size=4)),
                b=draw(st.integers(1, 3)), rand=draw(st.integers(0, 2)))


def fourier_rows(m, t):
    A, w, p = m.A.double(), m.w.double(), m.phi.double()
    return [sum(A[i, j, k].item() * math.cos(w[i, j, k].item() * t + p[i, j, k].item()) for j in range(A.shape[1]) for k in range(2)) for i in range(A.shape[0])]


@F.facet(case_fourier(), quick=150, thorough=2500)
def fourier(case, ctx):
    "sums of harmonics of the time (mixed linearly when coupled), single and batched times, before and after randomisation"
    torch.manual_seed(case["seed"])
    d = case["dim"]
    m = KINDS[case["kind"]](dim=d)
    nh = m.A.shape[1]
    ctx.check(m.A.shape == m.w.shape == m.phi.shape == (d, nh, 2), f"parameters of shapes {tuple(m.A.shape)}, {tuple(m.w.shape)}, {tuple(m.phi.shape)}")
    ctx.check((20 <= nh < 100) if case["kind"] == "stiff" else (2 <= nh < 20), f"{nh} harmonics")
    for r in range(case["rand"] + 1):
        if r:
            old = [m.A.clone(), m.w.clone(), m.phi.clone()] + ([m.mixing_l.weight.detach().clone(), m.mixing_l.bias.detach().clone()] if case["kind"] == "coupled" else [])
            m.randomize_parameters()
            new = [m.A, m.w, m.phi] + ([m.mixing_l.weight, m.mixing_l.bias] if case["kind"] == "coupled" else [])
            ctx.check(all(a.shape == b.shape and not torch.equal(a, b) for a, b in zip(old, new)), "randomising keeps shapes and changes every parameter")
        ctx.check(float(m.A.abs().max()) <= 10 and float(m.phi.abs().max()) <= 1 and float(m.w.abs().max()) <= 20, "parameters outside their default ranges")
        x = torch.randn(case["b"], d)
        want = torch.tensor([fourier_rows(m, float(torch.tensor(t))) for t in case["ts"]], dtype=D)
        if case["kind"] == "coupled":
            want = want @ m.mixing_l.weight.detach().double().T + m.mixing_l.bias.detach().double()
        tol = 2e-4 * 10 * nh ** .5
        single = torch.cat([m(torch.tensor(t), x) for t in case["ts"]])
        ctx.check(tuple(single.shape) == (len(case["ts"]), d), f"single times give rows of shape {tuple(single.shape)}")
        ctx.close(single.double(), want, 1e-4, tol, f"{case['kind']} system at single times (randomised {r} times)")
        batched = m(torch.tensor(case["ts"]), x)
        ctx.close(batched, single, 1e-5, 1e-3, f"{case['kind']} system: batched times give other rows than single times")
    ctx.nontrivial(len(case["ts"]) > 1)
    ctx.label(case["kind"], f"dim{d}", f"randomised{case['rand']}")


NETS = {"lti": LTISystem, "matmul": MatMulSystem, "bounded": MatMulBoundedSystem}


@st.composite
def case_net(draw):
    d = draw(st.integers(1, 4))
    return dict(kind=draw(st.sampled_from(list(NETS))), d=d, x=draw(gen.batch(d, -3, 3)), seed=draw(st.integers(0, 999)), t=draw(gen.num(-3, 3)), rand=draw(st.integers(0, 2)), hdim=draw(st.sampled_from([4, 32])))


@F.facet(case_net(), quick=150, thorough=2500)
def linear_and_networks(case, ctx):
    "linear systems and random networks: autonomous, per sample, dimension kept and parameters changed by randomisation"
    torch.manual_seed(case["seed"])
    d = case["d"]
    m = NETS[case["kind"]](dim=d) if case["kind"] == "lti" else NETS[case["kind"]](dim=d, hdim=case["hdim"])
    m = m.double()
    X = T(case["x"])
    for r in range(case["rand"] + 1):
        if r:
            old = [p.detach().clone() for p in m.parameters()]
            m.randomize_parameters()
            m.double()
            new = list(m.parameters())
            ctx.check(len(old) == len(new) and all(a.shape == b.shape and not torch.equal(a, b) for a, b in zip(old, new)), "randomising keeps shapes and changes every parameter")
        y = m(torch.tensor(case["t"]), X)
        ctx.check(y.shape == X.shape, f"result of shape {tuple(y.shape)}")
        ctx.check(torch.equal(y, m(torch.tensor(case["t"] + 1), X)), "an autonomous system depends on time")
        for i in range(len(X)):
            ctx.close(m(torch.tensor(case["t"]), X[i:i + 1]), y[i:i + 1], 1e-8, 1e-8, "a sample depends on the others")
        if case["kind"] == "lti":
            W, b = m.l.weight.detach(), m.l.bias.detach()
            ctx.close(y, torch.stack([W @ v + b for v in X]), 1e-9, 1e-9, "linear system")
        else:
            h = X
            lins = [l for l in m.modules() if isinstance(l, torch.nn.Linear)]
            for l in lins[:-1]:
                h = torch.tanh(h @ l.weight.T + l.bias)
            h = h @ lins[-1].weight.T + lins[-1].bias
            if case["kind"] == "bounded":
                h = torch.tanh(h)
                ctx.check(float(y.abs().max()) <= 1, "bounded system leaves [-1, 1]")
            ctx.close(y, h, 1e-8, 1e-8, f"{case['kind']}: chain of tanh layers with a linear last layer")
        ctx.check(m.randomizable is True, "randomisable")
    ctx.nontrivial()
    ctx.label(case["kind"], f"dim{d}", f"randomised{case['rand']}")


@st.composite
def case_traj(draw):
    name = draw(st.sampled_from(list(EQ)))
    d = EQ[name][0] or draw(st.integers(1, 3))
    return dict(name=name, d=d, x=draw(gen.batch(d, -1, 1)), t=draw(gen.grid(nmax=4, hmin=.05, hmax=.25)), a=draw(gen.num(.5, 5)))


@F.facet(case_traj(), quick=60, thorough=1200)
def trajectories(case, ctx):
    "integrated with a tight adaptive solver: trajectories of the published equations"
    name, eq = case["name"], EQ[case["name"]][1]
    x, ts = T(case["x"]), T(case["t"])
    if name == "rabinovich-fabrikant":
        x = x * .5
    _, sol = odeint(MAKE[name](case["a"]), x, ts, DormandPrince45(D), atol=1e-9, rtol=1e-9)
    want = scipy_solve(lambda t, y: torch.tensor([eq(float(t), r, case["a"]) for r in y.tolist()], dtype=D), x, case["t"])
    ctx.close(sol, want, 1e-5, 1e-5, f"trajectory of {name}")
    ctx.nontrivial(float((want[-1] - want[0]).abs().max()) > 1e-3)
    ctx.label(name, "rev" if case["t"][-1] < case["t"][0] else "fwd")

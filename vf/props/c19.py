"""C19 continuous normalizing flows propagate the exact change of log density"""
import itertools
import torch
from torch import nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, FieldModule, T, fine_solve, moves, rtol, spec_time
from vf.props.c10 import weights
from torchdyn.core import NeuralODE
from torchdyn.models.cnf import CNF, autograd_trace, hutch_trace
from torchdyn.numerics.solvers.ode import DormandPrince45, RungeKutta4

F = core.Registry()
RULE = ("random state fields (linear, neural, time-dependent through the depth variable) of 1-4 dimensions, batches of 1-4, both dtypes, exact and stochastic trace "
        "estimators, logged noise distributions, solvers and directions; oracles: closed-form Jacobian traces, log determinants of differentiated reference flows; "
        "non-trivial = the divergence is non-zero")
D = torch.float64


class Net(nn.Module):
    "field of the state only; the depth variable `t` is assigned by the model"
    def __init__(self, spec, dtype="f64"):
        super().__init__()
        self.f, self.t = FieldModule(spec, dtype, cap=10 ** 7), torch.zeros((), dtype=DT[dtype] if isinstance(dtype, str) else dtype)

    def forward(self, x):
        return self.f(self.t, x)


def jac(spec, t, x):
    "closed-form Jacobian (b, d, d)"
    J = T(spec["A"]).expand(len(x), -1, -1).clone()
    if "B" in spec:
        B, C = T(spec["B"]), T(spec["C"])
        s = 1 - torch.tanh(x @ C.T + T(spec["dt"]) * t + T(spec["e"])) ** 2
        J = J + torch.einsum("ih,bh,hj->bij", B, s, C)
    return J


def trace(J):
    return torch.einsum("bii->b", J)


def augmented(f):
    "reference field on (log density, state)"
    def g(t, y):
        x = y[:, 1:]
        with torch.enable_grad():
            xi = x if x.requires_grad else x.clone().requires_grad_(True)
            out = f(t, xi)
            tr = sum(torch.autograd.grad(out[:, i].sum(), xi, create_graph=True)[0][:, i] for i in range(xi.shape[1]))
        return torch.cat([-tr[:, None], out], 1)
    return g


@st.composite
def case_field(draw, dmax=4):
    d = draw(st.integers(1, dmax))
    return dict(f=draw(gen.field(d=d)), x=draw(gen.batch(d + 1, bmax=4)), t=draw(gen.num(-2, 2)), dtype=draw(gen.dtypes), seed=draw(st.integers(0, 999)),
                default=draw(st.booleans()))


@F.facet(case_field(), quick=500, thorough=10000)
def exact_trace(case, ctx):
    "first column: minus the trace of the Jacobian; other columns: the field; the log density itself has no influence"
    dt = DT[case["dtype"]]
    net, x = Net(case["f"], dt), T(case["x"], dt)
    cnf = CNF(net) if case["default"] else CNF(net, trace_estimator=autograd_trace)
    net.t = T(case["t"], dt)
    y = cnf(x.clone())
    xs = T(case["x"])[:, 1:]
    J = jac(case["f"], case["t"], xs)
    want = torch.cat([-trace(J)[:, None], Field(case["f"])(T(case["t"]), xs)], 1)
    tol = rtol(dt, 10)
    ctx.close(y, want, tol, tol, "minus trace and field")
    x2 = x.clone()
    x2[:, 0] += 1.5
    ctx.close(cnf(x2), y, tol, tol, "evaluation with another log density")
    with torch.no_grad():
        ctx.close(cnf(x.clone()), want, tol, tol, "evaluation without gradient tracking")
    for i in range(len(x)):
        ctx.close(cnf(x[i:i + 1].clone())[0], want[i], tol, tol, f"sample {i} alone")
    ctx.nontrivial(float(trace(J).abs().max()) > 1e-3)
    ctx.label(case["dtype"], f"d{xs.shape[1]}", f"b{len(x)}", "time" if spec_time(case["f"]) else "autonomous")


@F.facet(case_field(dmax=3), quick=300, thorough=6000)
def stochastic_trace(case, ctx):
    "the Hutchinson estimator is the quadratic form of the noise, exact for diagonal Jacobians with signs, and exact on average over all signs"
    dt = DT[case["dtype"]]
    spec = case["f"]
    net, x = Net(spec, dt), T(case["x"], dt)
    net.t = T(case["t"], dt)
    d = x.shape[1] - 1
    cnf = CNF(net, trace_estimator=hutch_trace, noise_dist=torch.distributions.MultivariateNormal(torch.zeros(d), torch.eye(d)))
    J = jac(spec, case["t"], T(case["x"])[:, 1:])
    g = torch.Generator().manual_seed(case["seed"])
    noise = torch.randn(len(x), d, generator=g, dtype=D)
    cnf.noise = noise.to(dt)
    tol = rtol(dt, 20)
    out = cnf(x.clone())
    ctx.close(out[:, 0], -torch.einsum("bi,bij,bj->b", noise, J, noise), tol, tol, "noise quadratic form")
    ctx.close(out[:, 1:], Field(spec)(T(case["t"]), T(case["x"])[:, 1:]), tol, tol, "state columns")
    total = 0
    for signs in itertools.product([-1., 1.], repeat=d):
        cnf.noise = torch.tensor(signs, dtype=dt).expand(len(x), d).clone()
        total = total + cnf(x.clone())[:, 0].detach()
    ctx.close(total / 2 ** d, -trace(J), tol, tol, "average over all sign vectors")
    diag = {**spec, "A": [[v if i == j else 0. for j, v in enumerate(r)] for i, r in enumerate(spec["A"])]}
    diag.pop("B", None)
    n2 = Net({k: v for k, v in diag.items() if k not in ("C", "e", "dt")}, dt)
    n2.t = T(case["t"], dt)
    c2 = CNF(n2, trace_estimator=hutch_trace, noise_dist=torch.distributions.Bernoulli(torch.full((d,), .5)))
    c2.noise = torch.where(noise > 0, 1., -1.).to(dt)
    ctx.close(c2(x.clone())[:, 0], -trace(T(diag["A"])[None].expand(len(x), d, d)), tol, tol, "sign noise on a diagonal Jacobian")
    ctx.nontrivial(float(trace(J).abs().max()) > 1e-3 and d > 1)
    ctx.label(case["dtype"], f"d{d}")


@st.composite
def case_flow(draw):
    d = draw(st.integers(1, 3))
    t = draw(gen.grid(nmin=2, nmax=4, hmin=.1, hmax=.5))
    return dict(f=draw(gen.field(d=d)), x=draw(gen.batch(d + 1, bmax=3)), t=t, solver=draw(st.sampled_from(["dopri5", "rk4"])), w=draw(weights(len(t), d + 1)),
                sens=draw(st.sampled_from(["autograd", "autograd", "adjoint"])))


def model(case, net, est=None, noise=None, sens="autograd"):
    cnf = CNF(net, trace_estimator=est, noise_dist=noise)
    solver = DormandPrince45(D) if case["solver"] == "dopri5" else RungeKutta4(D)
    return NeuralODE(cnf, solver=solver, sensitivity=sens, atol=1e-9, rtol=1e-9, solver_adjoint=DormandPrince45(D), atol_adjoint=1e-7, rtol_adjoint=1e-7)


def fine(case):
    "rk4 needs a fine grid: n points per interval"
    t = case["t"]
    n = 40 if case["solver"] == "rk4" else 1
    out = [t[0]]
    for a, b in zip(t, t[1:]):
        out += [a + (b - a) * (i + 1) / n for i in range(n)]
    return torch.tensor(out, dtype=D), slice(None, None, n)


@F.facet(case_flow(), quick=100, thorough=2500, shards=3)
def log_determinant(case, ctx):
    "the change of the log-density column is minus the log determinant of the flow map; integrating back cancels it"
    net, x = Net(case["f"]), T(case["x"])
    m = model(case, net)
    ts, pick = fine(case)
    te, sol = m(x.clone(), ts)
    sol = sol[pick].detach()
    f = Field(case["f"], cap=10 ** 7)
    xs = x[:, 1:]
    coarse = T(case["t"])
    for b in range(len(x)):
        J = torch.autograd.functional.jacobian(lambda y: fine_solve(f, y[None], coarse, 20)[:, 0], xs[b])
        ld = torch.linalg.slogdet(J)[1]
        ctx.close(sol[:, b, 0] - x[b, 0], -ld, 1e-5, 1e-5, f"change of log density of sample {b} against the log determinant of the flow map")
    ctx.close(sol[..., 1:], fine_solve(f, xs, coarse, 20), 1e-5, 1e-5, "state columns")
    # start the way back at the last state
    tb, back = m(sol[-1].clone(), ts.flip(0))
    ctx.close(back[-1], x, 2e-5, 2e-5, "state and log density after integrating forward and back")
    ctx.nontrivial(float((sol[-1, :, 0] - x[:, 0]).abs().max()) > 1e-3)
    ctx.label(case["solver"], "rev" if case["t"][-1] < case["t"][0] else "fwd")


@F.facet(case_flow(), quick=120, thorough=1500, shards=2)
def gradients(case, ctx):
    "gradients of log density and state with respect to input and parameters, by backpropagation and by the adjoint method"
    net, rf, x = Net(case["f"]), FieldModule(case["f"], cap=10 ** 7), T(case["x"])
    case = {**case, "solver": "dopri5"}
    m = model(case, net, sens=case["sens"])
    ts = T(case["t"])
    xa, xb, W = x.clone().requires_grad_(True), x.clone().requires_grad_(True), T(case["w"])[:, None]
    sol = m(xa, ts)[1]
    ref = fine_solve(augmented(rf), xb, ts, 8)
    ga = torch.autograd.grad((W * sol * sol).sum() + sol[-1].sum(), [xa] + list(net.f.parameters()), allow_unused=True)
    gb = torch.autograd.grad((W * ref * ref).sum() + ref[-1].sum(), [xb] + list(rf.parameters()), allow_unused=True)
    big = max([1.] + [float(v.abs().max()) for v in gb if v is not None])
    ctx.close(sol, ref, 1e-5, 1e-5, "augmented solution")
    for n, a, b, p in zip(["x0"] + [n for n, _ in rf.named_parameters()], ga, gb, [xa] + list(rf.parameters())):
        a = torch.zeros_like(p) if a is None else a
        b = torch.zeros_like(p) if b is None else b
        ctx.close(a, b, 0, (2e-4 if case["sens"] == "autograd" else 1e-3) * big, f"gradient of {n} ({case['sens']})")
    ctx.nontrivial(moves(case["f"], [r[1:] for r in case["x"]]))
    ctx.label(case["sens"])


class Noise:
    "noise distribution that logs its samples"
    def __init__(self, d, seed):
        self.d, self.g, self.log = d, torch.Generator().manual_seed(seed), []

    def sample(self, shape):
        self.log.append(torch.randn(*shape, self.d, generator=self.g, dtype=D))
        return self.log[-1]


@st.composite
def case_noise(draw):
    d = draw(st.integers(1, 3))
    return dict(f=draw(gen.field(d=d, nonlinear=False)), xs=[draw(gen.batch(d + 1, bmax=3)) for _ in range(draw(st.integers(1, 3)))], t=draw(gen.grid(nmin=2, nmax=4)),
                solver=draw(st.sampled_from(["dopri5", "rk4"])), seed=draw(st.integers(0, 999)), traj=draw(st.booleans()), est=draw(st.sampled_from(["hutch", "own"])))


@F.facet(case_noise(), quick=150, thorough=2500)
def noise_sampling(case, ctx):
    "one noise sample of the batch size per integration, used at every evaluation, fresh for the next"
    d = len(case["f"]["A"])
    net, dist, seen = Net(case["f"]), Noise(d, case["seed"]), []

    def own(x_out, x_in, noise=None, **kw):
        seen.append(noise)
        return hutch_trace(x_out, x_in, noise=noise)
    if case["est"] == "own":
        cnf = CNF(net, trace_estimator=own, noise_dist=dist)
    else:
        cnf = CNF(net, trace_estimator=hutch_trace, noise_dist=dist)
    m = NeuralODE(cnf, solver=DormandPrince45(D) if case["solver"] == "dopri5" else RungeKutta4(D), atol=1e-6, rtol=1e-6)
    ts = T(case["t"])
    A = T(case["f"]["A"])
    for k, x in enumerate(case["xs"]):
        x = T(x)
        seen.clear()
        sol = m.trajectory(x.clone(), ts) if case["traj"] else m(x.clone(), ts)[1]
        ctx.check(len(dist.log) == k + 1, f"{len(dist.log)} noise samples after {k + 1} integrations")
        n = dist.log[-1]
        ctx.check(n.shape == (len(x), d), f"noise of shape {tuple(n.shape)} for a batch of {len(x)}")
        ctx.check(all(s is n or torch.equal(s, n) for s in seen), "the noise changed within one integration")
        want = x[:, 0] - (ts - ts[0])[:, None] * torch.einsum("bi,ij,bj->b", n, A, n)
        ctx.close(sol[..., 0], want, 1e-6, 1e-6, f"log density of integration {k} with its own noise")
    ctx.nontrivial(len(case["xs"]) > 1 and float(A.abs().max()) > 1e-3)
    ctx.label(case["solver"], case["est"], "traj" if case["traj"] else "forward")


@F.facet(case_field(), quick=30, thorough=100)
def missing_noise(case, ctx):
    "the stochastic estimator without a noise distribution is refused"
    try:
        CNF(Net(case["f"]), trace_estimator=hutch_trace)
    except AssertionError:
        ctx.nontrivial()
        return
    ctx.fail("the stochastic trace estimator was accepted without a noise distribution")

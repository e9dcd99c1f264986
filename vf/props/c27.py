"""C27 batch elements do not influence each other"""
import torch
from torch import nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import Field, FieldModule, T, moves
from vf.props import c18, c19, c20
from vf.props.c22 import Lin
from torchdyn.core import MultipleShootingLayer, NeuralODE, ODEProblem
from torchdyn.core.defunc import SDEFunc
from torchdyn.models.cnf import CNF
from torchdyn.models.hybrid import HybridNeuralDE
from torchdyn.models.energy import GNF, HNN, LNN, ConservativeLinearSNF
from torchdyn.nn import DataControl, DepthCat, GalLinear
from torchdyn.nn.galerkin import Fourier
from torchdyn.numerics import odeint, sdeint
from torchdyn.numerics.odeint import odeint_mshooting, odeint_symplectic
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.numerics.solvers.ode import DormandPrince45, Euler, Midpoint, MSBackward, MSZero, RungeKutta4, Tsitouras45

F = core.Registry()
RULE = ("batches of 2-5 elements of different magnitude, random per-sample fields, grids of both directions; every entry point with fixed steps (functional, model classes, "
        "sensitivities, hypersolvers, symplectic, stochastic, multiple shooting, higher order, normalising flows, energy models, depth- and data-controlled and Galerkin "
        "networks) against the same call on one element and on the permuted batch, in values and gradients; adaptive solvers by replication, permutation and tolerance; "
        "non-trivial = at least two different elements that move")
ASSUMPTIONS = ["equality up to rounding of matrix products (1e-9), because linear algebra kernels differ between batch sizes",
               "implicit Euler solves the whole batch in one optimisation and is compared to the accuracy of that optimisation",
               "hybrid (event) integration has one event for the whole batch and is not covered here"]
D = torch.float64
FIX = {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4}
HYP = {"euler": HyperEuler, "midpoint": HyperMidpoint, "rk4": HyperRungeKutta4}


def engines():
    "name -> (builder(case) -> function (x, index of the elements) -> solution with time first, batch second)"
    def functional(c):
        f = Field(c["f"], cap=10 ** 6)
        return lambda x, k: odeint(f, x, T(c["t"]), FIX[c["m"]](D))[1]

    def model(c):
        m = NeuralODE(FieldModule(c["f"], cap=10 ** 6), solver=FIX[c["m"]](D))
        return lambda x, k: m(x, T(c["t"]))[1]

    def trajectory(c):
        m = NeuralODE(FieldModule(c["f"], cap=10 ** 6), solver=FIX[c["m"]](D))
        return lambda x, k: m.trajectory(x, T(c["t"]))

    def problem(c):
        m = ODEProblem(FieldModule(c["f"], cap=10 ** 6), solver=FIX[c["m"]](D))
        return lambda x, k: m(x, T(c["t"]))[1]

    def save(c):
        m = NeuralODE(FieldModule(c["f"], cap=10 ** 6), solver=FIX[c["m"]](D))
        return lambda x, k: m(x, T(c["t"]), save_at=T(c["t"])[1:])[1]

    def adjoint(c):
        m = NeuralODE(FieldModule(c["f"], cap=10 ** 6), solver=FIX[c["m"]](D), sensitivity="adjoint", solver_adjoint=RungeKutta4(D))
        return lambda x, k: m(x, T(c["t"]))[1]

    def hyper(c):
        f, net = Field(c["f"]), FieldModule(c["g"])
        t = sorted(c["t"])
        return lambda x, k: odeint(f, x, T(t), HYP[c["m"]](net, dtype=D))[1]

    def symplectic(c):
        f = Field(c["f"])
        f.order = 1
        return lambda x, k: odeint_symplectic(f, torch.cat([x, x.flip(-1) * .5 + 1.], -1), T(c["t"]), "alf")[1]

    def sde(c):
        path = c18.Path((len(c["x"]), c["d"]), c["seed"])
        f, g = Field(c["f"]), Field(c["g"])
        name = list(c18.SCHEMES)[c["seed"] % 4]
        s = SDEFunc(lambda t, x: f(t, x), lambda t, x: g(t, x), noise_type="diagonal", sde_type=c18.SCHEMES[name][0])
        return lambda x, k: sdeint(s, x, T(sorted(c["t"])), name, lambda a, b: path(a, b)[k])[1]

    def shooting(c):
        f = Field({**c["f"], "g": [0.] * c["d"], "w": 1., "p": 0., **({"dt": [0.] * len(c["f"]["dt"])} if "dt" in c["f"] else {})}, cap=10 ** 6)
        ts = torch.linspace(c["t"][0], c["t"][-1], len(c["t"]), dtype=D)
        s = (MSZero if c["seed"] % 2 else MSBackward)(Euler(D), FIX[c["m"]](D))
        return lambda x, k: odeint_mshooting(f, x, ts, s, None, 2, c["seed"] % 3)[1]

    def shooting_layer(c):
        f = FieldModule({**c["f"], "g": [0.] * c["d"], "w": 1., "p": 0., **({"dt": [0.] * len(c["f"]["dt"])} if "dt" in c["f"] else {})}, cap=10 ** 6)
        ts = torch.linspace(c["t"][0], c["t"][-1], len(c["t"]), dtype=D)
        m = MultipleShootingLayer(f, (MSZero if c["seed"] % 2 else MSBackward)(Euler(D), FIX[c["m"]](D)), maxiter=c["seed"] % 3, fine_steps=2)
        return lambda x, k: m(x, ts)[1]

    def higher(c):
        d = c["d"]
        f = FieldModule({**c["f"]}, cap=10 ** 6)
        net = lambda t, x: f(t, x[:, :d] + .3 * x[:, d:])
        m = NeuralODE(net, order=2, solver=FIX[c["m"]](D))
        return lambda x, k: m(torch.cat([x, x.flip(-1) * .5], -1), T(c["t"]))[1]

    def flow(c):
        m = NeuralODE(CNF(c19.Net(c["f"])), solver=FIX[c["m"]](D))
        return lambda x, k: m(torch.cat([torch.zeros(len(x), 1, dtype=D), x], 1), T(c["t"]))[1]

    def controlled(c):
        g = torch.Generator().manual_seed(c["seed"])
        net = nn.Sequential(DataControl(), DepthCat(1), Lin(2 * c["d"] + 1, 3, g, True), Lin(3, c["d"], g, False))
        m = NeuralODE(net, solver=FIX[c["m"]](D))
        return lambda x, k: m(x, T(c["t"]))[1]

    def integral(c):
        m = NeuralODE(FieldModule(c["f"], cap=10 ** 6), solver=FIX[c["m"]](D), integral_loss=lambda t, x: (x ** 2).sum(1))
        return lambda x, k: m(torch.cat([torch.zeros(len(x), 1, dtype=D), x], 1), T(c["t"]))[1]

    def galerkin(c):
        torch.manual_seed(c["seed"])
        l = GalLinear(c["d"], c["d"], expfunc=Fourier(2)).double()
        nn.init.normal_(l.coeffs, 0, .5)
        m = NeuralODE(nn.Sequential(DepthCat(1), l, nn.Tanh()), solver=FIX[c["m"]](D))
        return lambda x, k: m(x, T(c["t"]))[1]

    def energy(c):
        d = 2 * c["d"]
        g = torch.Generator().manual_seed(c["seed"])
        r = lambda *s: torch.randn(*s, generator=g, dtype=D).tolist()
        H = c20.Energy(dict(Q=r(d, d), b=r(d), w=r(2), C=r(2, d), e=r(2), col=False))
        net = [lambda: HNN(H), lambda: GNF(H), lambda: ConservativeLinearSNF(H, c20.Inter(dict(K0=r(d, d), K1=r(d, d), v=r(d))))][c["seed"] % 3]()
        m = NeuralODE(net, solver=FIX[c["m"]](D))
        return lambda x, k: m(torch.cat([x, x.flip(-1) * .5], -1), T(c["t"]))[1]

    def recurrent(c):
        d, n, g = c["d"], 3, torch.Generator().manual_seed(c["seed"])
        cell = [nn.RNNCell, nn.GRUCell, nn.LSTMCell][c["seed"] % 3](d, d).double()
        with torch.no_grad():
            for p in cell.parameters():
                p.copy_(torch.rand(p.shape, generator=g, dtype=D) * 2 - 1)
        node = NeuralODE(FieldModule(c["f"], cap=10 ** 6), solver=FIX[c["m"]](D), return_t_eval=False)
        node.t_span = T(c["t"])
        m = HybridNeuralDE(nn.Sequential(node, Func(lambda y: y[-1])), cell, nn.Identity(), False, bool(c["seed"] // 3 % 2))
        return lambda x, k: m(torch.stack([x * (1 - .4 * i) for i in range(n)]))

    def lagrangian(c):
        d = c["d"]
        L = lambda y: (y[..., d:] ** 2).sum(-1) * .5 * (1.5 + torch.sin(y[..., 0])) - torch.cos(y[..., :d]).sum(-1) * .5
        m = NeuralODE(LNN(Func(L)), solver=FIX[c["m"]](D))
        return lambda x, k: m(torch.cat([x, x.flip(-1) * .5], -1), T(c["t"]))[1]
    return {k: v for k, v in locals().items()}


class Func(nn.Module):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def forward(self, x):
        return self.fn(x)


ENGINES = engines()


@st.composite
def base(draw, names, d=None, bmin=2, bmax=5):
    d = draw(st.integers(1, 3)) if d is None else d
    x = draw(gen.batch(d, -2, 2, bmin=bmin, bmax=bmax))
    # magnitudes differ between the elements
    mags = draw(st.lists(st.sampled_from([1., 1., 4., .1]), min_size=len(x), max_size=len(x)))
    return dict(e=draw(st.sampled_from(names)), d=d, f=draw(gen.field(d=d)), g=draw(gen.field(d=d, lip=.5)), x=[[m * v for v in r] for r, m in zip(x, mags)],
                t=draw(gen.grid(nmin=2, nmax=5, hmin=.05, hmax=.3)), m=draw(st.sampled_from(list(FIX))), seed=draw(st.integers(0, 999)), perm=draw(st.permutations(list(range(len(x))))),
                pick=draw(st.integers(0, len(x) - 1)))


def differ(x):
    return any(any(abs(a - b) > 1e-3 for a, b in zip(r, x[0])) for r in x[1:])


@F.facet(base(list(ENGINES)), quick=700, thorough=12000, shards=4)
def fixed_steps(case, ctx):
    "one element of a batch equals that element alone; permuting commutes with solving; same for gradients"
    x = T(case["x"])
    run = ENGINES[case["e"]](case)
    b = len(x)
    full = list(range(b))
    xa = x.clone().requires_grad_(True)
    sol = run(xa, full)
    scale = 1 + float(sol.detach().abs().max())
    if not scale < 1e6:
        return
    tol = 1e-9
    w = torch.cos(torch.arange(sol[:, 0].numel(), dtype=D)).reshape(sol[:, 0].shape)
    ga, = torch.autograd.grad(((sol ** 2 + sol).transpose(0, 1) * w).sum(), xa) if sol.requires_grad else (None,)
    i = case["pick"]
    xi = x[i:i + 1].clone().requires_grad_(True)
    one = run(xi, [i])
    ctx.close(one[:, 0], sol[:, i], tol, tol * scale, f"{case['e']}: element {i} of a batch of {b} differs from the same element alone")
    if ga is not None:
        gi, = torch.autograd.grad(((one ** 2 + one).transpose(0, 1) * w).sum(), xi)
        gs = 1 + float(ga.abs().max())
        ctx.close(gi[0], ga[i], 0, 1e-8 * gs * scale, f"{case['e']}: gradient of element {i} of a batch of {b} differs from that of the element alone")
    p = case["perm"]
    with torch.no_grad() if case["e"] not in ("flow", "energy", "lagrangian", "shooting", "shooting_layer") else torch.enable_grad():
        q = run(x[p], p)
    ctx.close(q, sol[:, p], tol, tol * scale, f"{case['e']}: permuting the batch does not permute the solution")
    # changing all other elements leaves this one alone
    y = x.flip(0) * 1.7 + .3
    y[i] = x[i]
    other = run(y, full)
    ctx.close(other[:, i], sol[:, i], tol, tol * (scale + float(other.detach().abs().max())), f"{case['e']}: element {i} depends on the other elements")
    ctx.nontrivial(differ(case["x"]) and float((sol[-1] - sol[0]).abs().max()) > 1e-3)
    ctx.label(case["e"], case["m"], f"batch{b}", "rev" if case["t"][-1] < case["t"][0] else "fwd")


@st.composite
def shaped(draw):
    d, lead = draw(st.integers(1, 2)), [draw(st.integers(1, 3)) for _ in range(draw(st.integers(2, 3)))]
    n = 1
    for k in lead:
        n *= k
    return dict(f=draw(gen.field(d=d)), lead=lead, d=d, x=draw(gen.mat(n, d, -2, 2)), t=draw(gen.grid(nmin=2, nmax=5, hmax=.3)), m=draw(st.sampled_from(list(FIX))))


@F.facet(shaped(), quick=150, thorough=3000)
def leading_dimensions(case, ctx):
    "states with several leading dimensions are solved like the flattened batch"
    X, f, ts = T(case["x"]), Field(case["f"]), T(case["t"])
    _, flat = odeint(f, X, ts, FIX[case["m"]](D))
    _, sol = odeint(f, X.reshape(*case["lead"], case["d"]), ts, FIX[case["m"]](D))
    ctx.close(sol.reshape(flat.shape), flat, 1e-9, 1e-9, f"leading dimensions {case['lead']}")
    ctx.nontrivial(len(X) > 1)
    ctx.label(f"lead{len(case['lead'])}", case["m"])


# ------------------------------------------------------------------------------------------- adaptive
@st.composite
def case_ad(draw):
    c = draw(base(["functional", "NeuralODE", "adjoint", "trajectory", "fine_grid", "interpolated"], bmax=4))
    return dict(c, s=draw(st.sampled_from(["dopri5", "tsit5"])), lt=draw(st.sampled_from([-8, -6, -4, -3])), k=draw(st.integers(2, 5)), t=draw(gen.grid(nmin=2, nmax=5, hmin=.05, hmax=.6)))


AD = {"dopri5": DormandPrince45, "tsit5": Tsitouras45}


def adaptive(case):
    ts, tol, solver = T(case["t"]), 10. ** case["lt"], AD[case["s"]](D)
    if case["e"] == "functional":
        f = Field(case["f"], cap=10 ** 6)
        return lambda x: odeint(f, x, ts, solver, atol=tol, rtol=tol)[1]
    if case["e"] == "interpolated":
        f = Field(case["f"], cap=10 ** 6)
        return lambda x: odeint(f, x, ts, DormandPrince45(D), atol=tol, rtol=tol, interpolator="4th")[1]
    if case["e"] == "fine_grid":
        f = Field(case["f"], cap=10 ** 6)
        return lambda x: odeint(f, x, torch.linspace(case["t"][0], case["t"][-1], 12, dtype=D), solver, atol=tol, rtol=tol)[1]
    m = NeuralODE(FieldModule(case["f"], cap=10 ** 6), solver=solver, atol=tol, rtol=tol, sensitivity="adjoint" if case["e"] == "adjoint" else "autograd",
                  solver_adjoint=AD[case["s"]](D), atol_adjoint=tol, rtol_adjoint=tol)
    return (lambda x: m.trajectory(x, ts)) if case["e"] == "trajectory" else (lambda x: m(x, ts)[1])


@F.facet(case_ad(), quick=300, thorough=6000, shards=3)
def adaptive_steps(case, ctx):
    "adaptive solvers: replication gives the element's own solution, permutation permutes, batch and element agree to the tolerance"
    x, tol = T(case["x"]), 10. ** case["lt"]
    run, i = adaptive(case), case["pick"]
    one = run(x[i:i + 1])
    scale = 1 + float(one.detach().abs().max())
    rep = run(x[i:i + 1].repeat(case["k"], 1))
    for j in range(case["k"]):
        ctx.close(rep[:, j], one[:, 0], 0, 1e-9 * scale, f"{case['e']}: {case['k']} copies of one element differ from the element alone ({case['s']}, tolerance {tol:g})")
    sol = run(x)
    scale = 1 + float(sol.detach().abs().max())
    p = case["perm"]
    ctx.close(run(x[p]), sol[:, p], 0, 1e-9 * scale, f"{case['e']}: permuting the batch does not permute the solution ({case['s']}, tolerance {tol:g})")
    ctx.close(sol[:, i], one[:, 0], 0, 300 * tol * scale, f"{case['e']}: element {i} of a batch of {len(x)} and the element alone ({case['s']}, tolerance {tol:g})")
    ctx.nontrivial(differ(case["x"]) and moves(case["f"], case["x"]))
    ctx.label(case["e"], case["s"], f"tol1e{case['lt']}", f"batch{len(x)}", "rev" if case["t"][-1] < case["t"][0] else "fwd")


@F.facet(case_ad(), quick=100, thorough=2500, shards=2)
def adaptive_gradients(case, ctx):
    "gradients through adaptive solutions: replication and permutation"
    if case["e"] not in ("NeuralODE", "adjoint", "functional"):
        return
    run, i, x, p = adaptive(case), case["pick"], T(case["x"]), case["perm"]

    def grad(y):
        y = y.clone().requires_grad_(True)
        s = run(y)
        w = torch.cos(torch.arange(s[:, 0].numel(), dtype=D)).reshape(s[:, 0].shape)
        return torch.autograd.grad(((s ** 2 + s).transpose(0, 1) * w).sum(), y)[0]
    g1, gk = grad(x[i:i + 1]), grad(x[i:i + 1].repeat(case["k"], 1))
    sc = 1 + float(g1.abs().max())
    # the adjoint pass carries the parameter gradients, which grow with the number of copies: equal to tolerance only
    tol = 1e-8 * sc if case["e"] != "adjoint" else 1000 * 10. ** case["lt"] * sc
    ctx.close(gk, g1.expand(case["k"], -1), 0, tol, f"{case['e']}: gradients of copies of one element")
    g, q = grad(x), grad(x[p])
    ctx.close(q, g[p], 0, 1e-8 * (1 + float(g.abs().max())), f"{case['e']}: gradients of the permuted batch")
    ctx.nontrivial(differ(case["x"]))
    ctx.label(case["e"], case["s"])


@st.composite
def case_imp(draw):
    return dict(draw(base(["ieuler"], bmax=3)), big=draw(st.booleans()))


@F.facet(case_imp(), quick=60, thorough=800)
def implicit_euler(case, ctx):
    "implicit Euler: batch and single elements agree to the accuracy of the inner optimisation"
    f, ts, x, i = Field(case["f"], cap=10 ** 7), T(sorted(case["t"])), T(case["x"]), case["pick"]
    run = lambda y: odeint(f, y, ts, "ieuler")[1].detach()
    sol, one = run(x), run(x[i:i + 1])
    scale = 1 + float(sol.abs().max())
    ctx.close(sol[:, i], one[:, 0], 0, 2e-3 * scale, f"implicit Euler: element {i} of {len(x)} alone")
    ctx.nontrivial(differ(case["x"]))

"""C28 models survive copying, serialisation and state loading unchanged"""
import copy, io, pickle
import torch
from torch import nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import FieldModule, T
from vf.props import c18, c19, c20
from vf.props.c22 import Lin
from torchdyn.core import MultipleShootingLayer, NeuralODE, NeuralSDE, ODEProblem
from torchdyn.core.problems import MultipleShootingProblem
from torchdyn.models.cnf import CNF
from torchdyn.models.energy import HNN, ConservativeLinearSNF
from torchdyn.models.hybrid import HybridNeuralDE
from torchdyn.nn import Augmenter, DataControl, DepthCat, GalLinear
from torchdyn.nn.galerkin import Fourier, GaussianRBF
from torchdyn.numerics.solvers.hyper import HyperEuler
from torchdyn.numerics.solvers.ode import DormandPrince45, Midpoint, MSZero, RungeKutta4, Euler

F = core.Registry()
RULE = ("life cycles of 3-9 operations on up to four instances of one of 15 model kinds: forward passes, backward passes, training steps, parameter freezing, deep copies, pickling, "
        "torch.save, state dictionaries loaded into fresh instances, roll-backs to snapshots, dtype round trips, copies between forward and backward; oracle: a freshly "
        "built twin with the parameters tracked by the harness; non-trivial = a copy or reload followed by a training step")
ASSUMPTIONS = ["vector fields are picklable (module-level classes)"]
D = torch.float64


class Callable_:
    "a vector field that is no module and owns its parameters"
    def __init__(self, p):
        self.p = p

    def __call__(self, t, x):
        return torch.tanh(x @ self.p[0]) * self.p[1] + .1 * torch.cos(t)


class Hyper(nn.Module):
    def __init__(self, g, d):
        super().__init__()
        self.lin = Lin(d, d, g, True)

    def forward(self, t, x):
        return self.lin(x)


class Drift(nn.Module):
    def __init__(self, lin):
        super().__init__()
        self.lin = lin

    def forward(self, t, x):
        return self.lin(x)


class Wrap(nn.Module):
    "field with a buffer"
    def __init__(self, spec):
        super().__init__()
        self.f = FieldModule(spec, cap=10 ** 9)
        self.register_buffer("scale", torch.tensor(.7, dtype=D))

    def forward(self, t, x, args={}):
        return self.f(t, x) * self.scale


class Cell(nn.Module):
    def __init__(self, g, d):
        super().__init__()
        self.hidden_size, self.lin = d, Lin(2 * d, d, g, True)

    def forward(self, x, h):
        return self.lin(torch.cat([x, h], 1))


class Running(nn.Module):
    def __init__(self, g, d):
        super().__init__()
        self.lin = Lin(d, 1, g, True)

    def forward(self, t, x):
        return self.lin(x)


def build(kind, f, d, seed):
    "a fresh model and the function (model, x, t) -> output"
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    sol = lambda m, x, t: m(x, t)[1]
    adj = dict(solver=RungeKutta4(D), solver_adjoint=RungeKutta4(D))
    if kind == "ode":
        return NeuralODE(FieldModule(f, cap=10 ** 9), solver=RungeKutta4(D)), sol
    if kind == "buffer":
        return NeuralODE(Wrap(f), solver=Midpoint(D)), sol
    if kind == "adjoint":
        return NeuralODE(FieldModule(f, cap=10 ** 9), sensitivity="adjoint", **adj), sol
    if kind == "interp":
        return NeuralODE(FieldModule(f, cap=10 ** 9), sensitivity="interpolated_adjoint", **adj), sol
    if kind == "problem":
        return ODEProblem(FieldModule(f, cap=10 ** 9), **adj), sol
    if kind == "adaptive":
        return NeuralODE(FieldModule(f, cap=10 ** 9), solver="dopri5", sensitivity="adjoint", atol=1e-6, rtol=1e-6, solver_adjoint="tsit5"), sol
    if kind == "controlled":
        net = nn.Sequential(DataControl(), DepthCat(1), Lin(2 * d + 1, 3, g, True), DepthCat(1), Lin(4, d, g, False))
        return NeuralODE(net, solver=RungeKutta4(D)), sol
    if kind == "galerkin":
        l, r = GalLinear(d, d, expfunc=Fourier(2)), GalLinear(d, d, expfunc=GaussianRBF(3, adaptive=True))
        for m in (l, r):
            nn.init.normal_(m.coeffs, 0, .3)
        return NeuralODE(nn.Sequential(DepthCat(1), l, nn.Tanh(), DepthCat(1), r).double(), solver=RungeKutta4(D)), sol
    if kind == "cnf":
        return NeuralODE(CNF(c19.Net(f)), solver=Midpoint(D)), lambda m, x, t: m(torch.cat([x[:, :1], x], 1), t)[1]
    if kind == "energy":
        r = lambda *s: torch.randn(*s, generator=g, dtype=D).tolist()
        H = c20.Energy(dict(Q=r(d, d), b=r(d), w=r(2), C=r(2, d), e=r(2), col=False))
        return NeuralODE(ConservativeLinearSNF(H, c20.Inter(dict(K0=r(d, d), K1=r(d, d), v=r(d)))), solver=Midpoint(D)), sol
    if kind == "augmented":
        net = nn.Sequential(Lin(d + 2, 3, g, True), Lin(3, d + 2, g, False))
        return nn.Sequential(Augmenter(augment_func=Lin(d, 2, g, False)), NeuralODE(net, solver=RungeKutta4(D), return_t_eval=False)), lambda m, x, t: m(x)
    if kind == "callable":
        p = [nn.Parameter(torch.randn(d, d, generator=g, dtype=D)), nn.Parameter(torch.randn(d, generator=g, dtype=D))]
        return NeuralODE(Callable_(p), solver=RungeKutta4(D), optimizable_params=p), sol
    if kind == "callable_problem":
        p = [nn.Parameter(torch.randn(d, d, generator=g, dtype=D)), nn.Parameter(torch.randn(d, generator=g, dtype=D))]
        return ODEProblem(Callable_(p), sensitivity="adjoint", optimizable_params=iter(p), **adj), sol
    if kind == "hyper":
        return NeuralODE(Lin(d, d, g, True), solver=HyperEuler(Hyper(g, d), dtype=D)), sol
    if kind == "integral":
        return NeuralODE(FieldModule(f, cap=10 ** 9), solver=RungeKutta4(D), integral_loss=Running(g, d)), lambda m, x, t: m(torch.cat([0 * x[:, :1], x], 1), t)[1]
    if kind == "shooting":
        return MultipleShootingLayer(Lin(d, d, g, True), MSZero(Euler(D), RungeKutta4(D)), maxiter=1), lambda m, x, t: m(x, torch.linspace(float(t[0]), float(t[-1]), 4).to(x))[1]
    if kind == "sde":
        return NeuralSDE(Drift(Lin(d, d, g, True)), Drift(Lin(d, d, g, True)), solver="euler", bm=c18.Path((d,), seed)), lambda m, x, t: m(x, t.sort().values)[1]
    if kind == "second":
        return NeuralODE(Lin(2 * d, d, g, True), order=2, solver=RungeKutta4(D)), lambda m, x, t: m(torch.cat([x, .5 * x], 1), t)[1]
    if kind == "hybrid":
        return HybridNeuralDE(NeuralODE(Lin(d, d, g, True), solver=Midpoint(D), return_t_eval=False), Cell(g, d), Lin(d, 2, g, False)), None
    raise ValueError(kind)


def out_of(kind, fn, m, x, t):
    if kind == "hybrid":
        def flow(v):
            return v
        seq = torch.stack([x, x * .5 + 1, -x])
        inner = m.flow
        m.flow = Last(inner)
        try:
            return m(seq)
        finally:
            m.flow = inner
    return fn(m, x, t)


class Last(nn.Module):
    def __init__(self, m):
        super().__init__()
        self.m = m

    def forward(self, h):
        return self.m(h)[-1]


KINDS = ["ode", "buffer", "adjoint", "interp", "problem", "adaptive", "controlled", "galerkin", "cnf", "energy", "augmented", "callable", "callable_problem", "hyper", "integral",
         "shooting", "sde", "second", "hybrid"]
OPS = ["forward", "backward", "train", "train", "deepcopy", "pickle", "save", "state", "snapshot", "rollback", "floats", "between", "freeze"]


@st.composite
def case_life(draw):
    d = draw(st.integers(1, 2))
    ops = [dict(op=draw(st.sampled_from(OPS)), who=draw(st.integers(0, 3)), x=draw(gen.batch(d, -1, 1)), t=draw(gen.grid(nmin=2, nmax=3, hmin=.05, hmax=.3)), k=draw(st.integers(0, 9)))
           for _ in range(draw(st.integers(3, 8)))]
    return dict(kind=draw(st.sampled_from(KINDS)), d=d, f=draw(gen.field(d=d)), seed=draw(st.integers(0, 99)), ops=ops)


def clone_via(op, m, fresh):
    if op == "deepcopy":
        return copy.deepcopy(m)
    if op == "pickle":
        return pickle.loads(pickle.dumps(m))
    if op == "save":
        b = io.BytesIO()
        torch.save(m, b)
        b.seek(0)
        return torch.load(b, weights_only=False)
    n = fresh()
    b = io.BytesIO()
    torch.save(m.state_dict(), b)
    b.seek(0)
    missing = n.load_state_dict(torch.load(b, weights_only=True))
    assert not missing.missing_keys and not missing.unexpected_keys
    return n


@F.facet(case_life(), quick=420, thorough=8000, shards=4)
def life_cycles(case, ctx):
    "every instance behaves like a fresh model with the parameters it should have after its own history"
    kind, d = case["kind"], case["d"]

    def fresh():
        return build(kind, case["f"], d, case["seed"])[0]
    fn = build(kind, case["f"], d, case["seed"])[1]
    first = fresh()
    names = [n for n, _ in first.named_parameters()]
    start = {n: p.detach().clone() for n, p in first.named_parameters()}
    ctx.check(len(names) > 0, "no parameters")
    world = [dict(m=first, p={n: v.clone() for n, v in start.items()}, frozen=set(), snap=None, rough=False)]
    trained_after_copy = False

    def twin(w):
        m = fresh()
        with torch.no_grad():
            for n, p in m.named_parameters():
                p.copy_(w["p"][n])
        for n, p in m.named_parameters():
            p.requires_grad_(n not in w["frozen"])
        return m

    def params_ok(w, when):
        got = dict(w["m"].named_parameters())
        ctx.check(list(got) == names, f"{kind}: parameters {list(got)} after {when}, expected {names}")
        for n in names:
            ctx.check(got[n].dtype == w["p"][n].dtype, f"{kind}: {n} is {got[n].dtype} after {when}")
            ctx.close(got[n], w["p"][n], 1e-6 if w["rough"] else 1e-10, 1e-6 if w["rough"] else 1e-10, f"{kind}: parameter {n} after {when}")
            ctx.check(got[n].requires_grad == (n not in w["frozen"]), f"{kind}: requires_grad of {n} after {when}")

    def compare(w, x, t, when, grads):
        tol = 2e-5 if w["rough"] else 1e-9
        tw, xa, xb = twin(w), x.clone().requires_grad_(True), x.clone().requires_grad_(True)
        a, b = out_of(kind, fn, w["m"], xa, t), out_of(kind, fn, tw, xb, t)
        sc = 1 + float(b.detach().abs().max())
        ctx.check(a.dtype == b.dtype, f"{kind}: output of type {a.dtype} after {when}")
        ctx.close(a, b, tol, tol * sc, f"{kind}: output after {when}")
        if not grads:
            return None
        if kind == "interp":
            a, b = a[-1], b[-1]
        pa, pb = [p for p in w["m"].parameters() if p.requires_grad], [p for p in tw.parameters() if p.requires_grad]
        ga = torch.autograd.grad((a ** 2).sum(), [xa] + pa, allow_unused=True)
        gb = torch.autograd.grad((b ** 2).sum(), [xb] + pb, allow_unused=True)
        z = lambda g, ps: [torch.zeros_like(p) if v is None else v for v, p in zip(g, ps)]
        ga, gb = z(ga, [xa] + pa), z(gb, [xb] + pb)
        big = 1 + max(float(v.abs().max()) for v in gb)
        for n, u, v in zip(["x0"] + [n for n in names if n not in w["frozen"]], ga, gb):
            ctx.close(u, v, 0, 1e3 * tol * big, f"{kind}: gradient of {n} after {when}")
        return dict(zip([n for n in names if n not in w["frozen"]], gb[1:]))

    hist = []
    for o in case["ops"]:
        w = world[o["who"] % len(world)]
        op, x, t = o["op"], T(o["x"]), T(o["t"])
        hist.append(f"{op}@{world.index(w)}")
        when = " ".join(hist)
        if op == "forward":
            compare(w, x, t, when, False)
        elif op == "backward":
            compare(w, x, t, when, True)
        elif op == "train":
            g = compare(w, x, t, when, True)
            opt = torch.optim.SGD([p for p in w["m"].parameters()], lr=.02)
            opt.zero_grad()
            y = out_of(kind, fn, w["m"], x, t)
            y = y[-1] if kind == "interp" else y
            if y.requires_grad:
                (y ** 2).sum().backward()
            norm = 1 + max([float(v.abs().max()) for v in g.values()] + [0.])
            for p in w["m"].parameters():
                if p.grad is not None:
                    p.grad /= norm
            opt.step()
            opt.zero_grad(set_to_none=True)
            for n, v in g.items():
                w["p"][n] = w["p"][n] - .02 * v / norm
            w["rough"] = w["rough"] or kind == "adaptive"
            trained_after_copy = trained_after_copy or len(world) > 1
        elif op in ("deepcopy", "pickle", "save", "state"):
            if len(world) < 4:
                m = clone_via(op, w["m"], fresh)
                fz = set(w["frozen"]) if op != "state" else set()
                ctx.check(m is not w["m"] and type(m) is type(w["m"]), f"{kind}: {op} gives {type(m)}")
                ids = {p.data_ptr() for p in w["m"].parameters()}
                ctx.check(not any(p.data_ptr() in ids for p in m.parameters()), f"{kind}: {op} shares parameters with the original")
                world.append(dict(m=m, p={n: v.clone() for n, v in w["p"].items()}, frozen=fz, snap=None, rough=w["rough"]))
                compare(world[-1], x, t, when, True)
        elif op == "between":
            if len(world) < 4:
                xa = x.clone().requires_grad_(True)
                y = out_of(kind, fn, w["m"], xa, t)
                m = clone_via(["deepcopy", "pickle", "state"][o["k"] % 3], w["m"], fresh)
                fz = set(w["frozen"]) if o["k"] % 3 != 2 else set()
                y = y[-1] if kind == "interp" else y
                torch.autograd.grad((y ** 2).sum(), xa)
                world.append(dict(m=m, p={n: v.clone() for n, v in w["p"].items()}, frozen=fz, snap=None, rough=w["rough"]))
                compare(world[-1], x, t, when, True)
        elif op == "snapshot":
            w["snap"] = (copy.deepcopy(w["m"].state_dict()), {n: v.clone() for n, v in w["p"].items()}, w["rough"])
        elif op == "rollback":
            if w["snap"]:
                w["m"].load_state_dict(w["snap"][0])
                w["p"], w["rough"] = {n: v.clone() for n, v in w["snap"][1].items()}, w["snap"][2] or w.get("cast", False)
        elif op == "floats":
            if kind not in ("buffer", "sde", "shooting"):      # the tableaus of solvers in use lose digits in a round trip
                w["m"].float()
                y = out_of(kind, fn, w["m"], x.float(), t.float())
                ctx.check(y.dtype == torch.float32 and torch.isfinite(y).all(), f"{kind}: output of type {y.dtype} from a model in single precision")
                b = out_of(kind, fn, twin(w), x, t)
                if b.shape == y.shape:
                    ctx.close(y, b, 3e-3, 3e-3 * (1 + float(b.detach().abs().max())), f"{kind}: output in single precision")
                w["m"].double()
                w["p"], w["rough"] = {n: v.float().double() for n, v in w["p"].items()}, True
                w["cast"] = True        # the solver keeps its rounded coefficients, also after a rollback of the parameters
        elif op == "freeze":
            n = names[o["k"] % len(names)]
            p = dict(w["m"].named_parameters())[n]
            if len(w["frozen"] | {n}) < len(names):
                p.requires_grad_(n in w["frozen"])
                w["frozen"] ^= {n}
        for v in world:
            params_ok(v, when)
    x, t = T(case["ops"][0]["x"]), T(case["ops"][0]["t"])
    for v in world:
        compare(v, x, t, "the whole history " + " ".join(hist), True)
    ctx.nontrivial(trained_after_copy)
    ctx.label(kind, f"instances{len(world)}", *{o["op"] for o in case["ops"]})


@st.composite
def case_opt(draw):
    d = draw(st.integers(1, 2))
    return dict(d=d, x=draw(gen.batch(d, -1, 1)), t=draw(gen.grid(nmin=2, nmax=4, hmax=.3)), n=draw(st.integers(1, 3)), seed=draw(st.integers(0, 99)), cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])),
                sens=draw(st.sampled_from(["autograd", "adjoint", "interpolated_adjoint"])), how=draw(st.sampled_from(["list", "generator", "tuple"])), order=draw(st.booleans()))


class Weighted:
    def __init__(self, ps):
        self.ps = ps

    def __call__(self, t, x):
        y = x
        for p in self.ps:
            y = torch.tanh(y @ p)
        return y


@F.facet(case_opt(), quick=150, thorough=2500, shards=2)
def optimizable_parameters(case, ctx):
    "parameters registered for a plain callable are the model's parameters: in the state, in the order given, with gradients, and trained"
    g = torch.Generator().manual_seed(case["seed"])
    ps = [nn.Parameter(torch.randn(case["d"], case["d"], generator=g, dtype=D)) for _ in range(case["n"])]
    vf = Weighted(ps)
    given = {"list": list, "tuple": tuple, "generator": iter}[case["how"]](ps)
    m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(vf, solver=DormandPrince45(D), atol=1e-8, rtol=1e-8, sensitivity=case["sens"], solver_adjoint=DormandPrince45(D),
                                                               atol_adjoint=1e-8, rtol_adjoint=1e-8, optimizable_params=given)
    own = list(m.parameters())
    ctx.check(len(own) == len(ps) and all(a is b for a, b in zip(own, ps)), f"{len(own)} parameters of the model, {len(ps)} registered")
    sd = m.state_dict()
    ctx.check(len(sd) == len(ps) and all(torch.equal(a, b) for a, b in zip(sd.values(), ps)), f"state dictionary {list(sd)}")
    x, ts = T(case["x"]), T(case["t"])
    _, sol = m(x, ts)
    got = torch.autograd.grad((sol[-1] ** 2).sum(), own, allow_unused=True)
    qs = [p.detach().clone().requires_grad_(True) for p in ps]
    from vf.fields import fine_solve
    ref = fine_solve(Weighted(qs), x, ts, 20)[-1]
    want = torch.autograd.grad((ref ** 2).sum(), qs)
    sc = 1 + max(float(v.abs().max()) for v in want)
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check(a is not None, f"no gradient of registered parameter {i}")
        ctx.close(a, b, 0, (2e-3 if case["sens"] == "interpolated_adjoint" else 1e-4) * sc, f"gradient of registered parameter {i} ({case['sens']})")
    other = {k: v + 1 for k, v in sd.items()}
    m.load_state_dict(other)
    ctx.check(all(torch.equal(p, v) for p, v in zip(ps, other.values())), "loading a state does not reach the registered parameters")
    _, s2 = m(x, ts)
    ctx.close(s2[-1].detach(), fine_solve(Weighted([p.detach() for p in ps]), x, ts, 40)[-1], 0, 1e-5, "solution with loaded parameters")
    ctx.nontrivial()
    ctx.label(case["cls"], case["sens"], case["how"], f"n{case['n']}")

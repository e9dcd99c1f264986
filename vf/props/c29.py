"""C29 Neural SDEs compute what the functional SDE integrator computes"""
import torch
import torchsde
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, FieldModule, T, rtol
from vf.props.c18 import FORMS, NOISE, SCHEMES, Path, acts, form, textbook
from torchdyn.core import NeuralSDE
from torchdyn.core.defunc import SDEFunc
from torchdyn.nn.node_layers import DataControl
from torchdyn.numerics import sdeint

F = core.Registry()
RULE = ("random drift and diffusion as functions or modules with and without time, all schemes, noise types, grids, stored or given time spans, smooth paths with exactly "
        "known increments or torchsde Brownian intervals; non-trivial = diffusion acts and at least two steps")
ASSUMPTIONS = ["noise enters componentwise", "a Brownian path is given to the model", "forward time"]
D = torch.float64


@st.composite
def case_nsde(draw, nmax=6):
    d = draw(st.integers(1, 3))
    ff, gf = draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS))
    return dict(name=draw(st.sampled_from(list(SCHEMES))), f=draw(gen.field(d=d, time=False if ff in ("x", "mod_x") else None)), g=draw(gen.field(d=d, lip=.5, time=False if gf in ("x", "mod_x") else None)),
                ff=ff, gf=gf, x=draw(gen.state(d)), t=draw(gen.grid(nmin=2, nmax=nmax, reverse=False)), t2=draw(gen.grid(nmin=2, nmax=nmax, reverse=False)), seed=draw(st.integers(0, 999)), dtype=draw(gen.dtypes),
                noise=draw(st.sampled_from(NOISE)), stored=draw(st.sampled_from(["given", "stored", "none"])), save=draw(st.lists(st.integers(0, nmax - 1), max_size=3, unique=True)),
                te=draw(st.booleans()), interval=draw(st.booleans()))


def labels(ctx, case):
    ctx.label(case["name"], case["ff"], case["gf"], case["stored"], case["dtype"], "t_eval" if case["te"] else "states")


def mk(case, f, g, bm, t_span, te=None):
    typ = SCHEMES[case["name"]][0]
    return NeuralSDE(form(f, case["ff"]), form(g, case["gf"]), solver=case["name"], noise_type=case["noise"], sde_type=typ, t_span=t_span, bm=bm, return_t_eval=case["te"] if te is None else te)


@F.facet(case_nsde(), quick=500, thorough=9000, shards=2)
def values(case, ctx):
    "forward = textbook recurrence = sdeint, over the given, the stored or the unit time span; trajectory is the forward solution; save_at selects"
    dt = case["dtype"]
    f, g, x = Field(case["f"], dt), Field(case["g"], dt), T(case["x"], dt)
    given, stored = T(case["t"], dt), T(case["t2"], dt)
    bm = Path(x.shape, case["seed"], dt)
    model = mk(case, f, g, bm, None if case["stored"] == "none" else stored)
    ts = {"given": given, "stored": stored, "none": torch.linspace(0, 1, 2)}[case["stored"]]
    keep = x.clone()
    out = model(x, given) if case["stored"] == "given" else model(x)
    if case["te"]:
        ctx.check(isinstance(out, tuple) and len(out) == 2, "return_t_eval=True must return times and states")
        te, sol = out
        ctx.check([float(v) for v in te] == ts.tolist(), f"times {te} instead of {ts}")
    else:
        ctx.check(torch.is_tensor(out), "return_t_eval=False must return the states only")
        sol = out
    td = ts.double()
    inc = [bm.W(b) - bm.W(a) for a, b in zip(td, td[1:])]
    want = textbook(case["name"], Field(case["f"]), Field(case["g"]), x.double(), td, inc)
    # the unit time span is in single precision
    dt_ = "f32" if case["stored"] == "none" else dt
    k = 3 ** len(ts) * 10 if dt_ == "f32" else 100
    ctx.close(sol, want, rtol(dt_, k), rtol(dt_, k), f"textbook {case['name']}")
    ctx.check(sol.dtype == DT[dt], f"dtype {sol.dtype}")
    sde = SDEFunc(form(Field(case["f"], dt), case["ff"]), form(Field(case["g"], dt), case["gf"]), noise_type=case["noise"], sde_type=SCHEMES[case["name"]][0])
    ctx.check(torch.equal(sdeint(sde, x, ts, case["name"], bm)[1], sol), "differs from sdeint")
    tr = model.trajectory(x, given if case["stored"] == "given" else None)
    ctx.check(torch.is_tensor(tr) and torch.equal(tr, sol), "trajectory differs from forward")
    s = [i for i in case["save"] if i < len(ts)]
    if s:
        out = model(x, ts, save_at=[ts[i].item() for i in s])
        sub = out[1] if case["te"] else out
        ctx.check(torch.equal(sub, sol[s]), f"save_at {s} is no selection of the full solution")
    # the time span given to one call is not kept
    if case["stored"] != "none":
        again = model(x)
        want2 = sdeint(sde, x, stored, case["name"], bm)[1]
        ctx.check(torch.equal(again[1] if case["te"] else again, want2), "a call without time span does not use the stored one")
    ctx.check(torch.equal(x, keep), "the initial condition was modified")
    # time and noise of one call do not matter for the next: another path, then the first again
    model.bm = Path(x.shape, case["seed"] + 1, dt)
    b = model.trajectory(x, ts)
    model.bm = bm
    a = model.trajectory(x, ts)
    ctx.check(torch.equal(a, sol), "not reproducible on the same path")
    if acts(case) and case["stored"] == "given":
        ctx.check(not torch.equal(b, sol), "the solution does not depend on the path")
    ctx.nontrivial(acts(case))
    labels(ctx, case)


@F.facet(case_nsde(), quick=250, thorough=4000)
def gradients(case, ctx):
    "gradients w.r.t. the initial condition and the parameters of drift and diffusion are those of the textbook recurrence"
    f, g, x, ts = FieldModule(case["f"]), FieldModule(case["g"]), T(case["x"]).requires_grad_(), T(case["t"])
    bm = Path(x.shape, case["seed"])
    model = mk({**case, "ff": "mod_tx", "gf": "mod_tx"}, f, g, bm, ts, te=False)
    w = torch.linspace(-1, 1.3, len(ts) * x.numel(), dtype=D).reshape(len(ts), *x.shape)
    # modules given directly
    direct = NeuralSDE(f, g, solver=case["name"], noise_type=case["noise"], sde_type=SCHEMES[case["name"]][0], t_span=ts, bm=bm, return_t_eval=False)
    ids = {id(p) for p in direct.parameters()}
    ps = list(f.parameters()) + list(g.parameters())
    ctx.check(all(id(p) in ids for p in ps), "parameters of drift and diffusion are not parameters of the model")
    inc = [bm.W(b) - bm.W(a) for a, b in zip(ts, ts[1:])]
    want = torch.autograd.grad((w * textbook(case["name"], f, g, x, ts, inc)).sum(), [x] + ps, allow_unused=True)
    for m, what in ((direct, "modules"), (model, "wrapped modules")):
        got = torch.autograd.grad((w * m(x)).sum(), [x] + ps, allow_unused=True)
        for i, (a, b) in enumerate(zip(got, want)):
            z = torch.zeros_like(([x] + ps)[i])
            ctx.close(z if a is None else a, z if b is None else b, 1e-8, 1e-8, f"gradient {i} ({what})")
    ctx.nontrivial(acts(case))
    labels(ctx, case)


@F.facet(case_nsde(), quick=120, thorough=2000)
def brownian_interval(case, ctx):
    "with a torchsde Brownian interval: recurrence with its increments, equal for equally seeded intervals"
    x, ts = T(case["x"]), T(case["t"])
    f, g = Field(case["f"]), Field(case["g"])

    def path():
        return torchsde.BrownianInterval(t0=case["t"][0], t1=case["t"][-1], size=tuple(x.shape), dtype=D, entropy=case["seed"])
    bm = path()
    sol = mk(case, f, g, bm, ts, te=False)(x)
    inc = [bm(a, b) for a, b in zip(ts, ts[1:])]
    ctx.close(sol, textbook(case["name"], f, g, x, ts, inc), 1e-7, 1e-7, f"{case['name']} along a Brownian interval")
    ctx.close(mk(case, f, g, path(), ts, te=False)(x), sol, 1e-7, 1e-7, "equally seeded interval")
    ctx.nontrivial(acts(case))
    labels(ctx, case)


@st.composite
def case_ctl(draw):
    d, b = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(name=draw(st.sampled_from(list(SCHEMES))), A=draw(gen.mat(2 * d, d, -1, 1)), B=draw(gen.mat(2 * d if draw(st.booleans()) else d, d, -.4, .4)), x=draw(gen.mat(b, d, -2, 2)), x2=draw(gen.mat(b, d, -2, 2)),
                t=draw(gen.grid(nmin=2, nmax=5, reverse=False)), seed=draw(st.integers(0, 999)))


class Mat(torch.nn.Module):
    def __init__(self, A):
        super().__init__()
        self.A = torch.nn.Parameter(T(A))

    def forward(self, x):
        return torch.tanh(x @ self.A)


@F.facet(case_ctl(), quick=150, thorough=2500)
def data_control(case, ctx):
    "data-controlled drift and diffusion see the initial condition of the current call"
    ts, A, B = T(case["t"]), T(case["A"]), T(case["B"])
    d = A.shape[1]
    gc = B.shape[0] == 2 * d
    drift = torch.nn.Sequential(DataControl(), Mat(case["A"]))
    diff = torch.nn.Sequential(DataControl(), Mat(case["B"])) if gc else Mat(case["B"])
    x = T(case["x"])
    bm = Path(x.shape, case["seed"])
    model = NeuralSDE(drift, diff, solver=case["name"], sde_type=SCHEMES[case["name"]][0], bm=bm, return_t_eval=False, t_span=ts)
    for x in (T(case["x"]), T(case["x2"]), T(case["x"])):
        def f(t, y):
            return torch.tanh(torch.cat([y, x], 1) @ A)

        def g(t, y):
            return torch.tanh((torch.cat([y, x], 1) if gc else y) @ B)
        inc = [bm.W(b) - bm.W(a) for a, b in zip(ts, ts[1:])]
        for how in ("forward", "trajectory"):
            sol = model(x) if how == "forward" else model.trajectory(x, ts)
            ctx.close(sol, textbook(case["name"], f, g, x, ts, inc), 1e-8, 1e-8, f"{how} with data control")
    ctx.nontrivial(len(ts) > 2 and float((T(case["x"]) - T(case["x2"])).abs().max()) > .1)
    ctx.label(case["name"], "diffusion controlled" if gc else "drift controlled")


@F.facet(case_nsde(), quick=100, thorough=500)
def refusals(case, ctx):
    "order above one, other calculus, unknown noise and adjoint sensitivities are refused"
    f, g, x, ts = Field(case["f"]), Field(case["g"]), T(case["x"]), T(case["t"])
    bm, typ = Path(x.shape, case["seed"]), SCHEMES[case["name"]][0]
    try:
        NeuralSDE(f, g, order=2 + case["seed"] % 3, solver=case["name"], bm=bm)
    except NotImplementedError:
        pass
    else:
        ctx.fail("an order above one was accepted")
    wrong = "stratonovich" if typ == "ito" else "ito"
    for kw, exc in ((dict(sde_type=wrong, noise_type=case["noise"]), ValueError), (dict(sde_type=typ, noise_type="colored"), ValueError), (dict(sde_type=typ, noise_type=case["noise"], sensitivity="adjoint"), NotImplementedError)):
        m = NeuralSDE(f, g, solver=case["name"], bm=bm, **kw)
        try:
            m(x, ts)
        except exc:
            continue
        ctx.fail(f"{case['name']} accepted {kw}")
    ctx.nontrivial()
    labels(ctx, case)

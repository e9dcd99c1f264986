"""C18 SDE solvers follow their textbook schemes along the given Brownian path"""
import math
import torch
import torchsde
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, T, moves, rk_solve, rtol
from torchdyn.core.defunc import SDEFunc
from torchdyn.numerics import odeint, sdeint
from torchdyn.numerics.solvers.sde import EulerHeun, EulerMaruyama, MilesteinIto, MilesteinStratonovich, sde_str_to_solver

F = core.Registry()
RULE = ("random drift and componentwise diffusion (linear, neural, time-dependent), batches, random forward grids, every scheme by name or object, SDE given as wrapped "
        "functions or as an object with f and g, smooth random paths whose increments are known exactly and torchsde Brownian intervals; non-trivial = diffusion "
        "acts and at least two steps")
ASSUMPTIONS = ["noise enters componentwise (diagonal, scalar or additive); matrix-valued diffusion is outside what the solvers multiply", "forward time: Brownian paths are queried forward"]
D = torch.float64
SCHEMES = {"euler": ("ito", EulerMaruyama), "eulerHeun": ("stratonovich", EulerHeun), "milstein_ito": ("ito", MilesteinIto), "milstein_stratonovich": ("stratonovich", MilesteinStratonovich)}
NOISE = ["diagonal", "scalar", "additive", "general"]


class Path:
    "deterministic smooth path W(t); bm(s, t) = W(t) - W(s). Queries are logged"
    def __init__(self, shape, seed, dtype="f64"):
        g = torch.Generator().manual_seed(seed)
        self.a, self.w, self.p = (torch.rand(3, *shape, generator=g, dtype=D) * s + o for s, o in ((2, -1), (6, .5), (3, 0)))
        self.dtype, self.log = DT[dtype], []

    def W(self, t):
        return (self.a * torch.sin(self.w * float(t) + self.p)).sum(0)

    def __call__(self, s, t):
        self.log.append((float(s), float(t)))
        return (self.W(t) - self.W(s)).to(self.dtype)


def textbook(name, f, g, x, ts, inc):
    out = [x]
    for i in range(len(ts) - 1):
        t, h, y, w = ts[i], ts[i + 1] - ts[i], out[-1], inc[i]
        if name == "euler":
            z = y + h * f(t, y) + g(t, y) * w
        elif name == "eulerHeun":
            p = y + g(t, y) * w
            z = y + h * f(t, y) + (g(t, y) + g(t + h, p)) / 2 * w
        else:
            s = h.sqrt()
            p = y + h * f(t, y) + s * g(t, y)
            v = w * w - h if name == "milstein_ito" else w * w
            z = y + h * f(t, y) + g(t, y) * w + (g(t, p) - g(t, y)) / (2 * s) * v
        out.append(z)
    return torch.stack(out)


class Obj:
    "any object with f, g, noise_type and sde_type"
    def __init__(self, f, g, sde_type, noise):
        self.ff, self.gg, self.sde_type, self.noise_type = f, g, sde_type, noise

    def f(self, t, x):
        return self.ff(t, x)

    def g(self, t, x):
        return self.gg(t, x)


class Mod(torch.nn.Module):
    def __init__(self, f, time):
        super().__init__()
        self.fn, self.time = f, time
        self.lin = torch.nn.Linear(1, 1)

    def forward(self, t, x):
        return self.fn(t, x)


class ModX(torch.nn.Module):
    def __init__(self, f):
        super().__init__()
        self.fn = f

    def forward(self, x):
        return self.fn(torch.zeros((), dtype=x.dtype), x)


FORMS = ["tx", "x", "mod_tx", "mod_x"]


def form(fn, kind):
    if kind == "tx":
        return lambda t, x: fn(t, x)
    if kind == "x":
        return lambda x: fn(torch.zeros((), dtype=x.dtype), x)
    return Mod(fn, True) if kind == "mod_tx" else ModX(fn)


@st.composite
def case_sde(draw, nmax=7):
    d = draw(st.integers(1, 3))
    name = draw(st.sampled_from(list(SCHEMES)))
    ff, gf = draw(st.sampled_from(FORMS)), draw(st.sampled_from(FORMS))
    return dict(name=name, f=draw(gen.field(d=d, time=False if ff.endswith("_x") or ff == "x" else None)), g=draw(gen.field(d=d, lip=.5, time=False if gf.endswith("_x") or gf == "x" else None)),
                ff=ff, gf=gf, x=draw(gen.state(d)), t=draw(gen.grid(nmin=2, nmax=nmax, reverse=False)), seed=draw(st.integers(0, 999)), dtype=draw(gen.dtypes),
                how=draw(st.sampled_from(["name", "name", "class", "str"])), wrap=draw(st.sampled_from(["func", "func", "object"])), noise=draw(st.sampled_from(NOISE)),
                save=draw(st.lists(st.integers(0, nmax - 1), max_size=3, unique=True)), tl=draw(st.sampled_from(["tensor", "tensor", "list"])))


def make(case, f, g, bm):
    "(sde, solver)"
    typ, cls = SCHEMES[case["name"]]
    if case["wrap"] == "object":
        sde = Obj(f, g, typ, case["noise"])
    else:
        sde = SDEFunc(form(f, case["ff"]), form(g, case["gf"]), noise_type=case["noise"], sde_type=typ)
    inner = sde if case["wrap"] == "func" else SDEFunc(f, g, noise_type=case["noise"], sde_type=typ)
    dt = DT[case["dtype"]]
    return sde, {"name": lambda: case["name"], "class": lambda: cls(inner, bm, dt), "str": lambda: sde_str_to_solver(case["name"], inner, bm, dt)}[case["how"]]()


def span(case):
    ts = T(case["t"], case["dtype"])
    return list(ts) if case["tl"] == "list" else ts


def labels(ctx, case):
    ctx.label(case["name"], case["how"], case["wrap"], case["noise"], case["dtype"])


def acts(case):
    return moves(case["g"], case["x"]) and len(case["t"]) > 2


@F.facet(case_sde(), quick=700, thorough=12000, shards=2)
def textbook_scheme(case, ctx):
    "every returned state is the textbook recurrence with the increments of the path over exactly the grid intervals"
    f, g, x, ts = Field(case["f"], case["dtype"]), Field(case["g"], case["dtype"]), T(case["x"], case["dtype"]), T(case["t"], case["dtype"])
    bm, keep = Path(x.shape, case["seed"], case["dtype"]), x.clone()
    sde, solver = make(case, f, g, bm)
    te, sol = sdeint(sde, x, span(case), solver, bm)
    td = ts.double()
    inc = [bm.W(b) - bm.W(a) for a, b in zip(td, td[1:])]
    want = textbook(case["name"], Field(case["f"]), Field(case["g"]), x.double(), td, inc)
    ctx.check([float(v) for v in te] == ts.tolist(), "times differ from the requested ones")
    k = 3 ** len(ts) * 10 if case["dtype"] == "f32" else 100
    ctx.close(sol, want, rtol(case["dtype"], k), rtol(case["dtype"], k), f"{case['name']} on {case['t']}")
    ctx.check(sol.dtype == DT[case["dtype"]], f"dtype {sol.dtype}")
    eps = 1e-9 if case["dtype"] == "f64" else 1e-5
    grid = list(zip(td.tolist(), td.tolist()[1:]))
    for q in bm.log:
        ctx.check(any(abs(q[0] - a) < eps and abs(q[1] - b) < eps for a, b in grid), f"the path was queried over {q}, which is no interval of the grid {td.tolist()}")
    for a, b in grid:
        ctx.check(any(abs(q[0] - a) < eps and abs(q[1] - b) < eps for q in bm.log), f"the path was never queried over {(a, b)}")
    ctx.check(torch.equal(keep, x), "the initial condition was modified")
    ctx.nontrivial(acts(case))
    labels(ctx, case)


@F.facet(case_sde(), quick=250, thorough=4000)
def save_points(case, ctx):
    "save_at selects the states of the full solution in the order given; values that are no grid times are refused"
    x, ts = T(case["x"], case["dtype"]), T(case["t"], case["dtype"])
    bm = Path(x.shape, case["seed"], case["dtype"])
    sde, solver = make(case, Field(case["f"], case["dtype"]), Field(case["g"], case["dtype"]), bm)
    te, sol = sdeint(sde, x, span(case), solver, bm)
    s = [i for i in case["save"] if i < len(ts)]
    if s:
        at = [ts[i].item() for i in s] if case["seed"] % 2 else ts[s]
        tb, sub = sdeint(sde, x, span(case), solver, bm, save_at=at)
        ctx.check(len(tb) == len(s) and max(abs(float(u) - float(v)) for u, v in zip(tb, ts[s])) < (1e-6 * (1 + float(ts.abs().max())) if case["seed"] % 2 else 1e-12), f"times {tb.tolist()} for save_at {ts[s].tolist()}")
        ctx.check(torch.equal(sub, sol[s]), f"states at save_at {s} differ from those of the full solution")
    mid = float((ts[0] + ts[1]) / 2)
    try:
        sdeint(sde, x, span(case), solver, bm, save_at=[mid])
    except (AssertionError, ValueError, RuntimeError):
        pass
    else:
        ctx.fail(f"save_at {mid}, which is not in the time span {case['t']}, was accepted")
    ctx.nontrivial(bool(s) and s != sorted(s) or len(s) == 1)
    labels(ctx, case)


@F.facet(case_sde(), quick=250, thorough=4000)
def special_noise(case, ctx):
    "no diffusion: Euler's method for all schemes; constant diffusion: all schemes add diffusion times increment"
    x, ts = T(case["x"]), T(case["t"])
    case = {**case, "dtype": "f64"}
    f, bm = Field(case["f"]), Path(x.shape, case["seed"])
    const = T(case["g"]["b"])
    zero = case["seed"] % 2 == 0

    def g(t, y):
        return torch.zeros_like(y) if zero else const.expand_as(y)
    sde, solver = make(case, f, g, bm)
    _, sol = sdeint(sde, x, ts, solver, bm)
    if zero:
        want = rk_solve("euler", f, x, ts)
        ctx.close(odeint(f, x, ts, "euler")[1], want, 1e-9, 1e-9, "odeint with Euler's method")
    else:
        y = x
        want = [x]
        for a, b in zip(ts, ts[1:]):
            y = y + (b - a) * f(a, y) + const * (bm.W(b) - bm.W(a))
            want.append(y)
        want = torch.stack(want)
    ctx.close(sol, want, 1e-9, 1e-9, f"{case['name']} with {'no' if zero else 'constant'} diffusion")
    ctx.nontrivial(len(ts) > 2 and (zero or float(const.abs().max()) > 1e-3))
    labels(ctx, case)
    ctx.label("zero" if zero else "additive")


@F.facet(case_sde(), quick=150, thorough=2500)
def brownian_interval(case, ctx):
    "with torchsde Brownian intervals: textbook recurrence, reproducible for the same path and for an equally seeded one"
    case = {**case, "dtype": "f64", "how": "name"}
    x, ts = T(case["x"]), T(case["t"])
    f, g = Field(case["f"]), Field(case["g"])

    def path():
        return torchsde.BrownianInterval(t0=case["t"][0], t1=case["t"][-1], size=tuple(x.shape), dtype=D, entropy=case["seed"])
    bm = path()
    sde, solver = make(case, f, g, bm)
    sol = sdeint(sde, x, ts, solver, bm)[1]
    again = sdeint(sde, x, ts, solver, bm)[1]
    ctx.close(again, sol, 1e-9, 1e-9, "second integration along the same path")
    other = path()
    sol2 = sdeint(sde, x, ts, solver, other)[1]
    ctx.close(sol2, sol, 1e-7, 1e-7, "integration along an equally seeded path")
    inc = [bm(a, b) for a, b in zip(ts, ts[1:])]
    ctx.close(sol, textbook(case["name"], f, g, x, ts, inc), 1e-7, 1e-7, f"{case['name']} along a Brownian interval")
    ctx.nontrivial(acts(case))
    labels(ctx, case)


@F.facet(case_sde(), quick=120, thorough=600)
def refusal(case, ctx):
    "a scheme of the other calculus or with an unknown noise type is refused"
    x = T(case["x"])
    bm = Path(x.shape, case["seed"])
    typ, cls = SCHEMES[case["name"]]
    wrong = "stratonovich" if typ == "ito" else "ito"
    for st_, nt in ((wrong, case["noise"]), (typ, "unknown"), (wrong, "unknown")):
        sde = SDEFunc(Field(case["f"]), Field(case["g"]), noise_type=nt, sde_type=st_) if case["wrap"] == "func" else Obj(Field(case["f"]), Field(case["g"]), st_, nt)
        try:
            if case["how"] == "name" or case["wrap"] == "object":
                sdeint(sde, x, T(case["t"]), case["name"], bm)
            else:
                cls(sde, bm)
        except ValueError:
            continue
        ctx.fail(f"{case['name']} accepted an SDE of type {st_} with {nt} noise")
    ctx.nontrivial()
    labels(ctx, case)


@st.composite
def case_gbm(draw):
    return dict(name=draw(st.sampled_from(list(SCHEMES))), a=draw(gen.num(-1, 1)), b=draw(gen.pos(.1, .8)), x=draw(gen.pos(.5, 2)), seed=draw(st.integers(0, 10 ** 6)), T=draw(gen.pos(.5, 1.)))


@F.facet(case_gbm(), quick=40, thorough=600)
def geometric_motion(case, ctx):
    "geometric Brownian motion: the solutions converge to the closed form of the respective calculus along the path"
    a, b, x0, n = case["a"], case["b"], case["x"], 512
    typ = SCHEMES[case["name"]][0]
    paths = 64
    ts = torch.linspace(0, case["T"], n + 1, dtype=D)
    gg = torch.Generator().manual_seed(case["seed"])
    dw = torch.randn(n, paths, 1, generator=gg, dtype=D) * (ts[1] - ts[0]).sqrt()
    W = torch.cat([torch.zeros(1, paths, 1, dtype=D), dw.cumsum(0)])

    def bm(s, t):
        i, j = int(round(float(s) / case["T"] * n)), int(round(float(t) / case["T"] * n))
        return W[j] - W[i]
    sde = SDEFunc(lambda t, x: a * x, lambda t, x: b * x, noise_type="diagonal", sde_type=typ)
    exact = x0 * torch.exp((a - (b * b / 2 if typ == "ito" else 0)) * case["T"] + b * W[-1])
    errs = []
    for k in (8, 1):
        sol = sdeint(sde, torch.full((paths, 1), x0, dtype=D), ts[::k], case["name"], bm)[1][-1]
        errs.append(float(((sol - exact) ** 2).mean().sqrt()))
    scale = float((exact ** 2).mean().sqrt())
    ctx.check(errs[1] < .06 * scale, f"root mean square error {errs[1]} with {n} steps (scale {scale})")
    # strong orders 1/2 (Euler) and 1: ratio of the errors with step ratio 8
    want = 1.5 if case["name"] == "euler" else 3.
    ctx.check(errs[1] < errs[0] / want + 2e-3 * scale, f"errors {errs}: less than the strong order of {case['name']}")
    ctx.nontrivial(b > .2)
    ctx.label(case["name"])

"""C02 fixed-step methods compute the textbook recurrence on the requested grid"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.core import Inconclusive
from vf.fields import DT, Field, T, TABLEAU, moves, rk_solve, rk_step, spec_time
from vf.solvers import UserHeun3
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import Euler, ImplicitEuler, Midpoint, RungeKutta4

F = core.Registry()
RULE = ("random field (60% time-dependent), state, monotone grid (mostly non-uniform), fixed-step method by name, alias or object; "
        "non-trivial = the field moves the state and the grid has >= 3 points or is irregular")
ASSUMPTIONS = ["implicit Euler is compared on steps where h times the Lipschitz constant is below 0.5 (unique solution), to the optimiser's accuracy"]
NAMES = {"euler": "euler", "midpoint": "midpoint", "rk4": "rk4", "rk-4": "rk4", "RungeKutta4": "rk4", "user": "heun3"}
CLS = {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4, "heun3": UserHeun3}


def tol(dtype, obj=False):
    # solver objects can be built for float32 and used in float64: coefficients are rounded to single precision
    return 2e-5 if dtype == "f32" else (1e-6 if obj else 1e-10)


@st.composite
def case(draw):
    f = draw(gen.field(time=draw(st.sampled_from([True, True, None]))))
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.grid(nmin=2, nmax=8)), dtype=draw(gen.dtypes),
                solver=draw(st.sampled_from(["rk4", "midpoint", "euler", "user", "rk-4", "RungeKutta4"])),
                obj=draw(st.sampled_from(["name", "name", "object", "default-object"])))


def build(c):
    name = NAMES[c["solver"]]
    if c["solver"] == "user" or c["obj"] == "object":
        return CLS[name](dtype=DT[c["dtype"]]), False
    if c["obj"] == "default-object":
        return CLS[name](), c["dtype"] == "f64"
    return c["solver"], False


@F.facet(case(), quick=1500, thorough=20000, shards=3)
def recurrence(case, ctx):
    dt = DT[case["dtype"]]
    f, x, ts = Field(case["f"], dt), T(case["x"], dt), T(case["t"], dt)
    s, loose = build(case)
    _, sol = odeint(f, x, ts, s)
    want = rk_solve(NAMES[case["solver"]], Field(case["f"], dt), x, ts)
    ctx.close(sol, want, tol(case["dtype"], loose), tol(case["dtype"], loose), f"{case['solver']} solution on grid {case['t']}")
    ctx.nontrivial(moves(case["f"], case["x"]) and len(ts) > 2)
    ctx.label(case["solver"], case["dtype"], "time" if spec_time(case["f"]) else "autonomous", "rev" if case["t"][-1] < case["t"][0] else "fwd")


@st.composite
def case_step(draw):
    f = draw(gen.field(time=draw(st.sampled_from([True, True, None]))))
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.num(-3, 3)), h=draw(gen.num(-1, 1)), dtype=draw(gen.dtypes),
                solver=draw(st.sampled_from(["euler", "midpoint", "rk4"])), k1=draw(st.booleans()), tshape=draw(st.booleans()))


@F.facet(case_step(), quick=600, thorough=10000)
def single_step(case, ctx):
    "one call of the stepping rule, with the first stage supplied or not, times as scalars or one-element tensors"
    dt = DT[case["dtype"]]
    f, x = Field(case["f"], dt), T(case["x"], dt)
    t, h = T(case["t"], dt), T(case["h"], dt)
    if case["tshape"]:
        t, h = t.reshape(1), h.reshape(1)
    s = CLS[case["solver"]](dtype=dt)
    s.sync_device_dtype(x, torch.linspace(0, 1, 2))
    before = x.clone()
    k1 = f(t, x) if case["k1"] else None
    n0 = f.n
    out = s.step(f, x, t, h, k1=k1)
    ctx.check(len(out) >= 2, "stepping rule does not return (stage, solution, error)")
    want = rk_step(case["solver"], Field(case["f"], dt), t, x, h)
    ctx.close(out[1], want, tol(case["dtype"]), tol(case["dtype"]), f"one {case['solver']} step")
    ctx.check(torch.equal(x, before), "the stepping rule modified the state it was given")
    stages = {"euler": 1, "midpoint": 2, "rk4": 4}[case["solver"]]
    ctx.check(f.n - n0 <= stages - int(case["k1"]), lambda: f"{f.n - n0} field evaluations in a {stages}-stage step")
    ctx.nontrivial(moves(case["f"], case["x"]) and case["h"] != 0)
    ctx.label(case["solver"], f"k1={case['k1']}")


@st.composite
def case_split(draw):
    f = draw(gen.field())
    t = draw(gen.grid(nmin=3, nmax=8))
    return dict(f=f, x=draw(gen.state(f["d"])), t=t, k=draw(st.integers(1, len(t) - 2)), dtype="f64",
                solver=draw(st.sampled_from(["euler", "midpoint", "rk4", "user"])))


@F.facet(case_split(), quick=300, thorough=5000)
def two_pieces(case, ctx):
    "integrating to an intermediate time and on from there equals integrating at once"
    f, x, ts, k = Field(case["f"]), T(case["x"]), T(case["t"]), case["k"]
    mk = (lambda: UserHeun3(torch.float64)) if case["solver"] == "user" else (lambda: case["solver"])
    _, full = odeint(f, x, ts, mk())
    _, a = odeint(f, x, ts[:k + 1], mk())
    _, b = odeint(f, a[-1], ts[k:], mk())
    ctx.close(a, full[:k + 1], 1e-12, 1e-12, "first piece")
    ctx.close(b, full[k:], 1e-12, 1e-12, "second piece")
    ctx.nontrivial(moves(case["f"], case["x"]))


@st.composite
def case_ie(draw):
    f = draw(gen.field(lip=0.5, hidden=1))
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.grid(nmax=4, hmax=0.25)), solver=draw(st.sampled_from(["ieuler", "implicit_euler"])))


@F.facet(case_ie(), quick=160, thorough=3000, shards=2)
def implicit_euler(case, ctx):
    f, x, ts = Field(case["f"], cap=10**6), T(case["x"]), T(case["t"])
    te, sol = odeint(f, x, ts, case["solver"])
    ref, g = [x], Field(case["f"])
    for i in range(len(ts) - 1):
        h, y = ts[i + 1] - ts[i], ref[-1]
        for _ in range(200):
            yn = ref[-1] + h * g(ts[i + 1], y)
            done, y = (yn - y).abs().max() < 1e-14, yn
            if done:
                break
        else:
            raise Inconclusive("fixed point iteration did not converge")
        ref.append(y)
    ctx.close(sol, torch.stack(ref), 2e-5, 2e-5, "implicit Euler solution")
    ctx.check(te.tolist() == ts.tolist(), "implicit Euler evaluation times")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label("time" if spec_time(case["f"]) else "autonomous")


@st.composite
def case_ie_stiff(draw):
    d = draw(st.integers(2, 8))
    return dict(d=d, lam=draw(st.lists(st.sampled_from([.5, 1., 3., 8., 20., 40.]), min_size=d, max_size=d)), Q=draw(gen.mat(d, d, -1, 1)), c=draw(gen.vec(d, -1, 1)), x=draw(gen.batch(d, bmax=3)),
                t=draw(gen.grid(nmin=2, nmax=4, hmax=0.5)), k=draw(st.sampled_from([0., 0., .5])), solver=draw(st.sampled_from(["ieuler", "implicit_euler"])))


@F.facet(case_ie_stiff(), quick=160, thorough=3000)
def implicit_euler_stiff(case, ctx):
    "implicit Euler on stiff linear systems with forcing: the solution of the implicit equation (linear solve)"
    Q, _ = torch.linalg.qr(T(case["Q"]) + 1.5 * torch.eye(case["d"], dtype=torch.float64))
    sgn = -1 if case["t"][-1] < case["t"][0] else 1                # dissipative in the direction of integration
    A = -sgn * Q @ torch.diag(torch.tensor(case["lam"], dtype=torch.float64)) @ Q.T
    c, x, ts = T(case["c"]), T(case["x"]), T(case["t"])
    force = lambda t: c * torch.cos(case["k"] * t)
    sol = odeint(lambda t, y: y @ A.T + force(t), x, ts, case["solver"])[1]
    ref = [x]
    for i in range(len(ts) - 1):
        h = ts[i + 1] - ts[i]
        ref.append(torch.linalg.solve(torch.eye(case["d"], dtype=torch.float64) - h * A, (ref[-1] + h * force(ts[i + 1])).T).T)
    ctx.close(sol, torch.stack(ref), 2e-4, 2e-4, "implicit Euler solution of a stiff linear system")
    ctx.nontrivial(max(case["lam"]) > 2 * min(case["lam"]))
    ctx.label(f"d{case['d']}", "stiff" if max(case["lam"]) >= 20 else "mild")


@st.composite
def case_calls(draw):
    return dict(t=draw(gen.grid(nmax=8)), x=draw(gen.vec(2, -1, 1)), dtype=draw(gen.dtypes))


@F.facet(case_calls(), quick=200, thorough=3000)
def user_rule_calls(case, ctx):
    "a user-defined stepping rule is called once per interval, with its start and its length"
    dt = DT[case["dtype"]]
    s, ts = UserHeun3(dt), T(case["t"], dt)
    odeint(lambda t, x: -x, T(case["x"], dt), ts, s)
    sg = -1 if case["t"][-1] < case["t"][0] else 1
    want = [(float(sg * ts[i]), float(sg * (ts[i + 1] - ts[i]))) for i in range(len(ts) - 1)]
    ctx.check(len(s.calls) == len(want), lambda: f"{len(s.calls)} steps for {len(want)} intervals")
    eps = 1e-5 if case["dtype"] == "f32" else 1e-12
    ctx.check(all(abs(a - c) < eps and abs(b - d) < eps for (a, b), (c, d) in zip(s.calls, want)),
              lambda: f"steps {s.calls} instead of {want}")
    ctx.nontrivial(len(ts) > 2)

"""C05 interpolated output during adaptive integration and dense output of stored points"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, T, moves, scipy_solve
from torchdyn.numerics import odeint
from torchdyn.numerics.interpolators import str_to_interp
from torchdyn.numerics.utils import dense_output
from vf.props.c04 import ALL, TreeField, gamma, tolist

F = core.Registry()
RULE = ("random field, state, tolerance and two nested request grids; non-trivial = at least two interpolated (not step-end) requests; "
        "random polynomials / stored trajectories for the interpolants themselves")
ASSUMPTIONS = ["interpolation is available for dopri5 only; its order is four, so the bound on intermediate values is a multiple of the tolerance"]


@st.composite
def case_req(draw):
    f = draw(gen.field(lip=1.))
    t0, L = draw(gen.num(-2, 2)), draw(gen.pos(0.5, 4.))
    fr = sorted(set(draw(st.lists(st.integers(1, 99), min_size=1, max_size=12))))
    sub = draw(st.lists(st.booleans(), min_size=len(fr), max_size=len(fr)))
    return dict(f=f, x=draw(gen.state(f["d"])), t0=t0, L=L, fr=fr, sub=sub, l=draw(st.sampled_from([-3, -4, -6, -8])),
                rev=draw(st.booleans()), dtype=draw(st.sampled_from(["f64", "f64", "f64", "f32"])))


def grid(case, keep):
    dt = DT[case["dtype"]]
    t = [case["t0"]] + [case["t0"] + case["L"] * k / 100 for k, s in zip(case["fr"], keep) if s] + [case["t0"] + case["L"]]
    if case["rev"]:
        t = t[::-1]
    return torch.tensor(t, dtype=dt)


@F.facet(case_req(), quick=900, thorough=12000, shards=4)
def requests(case, ctx):
    "adding requests changes neither the steps nor the other values; all values are accurate; evaluations do not grow"
    dt = DT[case["dtype"]]
    l = max(case["l"], -4) if case["dtype"] == "f32" else case["l"]
    tol = 10. ** l
    x = T(case["x"], dt)
    full, few, ends = grid(case, [True] * len(case["fr"])), grid(case, case["sub"]), grid(case, [False] * len(case["fr"]))
    r = {}
    for nm, ts in (("full", full), ("few", few), ("ends", ends)):
        g = Field(case["f"], dt)
        te, sol = odeint(g, x, ts, "dopri5", atol=tol, rtol=tol, interpolator="4th")
        ctx.check(te.tolist() == ts.tolist(), lambda: f"evaluation times {te.tolist()} instead of {ts.tolist()}")
        r[nm] = (sol, g.n)
    d = {v: i for i, v in enumerate(full.tolist())}
    for nm, ts in (("few", few), ("ends", ends)):
        idx = [d[v] for v in ts.tolist()]
        ctx.close(r[nm][0], r["full"][0][idx], 1e-12 if case["dtype"] == "f64" else 1e-5, 1e-12 if case["dtype"] == "f64" else 1e-5,
                  f"values at {ts.tolist()} when {full.tolist()} are requested as well")
        ctx.check(r[nm][1] == r["full"][1], lambda: f"{r['full'][1]} field evaluations for {len(full)} requests, {r[nm][1]} for {len(ts)}")
    ref = scipy_solve(Field(case["f"]), T(case["x"]), full.double().tolist())
    from vf.props.c03 import growth
    sc = tol * (1 + float(ref.abs().max()))
    G = growth(case["f"], case["L"])
    err = (r["full"][0].double() - ref).abs().reshape(len(full), -1).max(1).values
    # interpolation error of a step is of fourth order; the accepted step itself is controlled at fifth order
    ctx.check(float(err[-1]) <= 20 * sc * G, lambda: f"final error {float(err[-1]):.3g} at tolerance {tol:g}")
    worst = float(err.max())
    bound = 20 * sc * G + 60 * sc + 0.5 * sc ** 0.8
    ctx.check(worst <= bound, lambda: f"interpolated value off by {worst:.3g} (bound {bound:.3g}) at tolerance {tol:g}")
    ctx.nontrivial(len(case["fr"]) >= 2 and moves(case["f"], case["x"]))
    ctx.label("tight" if worst <= 5 * sc else ("mid" if worst <= 50 * sc else "loose"), f"tol{l}", "rev" if case["rev"] else "fwd")


@F.facet(case_req(), quick=150, thorough=2500)
def without_interpolant(case, ctx):
    "asking for interpolation from an adaptive solver that has no interpolant still gives accurate values at every request"
    from vf.props.c03 import growth
    dt = DT[case["dtype"]]
    tol = 10. ** (max(case["l"], -4) if case["dtype"] == "f32" else case["l"])
    ts = grid(case, [True] * len(case["fr"]))
    te, sol = odeint(Field(case["f"], dt), T(case["x"], dt), ts, "tsit5", atol=tol, rtol=tol, interpolator="4th")
    ctx.check(te.tolist() == ts.tolist(), lambda: f"evaluation times {te.tolist()} instead of {ts.tolist()}")
    ref = scipy_solve(Field(case["f"]), T(case["x"]), ts.double().tolist())
    bound = 20 * (len(ts) + 1) * tol * (1 + float(ref.abs().max())) * growth(case["f"], case["L"])
    ctx.close(sol.double(), ref, 0, bound, "tsit5 with an interpolator requested")
    ctx.nontrivial(len(case["fr"]) >= 2 and moves(case["f"], case["x"]))


@st.composite
def case_poly(draw):
    return dict(c=draw(gen.mat(5, 2, -2, 2)), t0=draw(gen.num(-2, 2)), h=draw(gen.pos(0.05, 2.)), th=draw(st.lists(st.integers(0, 16), min_size=1, max_size=5)),
                dtype="f64", batch=draw(st.booleans()))


@F.facet(case_poly(), quick=300, thorough=4000)
def quartic_reproduction(case, ctx):
    "the fourth-order interpolant through ends, midpoint and end slopes of a quartic is that quartic"
    it = str_to_interp("4th", torch.float64)
    c = T(case["c"])
    t0, h = case["t0"], case["h"]
    p = lambda t: sum(c[k] * (t - t0) ** k for k in range(5))
    dp = lambda t: sum(k * c[k] * (t - t0) ** (k - 1) for k in range(1, 5))
    sh = (lambda v: v[None].repeat(3, 1)) if case["batch"] else (lambda v: v)
    co = it.fit(T([h]), sh(dp(t0)), sh(dp(t0 + h)), sh(p(t0)), sh(p(t0 + h)), sh(p(t0 + h / 2)))
    for k in case["th"]:
        t = t0 + h * k / 16
        got = it.evaluate(co, T([t0]), T([t0 + h]), T(t))
        ctx.close(got, sh(p(t)), 1e-9, 1e-9, f"interpolant at fraction {k}/16 of a step")
    ctx.nontrivial(float(c[2:].abs().max()) > 0.1)


@st.composite
def case_dense(draw):
    t = draw(gen.grid(nmin=3, nmax=8, reverse=False))
    b, d = draw(st.sampled_from([1, 2, 3, 5, 8, 17])), draw(st.integers(1, 3))
    return dict(t=t, sol=[draw(gen.mat(b, d, -2, 2)) for _ in t], fr=draw(st.lists(st.integers(0, 100), min_size=1, max_size=5)),
                slope=draw(gen.vec(d, -2, 2)), dtype=draw(st.sampled_from(["f64", "f32"])))


@F.facet(case_dense(), quick=300, thorough=5000)
def dense(case, ctx):
    dt = DT[case["dtype"]]
    t, sol = T(case["t"], dt), T(case["sol"], dt)
    eps = 1e-4 if case["dtype"] == "f32" else 1e-10
    at = dense_output(sol, t, t)
    ctx.close(at, sol, eps, eps, "dense output at the stored points")
    q = t[0] + (t[-1] - t[0]) * torch.tensor(case["fr"], dtype=dt) / 100
    a = dense_output(sol, t, q)
    ctx.check(a.shape == (len(q), *sol.shape[1:]), lambda: f"dense output of shape {tuple(a.shape)}")
    a2, spline = dense_output(sol, t, q, return_spline=True)
    ctx.close(a2, a, 0, 0, "dense output when the spline is returned too")
    ctx.close(torch.stack([spline.evaluate(v) for v in q]), a, eps, eps, "returned spline")
    for b in range(sol.shape[1]):
        one = dense_output(sol[:, b:b + 1], t, q)
        ctx.close(one[:, 0], a[:, b], eps, eps, "dense output of a single batch element")
    # straight lines are reproduced
    line = (T(case["slope"], dt) * (t - t[0])[:, None])[:, None] + sol[:1, :]
    got = dense_output(line, t, q)
    want = (T(case["slope"], dt) * (q - t[0])[:, None])[:, None] + sol[:1, :]
    ctx.close(got, want, 10 * eps, 10 * eps, "dense output of a straight line")
    # requests are independent of each other
    ctx.close(dense_output(sol, t, q[:1]), a[:1], eps, eps, "dense output of the first request alone")
    ctx.nontrivial(len(t) >= 4)


@st.composite
def case_traj(draw):
    f = draw(gen.field(d=2, lip=1.))
    return dict(f=f, x=draw(gen.batch(2)), L=draw(gen.pos(0.5, 2.)), fr=draw(st.lists(st.integers(0, 100), min_size=1, max_size=6)))


@F.facet(case_traj(), quick=120, thorough=2000)
def dense_accuracy(case, ctx):
    "dense output of a finely stored trajectory approximates the trajectory between its points"
    n = 81
    ts = torch.linspace(0, case["L"], n).double()
    _, sol = odeint(Field(case["f"]), T(case["x"]), ts, "rk4")
    q = sorted(set(case["L"] * k / 100 if k < 100 else case["L"] for k in case["fr"]))
    got = dense_output(sol, ts, T(q))
    from vf.props.c03 import growth
    full = [0.] + [v for v in q if 0 < v < case['L']] + [case['L']]
    ref = scipy_solve(Field(case["f"]), T(case["x"]), full)
    ref = torch.stack([ref[full.index(v)] for v in q])
    h = case["L"] / (n - 1)
    G = growth(case["f"], case["L"])
    ctx.close(got, ref, 0, 40 * h * h * (1 + float(ref.abs().max())) * min(G, 100.), "dense output between stored points")
    ctx.nontrivial(moves(case["f"], case["x"]))


@st.composite
def case_trees(draw):
    n = draw(st.sampled_from([4, 4, 3, 2, 1]))
    return dict(tree=tolist(draw(st.sampled_from(ALL[n]))), a=draw(st.lists(st.sampled_from([1., 2., -1., 0.5]), min_size=n, max_size=n)),
                timed=draw(st.lists(st.booleans(), min_size=n, max_size=n)), t0=draw(gen.num(-1, 1)), L=draw(st.sampled_from([1., 0.5, 1.5])),
                fr=sorted(set(draw(st.lists(st.integers(1, 99), min_size=1, max_size=6)))))


@F.facet(case_trees(), quick=400, thorough=5000)
def order_four_everywhere(case, ctx):
    "on rooted-tree systems up to order four both the steps and the interpolant are exact"
    f = TreeField(case["tree"], case["a"], case["timed"], case["t0"])
    ts = T([case["t0"]] + [case["t0"] + case["L"] * k / 100 for k in case["fr"]] + [case["t0"] + case["L"]])
    te, sol = odeint(f, torch.zeros(1, f.n, dtype=torch.float64), ts, "dopri5", atol=1e-3, rtol=1e-3, interpolator="4th")
    want = f.scale() * (ts - case["t0"]) ** f.n / gamma(case["tree"])
    ctx.close(sol[:, 0, 0], want, 1e-11, 1e-11, f"solution of the order-{f.n} tree system {case['tree']} at {ts.tolist()}")
    ctx.nontrivial(f.n >= 2)
    ctx.label(f"order{f.n}")

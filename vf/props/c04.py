"""C04 order conditions (rooted trees), embedded error estimates and first-same-as-last stages"""
import math
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.core import Inconclusive
from vf.fields import DT, Field, T, moves, scipy_solve
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import DormandPrince45, Euler, Midpoint, RungeKutta4, Tsitouras45

F = core.Registry()
RULE = ("rooted trees up to order 5 (all 17 shapes, leaves realised as states or as time), random start times, step sizes and rates; random smooth "
        "fields for error estimates; non-trivial = tree of at least two nodes / estimate above rounding")
CLS = {"euler": (Euler, 1), "midpoint": (Midpoint, 2), "rk4": (RungeKutta4, 4), "dopri5": (DormandPrince45, 5), "tsit5": (Tsitouras45, 5)}


def trees(n):
    "all rooted trees with n nodes as nested sorted tuples"
    if n == 1:
        return [()]
    out = set()

    def forests(m, maxsize):
        if m == 0:
            yield ()
            return
        for s in range(min(m, maxsize), 0, -1):
            for t in trees(s):
                for rest in forests(m - s, s):
                    yield (t,) + rest
    for fo in forests(n - 1, n - 1):
        out.add(tuple(sorted(fo)))
    return sorted(out)


ALL = {n: trees(n) for n in range(1, 7)}
assert [len(ALL[n]) for n in range(1, 6)] == [1, 1, 2, 4, 9]
FLAT = [t for n in range(1, 6) for t in ALL[n]]


def size(t):
    return 1 + sum(size(c) for c in t)


def gamma(t):
    g = size(t)
    for c in t:
        g *= gamma(c)
    return g


def tolist(t):
    return [tolist(c) for c in t]


def nodes(tree):
    "depth-first list of (children indices); node 0 is the root"
    out = []

    def rec(t):
        i = len(out)
        out.append(None)
        out[i] = [rec(c) for c in t]
        return i
    rec(tree)
    return out


class TreeField:
    "y_i' = a_i * product of children; a leaf below the root can be read off the clock instead of the state"
    def __init__(self, tree, rates, timed, t0):
        self.ch, self.a, self.timed, self.t0 = nodes(tree), rates, timed, t0
        self.n = len(self.ch)

    def __call__(self, t, x):
        out = []
        tt = t.reshape(()) - self.t0
        for i, ch in enumerate(self.ch):
            v = torch.ones_like(x[..., 0]) * self.a[i]
            for c in ch:
                if not self.ch[c] and self.timed[c]:
                    v = v * (self.a[c] * tt)
                else:
                    v = v * x[..., c]
            out.append(v)
        return torch.stack(out, -1)

    def scale(self):
        return math.prod(self.a)


@st.composite
def case_tree(draw, orders=None):
    name = draw(st.sampled_from(["dopri5", "tsit5", "rk4", "midpoint", "euler", "dopri5", "tsit5"]))
    p = CLS[name][1]
    n = draw(st.sampled_from(list(range(p, 0, -1))))
    tree = draw(st.sampled_from(ALL[n]))
    return dict(solver=name, tree=tolist(tree), t0=draw(gen.num(-2, 2)), h=draw(st.sampled_from([1., 0.5, 0.75, 0.25, -0.5])),
                a=draw(st.lists(st.sampled_from([1., 2., -1., 0.5]), min_size=n, max_size=n)),
                timed=draw(st.lists(st.booleans(), min_size=n, max_size=n)), k1=draw(st.booleans()), dtype="f64", tshape=draw(st.booleans()))


def one_step(case, ctx):
    f = TreeField(case["tree"], case["a"], case["timed"], case["t0"])
    s = CLS[case["solver"]][0](dtype=torch.float64)
    x = torch.zeros(1, f.n, dtype=torch.float64)
    t, h = T(case["t0"]), T(case["h"])
    if case["tshape"]:
        t, h = t.reshape(1), h.reshape(1)
    k1 = f(t, x) if case["k1"] else None
    return f, s, s.step(f, x, t, h, k1=k1), t, h


@F.facet(case_tree(), quick=1500, thorough=15000, shards=2)
def order_conditions(case, ctx):
    f, s, out, t, h = one_step(case, ctx)
    n, g = f.n, gamma(case["tree"])
    want = f.scale() * case["h"] ** n / g
    got = float(out[1][0, 0])
    ctx.check(abs(got - want) <= 1e-12 * abs(f.scale()), lambda: f"{case['solver']}: tree {case['tree']} (order {n}): {got!r} instead of {want!r} for h={case['h']}")
    ctx.check(int(s.order) == CLS[case["solver"]][1], lambda: f"{case['solver']} states order {s.order}")
    ctx.nontrivial(n >= 2)
    ctx.label(case["solver"], f"order{n}", "timed" if any(case["timed"]) else "state-only")


@st.composite
def case_embedded(draw):
    n = draw(st.sampled_from([1, 2, 3, 4]))
    c = draw(case_tree())
    tree = draw(st.sampled_from(ALL[n]))
    c.update(solver=draw(st.sampled_from(["dopri5", "tsit5"])), tree=tolist(tree), a=draw(st.lists(st.sampled_from([1., 2., -1., 0.5]), min_size=n, max_size=n)),
             timed=draw(st.lists(st.booleans(), min_size=n, max_size=n)))
    return c


@F.facet(case_embedded(), quick=500, thorough=6000)
def estimate_vanishes_to_order_four(case, ctx):
    f, s, out, t, h = one_step(case, ctx)
    err = float(out[2][0].abs().max())
    ctx.check(err <= 1e-12 * max(1., abs(f.scale())), lambda: f"{case['solver']}: error estimate {err:.3g} on a tree of order {f.n} integrated exactly")
    ctx.nontrivial(f.n >= 2)


@st.composite
def case_five(draw):
    return dict(solver=draw(st.sampled_from(["dopri5", "tsit5"])), h=draw(st.sampled_from([1., 0.5, 2.])), t0=draw(gen.num(-2, 2)))


@F.facet(case_five(), quick=20, thorough=200)
def estimate_sees_order_five(case, ctx):
    "on trees of order five the estimate is proportional to h^5 and not degenerate"
    tot = 0.
    for tree in ALL[5]:
        vals = []
        for h in (case["h"], case["h"] / 2):
            c = dict(solver=case["solver"], tree=tolist(tree), a=[1.] * 5, timed=[False] * 5, t0=case["t0"], h=h, k1=False, tshape=False)
            vals.append(float(one_step(c, ctx)[2][2][0, 0]))
        ctx.check(abs(vals[0] - 32 * vals[1]) <= 1e-9, lambda: f"estimates {vals} for h and h/2 are not proportional to h^5 on tree {tree}")
        tot = max(tot, abs(vals[0]) / case["h"] ** 5 * 1.)
    ctx.check(tot > 1e-5, lambda: f"the error estimate vanishes on all trees of order five (max {tot:.3g})")
    ctx.nontrivial()


@st.composite
def case_fsal(draw):
    f = draw(gen.field())
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.num(-2, 2)), h=draw(gen.pos(0.01, 0.6)), dtype=draw(gen.dtypes),
                solver=draw(st.sampled_from(["dopri5", "tsit5"])), k1=draw(st.booleans()), rev=draw(st.booleans()))


@F.facet(case_fsal(), quick=500, thorough=8000)
def last_stage_and_linearity(case, ctx):
    "returned stage is the field at the end of the step; supplying the first stage changes nothing; 6 or 7 evaluations"
    dt = DT[case["dtype"]]
    f, x = Field(case["f"], dt), T(case["x"], dt)
    t, h = T([case["t"]], dt), T([-case["h"] if case["rev"] else case["h"]], dt)
    s = CLS[case["solver"]][0](dtype=dt)
    eps = 2e-5 if case["dtype"] == "f32" else 1e-11
    out = s.step(f, x, t, h, k1=None)
    n = f.n
    ctx.check(n <= 7, lambda: f"{n} field evaluations in a step")
    ctx.close(out[0], f(t + h, out[1]), eps, eps, "stage returned for reuse")
    out2 = s.step(f, x, t, h, k1=f(t, x))
    for a, b, what in zip(out[:3], out2[:3], ("stage", "solution", "error")):
        ctx.close(a, b, eps, eps, f"{what} with the first stage supplied")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label(case["solver"])


@st.composite
def case_honest(draw):
    f = draw(gen.field(d=2, lip=1.))
    return dict(f=f, x=draw(gen.batch(2)), t=draw(gen.num(-2, 2)), h=draw(gen.pos(0.05, 0.4)), solver=draw(st.sampled_from(["dopri5", "tsit5"])))


@F.facet(case_honest(), quick=400, thorough=8000, shards=2)
def honest_estimate(case, ctx):
    "the true local error does not exceed the estimate by more than a moderate factor"
    f, x = Field(case["f"]), T(case["x"])
    s = CLS[case["solver"]][0](dtype=torch.float64)
    t, h = T([case["t"]]), T([case["h"]])
    _, xs, err, _ = s.step(f, x, t, h)
    ref = scipy_solve(Field(case["f"]), x, [case["t"], case["t"] + case["h"]], rtol=1e-13, atol=1e-14)[-1]
    true, est = float((xs - ref).abs().max()), float(err.abs().max())
    floor = 1e-11 * (1 + float(x.abs().max()))
    ctx.check(true <= 30 * est + 1e-4 * case["h"] ** 6 + floor, lambda: f"true error {true:.3g} of a step with estimate {est:.3g}")
    ctx.nontrivial(est > 10 * floor)
    ctx.label(case["solver"], "est>1e-8" if est > 1e-8 else "small", "ratio<1" if true <= est else "ratio>1")

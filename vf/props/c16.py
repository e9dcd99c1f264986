"""C16 hybrid integration localises events and applies each jump once"""
import math
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import Field, T, moves, scipy_solve
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_hybrid
from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
from torchdyn.numerics.utils import EventCallback, StochasticEventCallback

F = core.Registry()
RULE = ("random flows with 0-2 events on moving hyperplanes whose jumps leave the event set, impulses at prescribed times, bouncing balls and integrate-and-fire "
        "units with closed-form event times; random spans, budgets, tolerances; every call of an event callback is logged; non-trivial = at least one jump "
        "(for the facet without events: a moving state)")
ASSUMPTIONS = ["events that begin and end within one accepted step cannot be seen", "jumps leave the event set (otherwise the event triggers again)", "forward time"]
D = torch.float64
TOL = 1e-8


class Plane(EventCallback):
    "event: c.x + w t > theta; jump: back to distance `back` behind the plane, plus a shift along the plane"
    def __init__(self, c, w, theta, back, shift):
        super().__init__()
        self.__attrs_post_init__()
        self.c, self.w, self.theta, self.back, self.shift, self.log = T(c), w, theta, back, T(shift), []

    def excess(self, t, x):
        return float((self.c * x).sum() + self.w * float(t) - self.theta)

    def check_event(self, t, x):
        return torch.tensor(self.excess(t, x) > 0)

    def jump(self, t, x):
        c2 = (self.c * self.c).sum()
        s = (self.c * x).sum() + self.w * float(t) - self.theta
        p = self.shift - (self.shift * self.c).sum() / c2 * self.c
        return x - (s + self.back) / c2 * self.c + p

    def jump_map(self, t, x):
        y = self.jump(t, x)
        self.log.append((float(t), x.clone(), y.clone()))
        return y


def method(name):
    return {"dopri5": "dopri5", "tsit5": "tsit5", "Dopri": DormandPrince45(D), "Tsit": Tsitouras45(D)}[name]


METHODS = ["dopri5", "dopri5", "tsit5", "Dopri", "Tsit"]


def walk(ctx, te, sol, logs, initial):
    """splits the history into flow segments; every logged jump (ordered) must appear as a before/after pair. Returns [(i, j)] index ranges"""
    segs, start, k = [], 0, 1 if initial else 0
    i = 0
    while i < len(te):
        if k < len(logs) and float(te[i]) == logs[k][0] and torch.equal(sol[i], logs[k][1]) and i + 1 < len(te) and float(te[i + 1]) == logs[k][0] \
                and torch.equal(sol[i + 1], logs[k][2]):
            segs.append((start, i))
            start, k = i + 1, k + 1
        i += 1
    segs.append((start, len(te) - 1))
    ctx.check(k == len(logs), f"{len(logs)} jumps were made but only {k} appear as consecutive states before and after the jump")
    return segs


def common(ctx, te, sol, ts, x, f, logs, initial, budget, tol, flow_tol):
    tl = te.tolist()
    ctx.check(te.dim() == 1 and len(te) == len(sol), f"{tuple(te.shape)} times for {len(sol)} states")
    ctx.check(all(a <= b for a, b in zip(tl, tl[1:])), f"times are not ordered: {tl}")
    ctx.check(tl[0] == float(ts[0]) and tl[-1] <= float(ts[-1]), f"times from {tl[0]} to {tl[-1]}")
    ctx.check(len(logs) <= budget, f"{len(logs)} jumps with a budget of {budget}")
    ctx.check(len(logs) == budget or tl[-1] == float(ts[-1]), f"stopped at {tl[-1]} after {len(logs)} of {budget} jumps, before the end {float(ts[-1])}")
    missed = [t for t in ts.tolist() if t <= tl[-1] and t not in tl]
    ctx.check(not missed, f"requested times {missed} are not among the returned times")
    ctx.check(torch.equal(sol[0], logs[0][2] if initial else x), "first state is not the initial condition")
    segs = walk(ctx, te, sol, logs, initial)
    for i, j in segs:
        if j > i and tl[j] > tl[i]:
            tt = sorted(set(tl[i:j + 1]))
            ref = scipy_solve(f, sol[i], tt)
            idx = [tt.index(t) for t in tl[i:j + 1]]
            ctx.close(sol[i:j + 1], ref[idx], flow_tol, flow_tol, f"flow between the jumps at {tl[i]} and {tl[j]}")
    return segs


@st.composite
def case_clock(draw):
    b = draw(st.sampled_from([1, 2, 3, 5, 2000]))
    return dict(b=b, d=draw(st.integers(1, 3)), dims=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10 ** 6)))


@F.facet(case_clock(), quick=60, thorough=600)
def stochastic_thresholds(case, ctx):
    "thresholds of stochastic events: one independent standard exponential per batch element, drawn anew by every initialisation"
    cb = StochasticEventCallback()
    b = case["b"]
    x = torch.zeros(*([b] + [case["d"]] * (case["dims"] - 1)))
    draws = []
    with torch.random.fork_rng():
        torch.manual_seed(case["seed"])
        for _ in range(6):
            cb.initialize(x)
            draws.append(cb.s.clone())
    ctx.check(all(s.shape == (b,) for s in draws), f"thresholds of shape {tuple(draws[0].shape)} for a state of shape {tuple(x.shape)}")
    s = torch.stack(draws).double()
    ctx.check(bool((s >= 0).all()), "negative threshold")
    ctx.check(len(set(s[:, 0].tolist())) > 1, "initialisation does not draw new thresholds")
    if b > 1:
        ctx.check(len(set(s[0].tolist())) > 1, "all batch elements share one threshold")
    if b == 2000:
        v = s.flatten().sort().values
        n = len(v)
        ks = float((torch.arange(1, n + 1).double() / n - (1 - torch.exp(-v))).abs().max())
        ctx.check(ks < .03, f"distribution of the thresholds is {ks} away from the standard exponential")      # p < 1e-8 for n = 12000
        c = float(torch.corrcoef(s[:2])[0, 1])
        ctx.check(abs(c) < .15, f"thresholds of successive initialisations are correlated ({c})")
    ctx.nontrivial(b > 1)
    ctx.label(f"batch{b}")


@st.composite
def case_planes(draw):
    d = draw(st.integers(1, 3))
    ncb = draw(st.sampled_from([0, 1, 1, 2, 2]))
    c = draw(gen.vec(d, -1, 1))
    if max(abs(v) for v in c) < .3:
        c[0] = 1.
    x, t = draw(gen.vec(d, -1.5, 1.5)), draw(gen.grid(nmin=2, nmax=5, hmin=.1, hmax=1., reverse=False))
    w = draw(st.sampled_from([2., 1., .5, 0.]))
    th = draw(gen.pos(.1, 1.5))
    if draw(st.integers(0, 3)):
        th = round(th / 2 + sum(a * b for a, b in zip(c, x)) + w * t[0], 6)      # ahead of the initial state
    cbs = [dict(c=c, w=w, theta=th, back=draw(gen.pos(.2, 1.)), shift=draw(gen.vec(d, -1, 1)))]
    if ncb == 2:
        rel = draw(st.sampled_from(["same", "same", "later", "earlier", "opposite"]))
        if rel == "opposite":
            th2 = round(draw(gen.pos(1.2, 2.)) - th, 6)      # neither jump lands in the other event
            cbs.append(dict(c=[-v for v in c], w=-w, theta=th2, back=draw(gen.pos(.2, 1.)), shift=draw(gen.vec(d, -1, 1))))
        else:
            off = {"same": 0., "later": draw(gen.pos(.05, .5)), "earlier": -draw(gen.pos(.02, .09))}[rel]
            cbs.append(dict(c=c, w=w, theta=th + off, back=draw(gen.pos(.2, 1.)) + abs(off), shift=draw(gen.vec(d, -1, 1))))
    cbs = cbs[:ncb]
    return dict(f=draw(gen.field(d=d, lip=.8)), x=x, flat=draw(st.booleans()), t=t,
                cbs=cbs, budget=draw(st.integers(1, 6)), etol=draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6])), solver=draw(st.sampled_from(METHODS)))


@F.facet(case_planes(), quick=450, thorough=8000, shards=3)
def event_history(case, ctx):
    "whole histories: order, budget, requested times, flow segments, localisation and the jumps themselves"
    f, x, ts = Field(case["f"], cap=200000), T(case["x"]), T(case["t"])
    if not case["flat"]:
        x = x[None]
    cbs = [Plane(**c) for c in case["cbs"]]
    log = []
    for i, c in enumerate(cbs):
        c.log = log if i == 0 else c.log
    order = []
    for i, c in enumerate(cbs):
        def jm(t, y, i=i, c=c):
            z = c.jump(t, y)
            order.append((float(t), y.clone(), z.clone(), i))
            return z
        c.jump_map = jm
    te, sol = odeint_hybrid(f, x, ts, case["budget"], method(case["solver"]), cbs, atol=TOL, rtol=TOL, event_tol=case["etol"])
    initial = any(c.excess(ts[0], x) > 0 for c in cbs)
    if initial:
        ctx.check(order and order[0][0] == float(ts[0]) and torch.equal(order[0][1], x), "an event that holds at the start did not jump first")
        first = [c.excess(ts[0], x) > 0 for c in cbs].index(True)
        ctx.check(order[0][3] == first, f"callback {order[0][3]} jumped at the start instead of {first}")
    ff = Field(case["f"], cap=10 ** 7)
    segs = common(ctx, te, sol, ts, x, ff, order, initial, case["budget"], TOL, 3e-6)
    # no recorded state lies inside an event set
    for t, y in zip(te.tolist(), sol):
        for i, c in enumerate(cbs):
            ctx.check(c.excess(t, y) <= 1e-9, f"state at {t} has passed event {i} by {c.excess(t, y)} without a jump")
    # each jump: its event becomes true within the event tolerance, and it is the first in order of those that are true together
    for t, a, b, i in order[1 if initial else 0:]:
        ref = scipy_solve(ff, a, [t, t + case["etol"] * 1.001])[-1]
        slack = 1e-6 + 1e-5 * case["etol"]
        ctx.check(cbs[i].excess(t + case["etol"] * 1.001, ref) > -slack, f"event {i} jumped at {t}, more than {case['etol']} before its condition holds "
                  f"(excess {cbs[i].excess(t + case['etol'] * 1.001, ref)})")
        for j in range(i):
            # an earlier callback that certainly held at the same moment has precedence
            same = case["cbs"][j]["theta"] == case["cbs"][i]["theta"] and case["cbs"][j]["c"] == case["cbs"][i]["c"]
            ctx.check(not same, f"callback {i} jumped at {t} though callback {j} with the same condition comes first")
    ctx.nontrivial(len(order) > 0)
    ctx.label(f"cb{len(cbs)}", f"jumps{min(len(order), 3)}", "budget" if len(order) == case["budget"] else "end", "initial" if initial else "quiet")


@st.composite
def case_imp(draw):
    d = draw(st.integers(1, 2))
    t = draw(gen.grid(nmin=2, nmax=5, hmin=.1, hmax=.8, reverse=False))
    n = draw(st.sampled_from([1, 2, 3, 4, 0]))
    taus = sorted(draw(st.lists(gen.num(t[0] + .05, t[-1] + .3), min_size=n, max_size=n, unique=True)))
    taus = [v for v in taus if v > t[0] + 1e-3]
    n = len(taus)
    return dict(f=draw(gen.field(d=d, lip=.8)), x=draw(gen.vec(d, -1, 1)), t=t, taus=taus, kicks=draw(gen.mat(n, d, -1, 1)), budget=draw(st.integers(1, 6)),
                etol=draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6])), solver=draw(st.sampled_from(METHODS)), order=draw(st.permutations(list(range(n)))))


class Impulse(EventCallback):
    "the k-th impulse: due when t > tau and the counter (last state component) says k impulses have been given"
    def __init__(self, k, tau, kick, log):
        super().__init__()
        self.__attrs_post_init__()
        self.k, self.tau, self.kick, self.log = k, tau, T(kick + [1.]), log

    def check_event(self, t, x):
        return torch.tensor(float(t) > self.tau and abs(float(x[..., -1].reshape(-1)[0]) - self.k) < .5)

    def jump_map(self, t, x):
        y = x + self.kick
        self.log.append((float(t), x.clone(), y.clone(), self.k))
        return y


@F.facet(case_imp(), quick=300, thorough=5000, shards=2)
def impulses(case, ctx):
    "impulses at prescribed times: each is given exactly once, in time order, within the event tolerance before it is due"
    inner, x, ts = Field(case["f"], cap=200000), T(case["x"] + [0.])[None], T(case["t"])

    def f(t, y):
        return torch.cat([inner(t, y[..., :-1]), torch.zeros_like(y[..., -1:])], -1)
    log = []
    cbs = [Impulse(k, case["taus"][k], case["kicks"][k], log) for k in case["order"]]
    te, sol = odeint_hybrid(f, x, ts, case["budget"], method(case["solver"]), cbs, atol=TOL, rtol=TOL, event_tol=case["etol"])
    due = [(k, tau) for k, tau in enumerate(case["taus"]) if tau < ts[-1] - 1e-6][:case["budget"]]
    sure = [(k, tau) for k, tau in due if tau < ts[-1] - 1e-3]
    ctx.check(len(sure) <= len(log) <= max(len(sure), len([t for t in case["taus"] if t < float(ts[-1]) + 1e-6])), f"{len(log)} impulses given, due {due}")
    for (t, a, b, k), j in zip(log, range(len(log))):
        ctx.check(k == j, f"impulse {k} was given as number {j}")
        tau = case["taus"][k]
        lo = max([tau - case["etol"] * 1.0001 - 1e-9] + [log[j - 1][0] if j else float(ts[0])])
        ctx.check(lo - 1e-9 <= t <= tau + 1e-9 or (j and t - log[j - 1][0] <= 1e-9), f"impulse {k} due at {tau} was given at {t} (event tolerance {case['etol']})")
    inner.n = -10 ** 7
    common(ctx, te, sol, ts, x, f, log, False, case["budget"], TOL, 3e-6)
    ctx.nontrivial(len(log) > 0)
    ctx.label(f"jumps{len(log)}")


class Ball(EventCallback):
    def __init__(self, e):
        super().__init__()
        self.__attrs_post_init__()
        self.e, self.log = e, []

    def check_event(self, t, x):
        return torch.tensor(bool(x.reshape(-1)[0] < 0 and x.reshape(-1)[1] < 0))

    def jump_map(self, t, x):
        y = torch.stack([x[..., 0], -self.e * x[..., 1]], -1)
        self.log.append((float(t), x.clone(), y.clone()))
        return y


@st.composite
def case_ball(draw):
    return dict(g=draw(gen.pos(1., 10.)), h=draw(gen.pos(.2, 3.)), v=draw(gen.num(-2, 2)), e=draw(gen.pos(.4, 1.)), t0=draw(gen.num(-2, 2)), T=draw(gen.pos(.5, 4.)),
                n=draw(st.integers(2, 4)), budget=draw(st.integers(1, 4)), etol=draw(st.sampled_from([1e-3, 1e-4, 1e-6])), solver=draw(st.sampled_from(METHODS)))


@F.facet(case_ball(), quick=200, thorough=3000)
def bouncing_ball(case, ctx):
    "closed-form bounce times and heights"
    g, e = case["g"], case["e"]
    cb, ts, x = Ball(e), torch.linspace(case["t0"], case["t0"] + case["T"], case["n"], dtype=D), T([[case["h"], case["v"]]])
    count = [0]

    def f(t, y):
        count[0] += 1
        if count[0] > 10 ** 5:
            ctx.fail("integration of a bouncing ball does not terminate")
        return torch.stack([y[..., 1], torch.full_like(y[..., 1], -g)], -1)
    te, sol = odeint_hybrid(f, x, ts, case["budget"], method(case["solver"]), [cb], atol=TOL, rtol=TOL, event_tol=case["etol"])
    # exact bounces from the recorded history (errors of one bounce do not enter the next)
    t, y, v = case["t0"], case["h"], case["v"]
    k = 0
    while k < case["budget"]:
        hit = t + (v + math.sqrt(v * v + 2 * g * max(y, 0.))) / g
        if k >= len(cb.log):
            ctx.check(hit > float(ts[-1]) - 1e-6, f"bounce {k} at {hit} is missing (end {float(ts[-1])})")
            break
        bt, a, b = cb.log[k]
        ctx.check(hit - case["etol"] * 1.001 - 1e-7 <= bt <= hit + 1e-7, f"bounce {k} due at {hit} was made at {bt} (event tolerance {case['etol']})")
        vv = v - g * (bt - t)
        ctx.close(a.reshape(-1), torch.tensor([y + v * (bt - t) - g / 2 * (bt - t) ** 2, vv]), 1e-6, 1e-6, f"state before bounce {k}")
        t, y, v = bt, float(b.reshape(-1)[0]), float(b.reshape(-1)[1])
        k += 1
        if abs(v) < 20 * g * case["etol"]:
            break                      # the bounces come closer than the event tolerance
    ctx.check(len(cb.log) <= case["budget"], f"{len(cb.log)} bounces with a budget of {case['budget']}")
    walk(ctx, te, sol, cb.log, False)
    ctx.nontrivial(k > 0)
    ctx.label(f"bounces{k}")


class Fire(EventCallback):
    def __init__(self, thr, reset):
        super().__init__()
        self.__attrs_post_init__()
        self.thr, self.reset, self.log = thr, reset, []

    def check_event(self, t, x):
        return (x[..., 0] >= self.thr).any()

    def jump_map(self, t, x):
        y = torch.full_like(x, self.reset)
        self.log.append((float(t), x.clone(), y.clone()))
        return y


@st.composite
def case_fire(draw):
    return dict(a=draw(gen.pos(.2, 2.)), over=draw(gen.pos(.1, 1.)), reset=draw(gen.num(-.5, .5)), periods=draw(gen.pos(.5, 1.)) * draw(st.sampled_from([2, 4, 6, 1])), n=draw(st.integers(2, 5)), budget=draw(st.integers(1, 8)),
                etol=draw(st.sampled_from([1e-3, 1e-4, 1e-6])), solver=draw(st.sampled_from(METHODS)), tol=draw(st.sampled_from([1e-3, 1e-6, 1e-8])))


@F.facet(case_fire(), quick=150, thorough=2500)
def integrate_and_fire(case, ctx):
    "x' = I - a x, reset at the threshold 1: firing rate and number of firings in closed form"
    a, I = case["a"], case["a"] * (1 + case["over"])
    period = math.log((I / a - case["reset"]) / (I / a - 1)) / a
    span = case["periods"] * period
    cb, ts = Fire(1., case["reset"]), torch.linspace(0, span, case["n"], dtype=D)
    n = [0]

    def f(t, y):
        n[0] += 1
        if n[0] > 10 ** 5:
            ctx.fail("integration does not terminate")
        return I - a * y
    te, sol = odeint_hybrid(f, T([[case["reset"]]]), ts, case["budget"], method(case["solver"]), [cb], atol=case["tol"], rtol=case["tol"], event_tol=case["etol"])
    # local errors move a crossing by at most error / slope at the threshold
    slack = case["etol"] * 1.001 + 30 * case["tol"] / (I - a) + 1e-9
    for k, (t, _, _) in enumerate(cb.log):
        prev = cb.log[k - 1][0] if k else 0.
        ctx.check(abs(t - prev - period) <= slack, f"firing {k} after {t - prev} instead of {period} (slack {slack})")
    want = span / period
    lo, hi = math.floor(span / (period + slack) - 1e-6), math.ceil(span / max(period - slack, 1e-9) + 1e-6)
    ctx.check(min(lo, case["budget"]) <= len(cb.log) <= min(hi, case["budget"]), f"{len(cb.log)} firings, expected {want}, budget {case['budget']}")
    ctx.check(bool((sol < 1 + 1e-9).all()), f"a recorded state passed the threshold: {float(sol.max())}")
    ctx.nontrivial(len(cb.log) > 1)
    ctx.label(f"fire{min(len(cb.log), 4)}")


class Never(EventCallback):
    def __init__(self):
        super().__init__()
        self.__attrs_post_init__()

    def check_event(self, t, x):
        return torch.tensor(False)

    def jump_map(self, t, x):
        raise core.Violation("jump of an event whose condition never holds")


@st.composite
def case_none(draw):
    return dict(f=draw(gen.field()), t=draw(gen.grid(nmin=2, nmax=6, reverse=False)), ncb=draw(st.integers(0, 2)), tol=draw(st.sampled_from([1e-3, 1e-5, 1e-8])),
                solver=draw(st.sampled_from(METHODS)), budget=draw(st.integers(1, 3)), x=None)


@F.facet(case_none().flatmap(lambda c: gen.state(c["f"]["d"]).map(lambda x: {**c, "x": x})), quick=250, thorough=4000)
def no_events(case, ctx):
    "without events the ordinary adaptive integration"
    f, x, ts, tol = Field(case["f"]), T(case["x"]), T(case["t"]), case["tol"]
    te, sol = odeint_hybrid(f, x, ts, case["budget"], method(case["solver"]), [Never() for _ in range(case["ncb"])], atol=tol, rtol=tol)
    tl = te.tolist()
    ctx.check(all(t in tl for t in ts.tolist()) and all(a < b for a, b in zip(tl, tl[1:])), f"times {tl} do not visit {ts.tolist()} in order")
    ctx.check(sol.shape == (len(te),) + tuple(x.shape), f"shape {tuple(sol.shape)}")
    at = sol[[tl.index(t) for t in ts.tolist()]]
    want = odeint(f, x, ts, method(case["solver"]), atol=tol, rtol=tol)[1]
    ctx.close(at, want, 20 * tol, 20 * tol, "hybrid integration without events against odeint")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label(f"cb{case['ncb']}", case["solver"])

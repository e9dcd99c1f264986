"""C03 adaptive integration honours tolerances and the acceptance rule"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.core import Inconclusive
from vf.fields import DT, Field, T, moves, scipy_solve
from vf.solvers import UserBS23
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_hybrid
from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45

F = core.Registry()
RULE = ("random field, state, grid, tolerances; every attempted step of the run is recorded through the solver object and checked; "
        "non-trivial = at least 4 attempted steps (history facets) or an error bound below 10% of the motion (accuracy facets)")
ASSUMPTIONS = ["accuracy facets use fields with bounded Lipschitz constant over intervals of at most 4 time units"]


def recorder(cls):
    class Rec(cls):
        def __init__(self, dtype):
            super().__init__(dtype=dtype)
            self.log = []

        def step(self, f, x, t, dt, k1=None, args=None):
            out = super().step(f, x, t, dt, k1=k1, args=args)
            self.log.append(dict(t=float(t), dt=float(dt), x=x.detach().clone(), xn=out[1].detach().clone(), err=out[2].detach().clone(),
                                 k1=None if k1 is None else k1.detach().clone()))
            return out
    return Rec


CL = {"dopri5": recorder(DormandPrince45), "tsit5": recorder(Tsitouras45), "user": UserBS23}


@st.composite
def case_hist(draw):
    f = draw(gen.field(lip=draw(st.sampled_from([1., 2., 5.]))))
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(st.one_of(gen.grid(nmax=5, reverse=False), gen.grid(nmax=3, hmin=1., hmax=3., reverse=False))),
                solver=draw(st.sampled_from(["dopri5", "tsit5", "user"])), dtype=draw(gen.dtypes),
                la=draw(st.sampled_from([-2, -3, -4, -5, -6, -7])), lr=draw(st.sampled_from([-2, -3, -4, -5, -6, -7])),
                semi=draw(st.booleans()), interp=draw(st.booleans()), kick=draw(st.sampled_from([None, None, "bump", "bump", "steep", "steep"])),
                unit=draw(st.sampled_from([1., 1., 1., 2. ** -12, 2. ** 9])), xs=draw(st.sampled_from([1., 1., 1., 1e-3, 100.])))


def disturbed(base, kick, mid, steep):
    """a bump or a steep switch in the middle of the interval makes the controller reject steps"""
    if kick in (True, "bump"):
        return lambda t, y: base(t, y) + 20. * torch.exp(-(40 * (t - mid)) ** 2)
    if kick == "steep":
        return lambda t, y: base(t, y) + 3. * torch.tanh((t - mid) * steep)
    return base


def in_unit(f, u):
    "the same field with time measured in another unit: its solution at u * t is the one of f at t"
    return f if u == 1. else (lambda t, y: f(t / u, y) / u)


def check_log(ctx, log, x, ts, f, atol, rtol, semi, eps, dt):
    "the recorded attempts of a run over increasing times follow the acceptance rule; returns the accepted states"
    ctx.check(log and log[0]["t"] == float(ts[0]) and torch.equal(log[0]["x"], x), "the first step does not start from the initial state")
    rejected = accepted = 0
    acc = [(float(ts[0]), x)]
    for i, st_ in enumerate(log):
        e, a, b = st_["err"], st_["x"], st_["xn"]
        if semi[0]:
            e, a, b = e[:semi[1]], a[:semi[1]], b[:semi[1]]
        ratio = float((e / (atol + rtol * torch.max(a.abs(), b.abs()))).double().pow(2).mean().sqrt())
        nxt = log[i + 1] if i + 1 < len(log) else None
        end = st_["t"] + st_["dt"]
        if nxt is None:
            ctx.check(abs(end - float(ts[-1])) <= eps * 10, lambda: f"last step ends at {end} instead of {float(ts[-1])}")
            ok = True
        else:
            moved = torch.equal(nxt["x"], st_["xn"]) and abs(nxt["t"] - end) <= eps * 10
            stayed = torch.equal(nxt["x"], st_["x"]) and nxt["t"] == st_["t"]
            if moved and stayed:
                ok = ratio <= 1
            else:
                ctx.check(moved or stayed, lambda: f"step {i} from t={st_['t']} of size {st_['dt']} is followed by a step from t={nxt['t']} whose state is "
                          "neither the step's result nor its start")
                ok = moved
        ctx.check(not (ok and ratio > 1 + 1e-4), lambda: f"a step with scaled error {ratio:.6g} > 1 was accepted (t={st_['t']}, dt={st_['dt']})")
        ctx.check(not (not ok and ratio < 1 - 1e-4), lambda: f"a step with scaled error {ratio:.6g} < 1 was rejected (t={st_['t']}, dt={st_['dt']})")
        ctx.check(st_["dt"] > 0, lambda: f"step of size {st_['dt']}")
        if st_["k1"] is not None:
            k = f(T(st_["t"], dt), st_["x"]).detach()
            ctx.check(bool(((k - st_["k1"]).abs() <= (1e-3 if dt == torch.float32 else 1e-7) * (1 + k.abs().max())).all()),
                      lambda: f"the first stage reused at t={st_['t']} is not the field at the start of the step")
        if ok:
            accepted += 1
            acc.append((end, st_["xn"]))
        else:
            rejected += 1
            if nxt is not None:
                ctx.check(nxt["dt"] < st_["dt"], lambda: f"rejected step of size {st_['dt']} is retried with size {nxt['dt']}")
    return acc, accepted, rejected


@F.facet(case_hist(), quick=700, thorough=12000, shards=4)
def accept_rule(case, ctx):
    "no step with a scaled error above one is accepted, all others are; retries shrink; the accepted steps tile the interval"
    dt = DT[case["dtype"]]
    la, lr = (max(case["la"], -5), max(case["lr"], -4)) if case["dtype"] == "f32" else (case["la"], case["lr"])
    if case["solver"] == "user":
        la, lr = max(la, -5), max(lr, -5)
    atol, rtol = 10. ** la, 10. ** lr
    base = Field(case["f"], dt)
    u = case.get("unit", 1.)
    x, ts = T(case["x"], dt) * case.get("xs", 1.), T(case["t"], dt) * u
    mid = (case["t"][0] + case["t"][-1]) / 2
    f = in_unit(disturbed(base, case["kick"], mid, 60. if case["dtype"] == "f32" else 1e4), u)
    semi = (False, None)
    if case["semi"] and x.shape[0] > 1:
        semi = (True, x.shape[0] - 1)
    s = CL[case["solver"]](dt)
    interp = "4th" if case["interp"] and case["solver"] == "dopri5" else None
    te, sol = odeint(f, x, ts, s, atol=atol, rtol=rtol, seminorm=semi, interpolator=interp)
    eps, log = (1e-5 if case["dtype"] == "f32" else 1e-11) * max(1., u), s.log
    acc, accepted, rejected = check_log(ctx, log, x, ts, f, atol, rtol, semi, eps, dt)
    # values at requested times are states of accepted steps (checkpoints without interpolation)
    if interp is None:
        for tq, y in zip(ts.tolist(), sol):
            near = [v for (tt, v) in acc if abs(tt - tq) <= eps * 10]
            ctx.check(any(torch.equal(v, y) for v in near), lambda: f"value returned for t={tq} is not the state of an accepted step ending there")
    else:
        ctx.check(torch.equal(acc[-1][1], sol[-1]), "final value is not the state of the last accepted step")
    ctx.nontrivial(len(log) >= 4)
    ctx.label(case["solver"], "rejections" if rejected else "no-rejection", f"unit{u:g}", str(case["kick"]), f"semi={semi[0]}", f"interp={bool(interp)}")


@st.composite
def case_limits(draw):
    f = draw(gen.field(lip=draw(st.sampled_from([1., 3.]))))
    return dict(f=f, x=draw(gen.state(f["d"])), T=draw(gen.pos(1., 4.)), solver=draw(st.sampled_from(["dopri5", "tsit5"])),
                l=draw(st.sampled_from([-3, -5, -7])), lo=draw(st.sampled_from([0.2, 0.5, 0.1])), hi=draw(st.sampled_from([10, 2, 4])),
                sf=draw(st.sampled_from([0.9, 0.7])), kick=draw(st.booleans()))


@F.facet(case_limits(), quick=300, thorough=5000, shards=2)
def step_size_limits(case, ctx):
    "successive step sizes stay within the factors configured on the solver and do not shrink after an accepted step"
    base, x = Field(case["f"]), T(case["x"])
    f = (lambda t, y: base(t, y) + 20. * torch.exp(-(40 * (t - case["T"] / 2)) ** 2)) if case["kick"] else base
    ts = T([0., case["T"]])
    s = CL[case["solver"]](torch.float64)
    s.min_factor, s.max_factor, s.safety = torch.tensor([case["lo"]]), torch.tensor([float(case["hi"])]), torch.tensor([case["sf"]])
    tol = 10. ** case["l"]
    odeint(f, x, ts, s, atol=tol, rtol=tol)
    for i, (a, b) in enumerate(zip(s.log, s.log[1:])):
        r = float((a["err"] / (tol + tol * torch.max(a["x"].abs(), a["xn"].abs()))).pow(2).mean().sqrt())
        q = b["dt"] / a["dt"]
        last = i + 2 == len(s.log)
        ctx.check(q <= case["hi"] * (1 + 1e-5), lambda: f"step size grew by {q} > {case['hi']}")
        if not last:
            ctx.check(q >= case["lo"] * (1 - 1e-5), lambda: f"step size shrank by {q} < {case['lo']}")
            if r < 1:
                ctx.check(q >= 1 - 1e-5, lambda: f"step size shrank by {q} after a step with scaled error {r}")
    ctx.nontrivial(len(s.log) >= 4)
    ctx.label("rejections" if any(b["t"] == a["t"] for a, b in zip(s.log, s.log[1:])) else "no-rejection")


@st.composite
def case_acc(draw):
    f = draw(gen.field(lip=1.))
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.grid(nmax=5, hmin=0.05, hmax=0.8)), solver=draw(st.sampled_from(["dopri5", "tsit5", "user"])),
                l=draw(st.sampled_from([-2, -3, -4, -5, -6, -7, -8, -9, -10, -11])), dtype=draw(gen.dtypes), interp=draw(st.booleans()),
                unit=draw(st.sampled_from([1., 1., 1., 2. ** -12, 2. ** 9])), xs=draw(st.sampled_from([1., 1., 1., 1e-3, 100.])))


def growth(spec, span):
    A = T(spec["A"])
    L = float(torch.linalg.matrix_norm(A, 2))
    if "B" in spec:
        L += float(torch.linalg.matrix_norm(T(spec["B"]), 2) * torch.linalg.matrix_norm(T(spec["C"]), 2))
    return 2.718 ** min(L * span, 12.)


@F.facet(case_acc(), quick=600, thorough=10000, shards=3)
def accuracy(case, ctx):
    dt = DT[case["dtype"]]
    l = max(case["l"], -5) if case["dtype"] == "f32" else case["l"]
    if case["solver"] == "user":
        l = max(l, -6)
    tol = 10. ** l
    u, xs = case.get("unit", 1.), case.get("xs", 1.)
    f, x, ts = Field(case["f"], dt), T(case["x"], dt) * xs, T(case["t"], dt)
    interp = "4th" if case["interp"] and case["solver"] == "dopri5" else None
    s = UserBS23(dt) if case["solver"] == "user" else case["solver"]
    _, sol = odeint(in_unit(f, u), x, ts * u, s, atol=tol, rtol=tol, interpolator=interp)
    ref = scipy_solve(Field(case["f"]), T(case["x"]) * xs, ts.double().tolist())
    G = growth(case["f"], abs(case["t"][-1] - case["t"][0]))
    scale = tol * (1 + float(ref.abs().max()))
    err = float((sol.double() - ref).abs().max())
    # local errors of the (at most ~100) accepted steps, amplified by the flow
    ctx.check(err <= 20 * scale * G, lambda: f"error {err:.3g} with tolerance {tol:g} (flow amplification {G:.2g})")
    ctx.nontrivial(20 * scale * G < 0.1 * float((ref[-1] - ref[0]).abs().max()))
    ctx.label(case["solver"], f"tol{l}", "tight" if err <= scale else ("loose" if err > 5 * scale else "mid"))


@st.composite
def case_mono(draw):
    f = draw(gen.field(lip=1.5))
    return dict(f=f, x=draw(gen.state(f["d"])), T=draw(gen.pos(1., 4.)), solver=draw(st.sampled_from(["dopri5", "tsit5"])))


@F.facet(case_mono(), quick=200, thorough=4000, shards=2)
def tighter_is_better(case, ctx):
    f, x = Field(case["f"]), T(case["x"])
    ts = [0., case["T"]]
    ref = scipy_solve(Field(case["f"]), x, ts)
    errs, nf = [], []
    for tol in (1e-3, 1e-6, 1e-9):
        g = Field(case["f"])
        errs.append(float((odeint(g, x, T(ts), case["solver"], atol=tol, rtol=tol)[1] - ref)[-1].abs().max()))
        nf.append(g.n)
    sc = 1 + float(ref.abs().max())
    for a, b, tol in zip(errs, errs[1:], (1e-6, 1e-9)):
        ctx.check(b <= a + 50 * tol * sc * growth(case["f"], case["T"]), lambda: f"errors {errs} at tolerances 1e-3, 1e-6, 1e-9")
    ctx.check(nf[0] <= nf[1] + 14 and nf[1] <= nf[2] + 14, lambda: f"{nf} field evaluations at tolerances 1e-3, 1e-6, 1e-9")
    ctx.nontrivial(errs[0] > 1e-7)


@st.composite
def case_hyb(draw):
    c = draw(case_hist())
    c["x"], c["dtype"] = draw(gen.vec(c["f"]["d"], -2, 2)), "f64"
    return c


@F.facet(case_hyb(), quick=200, thorough=4000)
def hybrid_accept_rule(case, ctx):
    "the same rule without events in the hybrid integrator, whose default tolerances are 1e-3"
    la, lr = case["la"], case["lr"]
    if case["solver"] == "user":
        la, lr = max(la, -5), max(lr, -5)
    x, ts = T(case["x"]), T(case["t"])
    f = disturbed(Field(case["f"]), case["kick"], (case["t"][0] + case["t"][-1]) / 2, 1e3)
    semi = (True, len(x) - 1) if case["semi"] and len(x) > 1 else (False, None)
    s = CL[case["solver"]](torch.float64)
    kw = dict(atol=10. ** la, rtol=10. ** lr) if case["interp"] else {}
    te, sol = odeint_hybrid(f, x, ts, 3, s, [], seminorm=semi, **kw)
    acc, accepted, rejected = check_log(ctx, s.log, x, ts, f, kw.get("atol", 1e-3), kw.get("rtol", 1e-3), semi, 1e-11, torch.float64)
    ctx.check(len(te) == len(acc) and all(torch.equal(a[1], b) for a, b in zip(acc, sol)), lambda: f"{len(acc) - 1} accepted steps but {len(te)} returned times")
    ctx.nontrivial(len(s.log) >= 4)
    ctx.label(case["solver"], "rejections" if rejected else "no-rejection", f"semi={semi[0]}", f"tol={'given' if kw else 'default'}")

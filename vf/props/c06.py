"""C06 integration backward in time mirrors integration forward"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, FieldModule, T, moves, scipy_solve, spec_time
from vf.solvers import UserBS23, UserHeun3
from torchdyn.numerics import odeint, odeint_symplectic
from torchdyn.core import NeuralODE, ODEProblem

F = core.Registry()
RULE = ("random time-dependent field, decreasing request times (often crossing zero), solver and options; non-trivial = the field depends on "
        "time and moves the state")
FIXED = ["euler", "midpoint", "rk4", "user3"]
ADAPT = ["dopri5", "tsit5", "user23"]


def make(name, dt):
    return {"user3": lambda: UserHeun3(dt), "user23": lambda: UserBS23(dt)}.get(name, lambda: name)()


@st.composite
def case_mirror(draw):
    f = draw(gen.field(time=draw(st.sampled_from([True, True, True, False]))))
    t = draw(gen.grid(nmax=7, reverse=True))
    return dict(f=f, x=draw(gen.state(f["d"])), t=t, dtype=draw(gen.dtypes), solver=draw(st.sampled_from(FIXED + ADAPT)),
                save=draw(st.lists(st.booleans(), min_size=len(t), max_size=len(t))), use_save=draw(st.booleans()),
                save_list=draw(st.booleans()), interp=draw(st.booleans()), all=draw(st.booleans()), l=draw(st.sampled_from([-3, -5, -7])),
                form=draw(st.sampled_from(["tensor", "tensor", "list"])))


@F.facet(case_mirror(), quick=1200, thorough=16000, shards=3)
def mirrored_field(case, ctx):
    dt = DT[case["dtype"]]
    f = Field(case["f"], dt)
    x, ts = T(case["x"], dt), T(case["t"], dt)
    kw, kwm = {}, {}
    l = max(case["l"], -5) if case["dtype"] == "f32" or case["solver"] == "user23" else case["l"]
    if case["solver"] in ADAPT:
        kw = dict(atol=10. ** l, rtol=10. ** l, return_all_eval=case["all"])
        if case["interp"] and case["solver"] == "dopri5":
            kw["interpolator"] = "4th"
        kwm = dict(kw)
    elif case["use_save"] and any(case["save"]):
        sv = ts[torch.tensor(case["save"])]
        kw["save_at"], kwm["save_at"] = (sv.tolist() if case["save_list"] else sv), -sv
    arg = [v for v in ts] if case["form"] == "list" else ts
    te, sol = odeint(f, x, arg, make(case["solver"], dt), **kw)
    g = Field(case["f"], dt)
    tm, solm = odeint(lambda t, y: -g(-t, y), x, -ts, make(case["solver"], dt), **kwm)
    eps = 2e-5 if case["dtype"] == "f32" else 1e-11
    ctx.close(te, -tm, 1e-6 if case["save_list"] else 0, 0, "returned times")
    ctx.check(bool((te[1:] < te[:-1]).all()), lambda: f"returned times {te.tolist()} are not decreasing")
    ctx.close(sol, solm, eps, eps, f"{case['solver']} solution over {ts.tolist()} against the mirrored field over {(-ts).tolist()}")
    ctx.nontrivial(spec_time(case["f"]) and moves(case["f"], case["x"]))
    ctx.label(case["solver"], *(k for k in kw if k not in ("atol", "rtol")), "crosses0" if case["t"][0] * case["t"][-1] < 0 else "one-sided")


@st.composite
def case_round(draw):
    f = draw(gen.field(lip=1.))
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.grid(nmax=5, hmax=0.4)), solver=draw(st.sampled_from(["dopri5", "tsit5", "rk4"])))


@F.facet(case_round(), quick=500, thorough=8000, shards=2)
def round_trip(case, ctx):
    from vf.props.c03 import growth
    x, ts = T(case["x"]), T(case["t"])
    if case["solver"] == "rk4":
        ts = torch.linspace(float(ts[0]), float(ts[-1]), 101).double()
    kw = dict(atol=1e-8, rtol=1e-8) if case["solver"] != "rk4" else {}
    _, a = odeint(Field(case["f"]), x, ts, case["solver"], **kw)
    _, b = odeint(Field(case["f"]), a[-1], ts.flip(0), case["solver"], **kw)
    G = growth(case["f"], 2 * abs(case["t"][-1] - case["t"][0]))
    ctx.close(b[-1], x, 0, 2e-6 * (1 + float(a.abs().max())) * min(G, 1e5), "state after integrating forth and back")
    ref = scipy_solve(Field(case["f"]), x, ts[[0, -1]].tolist())
    ctx.close(a[-1], ref[-1], 0, 2e-6 * (1 + float(ref.abs().max())) * min(G, 1e5), "end state")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label(case["solver"], "rev-first" if case["t"][-1] < case["t"][0] else "fwd-first")


@st.composite
def case_model(draw):
    f = draw(gen.field(d=2, time=True))
    return dict(f=f, x=draw(gen.batch(2)), t=draw(gen.grid(nmax=5, reverse=True)), solver=draw(st.sampled_from(["euler", "rk4", "dopri5", "tsit5"])),
                sens=draw(st.sampled_from(["autograd", "adjoint"])), model=draw(st.sampled_from(["NeuralODE", "ODEProblem"])),
                order2=draw(st.booleans()))


@F.facet(case_model(), quick=200, thorough=3000)
def models(case, ctx):
    x, ts = T(case["x"]), T(case["t"])
    cls = NeuralODE if case["model"] == "NeuralODE" else ODEProblem
    m = cls(FieldModule(case["f"]), solver=case["solver"], sensitivity=case["sens"], atol=1e-6, rtol=1e-6)
    te, sol = m(x, ts)
    ctx.check(te.tolist() == ts.tolist(), lambda: f"returned times {te.tolist()} instead of {ts.tolist()}")
    g = Field(case["f"])
    _, want = odeint(lambda t, y: -g(-t, y), x, -ts, case["solver"], atol=1e-6, rtol=1e-6)
    ctx.close(sol, want, 1e-6, 1e-6, f"{case['model']} solution over decreasing times")
    if cls is NeuralODE:
        ctx.close(m.trajectory(x, ts), want, 1e-6, 1e-6, "trajectory over decreasing times")
    ctx.nontrivial(spec_time(case["f"]))
    ctx.label(case["model"], case["sens"], case["solver"])


@st.composite
def case_sym(draw):
    f = draw(gen.field(d=draw(st.integers(1, 2)), time=True))
    t = draw(gen.grid(nmax=6, reverse=True))
    return dict(f=f, x=draw(gen.batch(2 * f["d"])), t=t, save=draw(st.lists(st.booleans(), min_size=len(t), max_size=len(t))), use_save=draw(st.booleans()))


@F.facet(case_sym(), quick=150, thorough=2500)
def symplectic(case, ctx):
    class Sys:
        order = 1
        def __init__(self, fn):
            self.fn = fn
        def __call__(self, t, x):
            return self.fn(t, x)
    f, x, ts = Field(case["f"]), T(case["x"]), T(case["t"])
    kw = {}
    if case["use_save"] and any(case["save"]):
        kw["save_at"] = ts[torch.tensor(case["save"])]
    te, sol = odeint_symplectic(Sys(f), x, ts, "alf", **kw)
    if kw:
        _, full = odeint_symplectic(Sys(f), x, ts, "alf")
        ctx.check(te.tolist() == kw["save_at"].tolist(), lambda: f"returned times {te.tolist()} instead of {kw['save_at'].tolist()}")
        ctx.close(sol, full[torch.tensor(case["save"])], 1e-12, 1e-12, "saved values")
    else:
        ctx.check(te.tolist() == ts.tolist(), lambda: f"returned times {te.tolist()} instead of {ts.tolist()}")
        # positions of the mirrored problem; velocities w.r.t. mirrored time have the opposite sign
        flip = torch.ones(x.shape[-1], dtype=x.dtype)
        flip[x.shape[-1] // 2:] = -1
        _, want = odeint_symplectic(Sys(lambda t, y: -f(-t, y)), x * flip, -ts, "alf")
        ctx.close(sol, want * flip, 1e-11, 1e-11, "symplectic solution over decreasing times")
    ctx.nontrivial(spec_time(case["f"]))


@st.composite
def case_args(draw):
    f = draw(gen.field(time=True))
    return dict(f=f, x=draw(gen.state(f["d"])), t=draw(gen.grid(nmax=5, reverse=True)), c=draw(gen.num(-2, 2)))


@F.facet(case_args(), quick=150, thorough=2000)
def extra_arguments(case, ctx):
    "extra arguments that a stepping rule passes to the field are passed on unchanged over decreasing times"
    class ArgsEuler(UserHeun3):
        def step(self, f, x, t, dt, k1=None, args=None):
            return None, x + dt * f(t, x, args=args), None
    f, x, ts = Field(case["f"]), T(case["x"]), T(case["t"])
    seen = []

    def vf(t, y, args=None):
        seen.append((args or {}).get("c"))
        return f(t, y) * args["c"]
    _, sol = odeint(vf, x, ts, ArgsEuler(torch.float64), args={"c": case["c"]})
    ref = [x]
    for i in range(len(ts) - 1):
        ref.append(ref[-1] + (ts[i + 1] - ts[i]) * f(ts[i], ref[-1]) * case["c"])
    ctx.close(sol, torch.stack(ref), 1e-11, 1e-11, "solution with extra arguments over decreasing times")
    ctx.check(all(s == case["c"] for s in seen), "the field received other extra arguments")
    ctx.nontrivial(case["c"] not in (0, 1))

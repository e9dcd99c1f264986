"""C09 model classes compute what the functional integrator computes"""
import torch
import torch.nn as nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, FieldModule, T, fine_solve, moves, rk_solve, spec_time
from vf.solvers import UserBS23, UserHeun3
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_mshooting
from torchdyn.numerics.solvers import ode as S
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingLayer

F = core.Registry()
RULE = ("random field wrapped as one of 18 callable kinds (functions, lambdas, callable objects, modules; with or without time / args / optional / keyword "
        "arguments), random solver name, alias or object, sensitivity, interpolator, tolerances with atol != rtol, grid and direction; non-trivial = "
        "the field moves the state and three or more times are requested, or the option under test is not the default")
SENS = ["autograd", "adjoint", "interpolated_adjoint"]
ALIASES = [("rk4", "rk-4", "RungeKutta4"), ("dopri5", "DormandPrince45", "DormandPrince5"), ("tsit5", "Tsitouras45", "Tsitouras5"),
           ("ieuler", "implicit_euler"), ("euler",), ("midpoint",)]
CLASSES = dict(rk4=S.RungeKutta4, dopri5=S.DormandPrince45, tsit5=S.Tsitouras45, ieuler=S.ImplicitEuler, euler=S.Euler, midpoint=S.Midpoint)


class MX(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f


class M_x(MX):
    def forward(self, x): return self.f(torch.zeros(()), x)


class M_z(MX):
    def forward(self, z): return self.f(torch.zeros(()), z)


class M_tx(MX):
    def forward(self, t, x): return self.f(t, x)


class M_tz_args(MX):
    def forward(self, t, z, args={}): return self.f(t, z)


class M_kwonly(MX):
    def forward(self, t, x, *, args=None): return self.f(t, x)


class M_kwargs(MX):
    def forward(self, t, x, **kwargs): return self.f(t, x)


class M_x_opt(MX):
    def forward(self, x, scale=1.): return self.f(torch.zeros(()), x * scale)


class M_tx_opt(MX):
    def forward(self, t, x, scale=1.): return self.f(t, x * scale)


class CallObjX:
    def __init__(self, f): self.f = f
    def __call__(self, y): return self.f(torch.zeros(()), y)


class CallObj:
    def __init__(self, f): self.f = f
    def __call__(self, t, x): return self.f(t, x)


def wrap(kind, f):
    "returns (callable handed to the model, does it use time)"
    if kind == "func_tx":
        def g(t, x): return f(t, x)
        return g
    if kind == "func_args":
        def g(t, x, args={}): return f(t, x)
        return g
    if kind == "func_x":
        def g(x): return f(torch.zeros(()), x)
        return g
    if kind == "lambda_x": return lambda y: f(torch.zeros(()), y)
    if kind == "lambda_tx": return lambda t, y: f(t, y)
    if kind == "obj": return CallObj(f)
    if kind == "obj_x": return CallObjX(f)
    if kind == "lambda_x_opt": return lambda x, scale=1.: f(torch.zeros(()), x * scale)
    if kind == "func_x_opt":
        def g(x, k=1, *, scale=1.): return f(torch.zeros(()), x * scale * k)
        return g
    if kind == "func_tx_opt":
        def g(t, x, scale=1.): return f(t, x * scale)
        return g
    return dict(M_x_opt=M_x_opt, M_tx_opt=M_tx_opt, M_x=M_x, M_z=M_z, M_tx=M_tx, M_tz_args=M_tz_args, M_kwonly=M_kwonly, M_kwargs=M_kwargs)[kind](f)


KINDS = ["func_tx", "func_args", "func_x", "lambda_x", "lambda_tx", "obj", "M_x", "M_z", "M_tx", "M_tz_args", "M_kwonly", "M_kwargs",
         "obj_x", "lambda_x_opt", "func_x_opt", "func_tx_opt", "M_x_opt", "M_tx_opt"]
NOTIME = {"func_x", "lambda_x", "M_x", "M_z", "obj_x", "lambda_x_opt", "func_x_opt", "M_x_opt"}


def solver_obj(name, dt):
    return {"user": UserHeun3, "user-adaptive": UserBS23}.get(name, CLASSES.get(name))(dt)


@st.composite
def case_kind(draw):
    kind = draw(st.sampled_from(KINDS))
    f = draw(gen.field(d=2, time=False if kind in NOTIME else None))
    return dict(kind=kind, f=f, x=draw(gen.batch(2)), t=draw(gen.grid(nmax=6)), dtype=draw(gen.dtypes), params=draw(st.booleans()),
                solver=draw(st.sampled_from(["euler", "midpoint", "rk4", "dopri5", "tsit5", "user", "user-adaptive"])), sens=draw(st.sampled_from(SENS)),
                cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])), interp=draw(st.booleans()), by=draw(st.sampled_from(["object", "name"])),
                la=draw(st.integers(-6, -2)), lr=draw(st.integers(-6, -2)), grad=draw(st.booleans()))


@F.facet(case_kind(), quick=900, thorough=16000, shards=4)
def callable_kinds(case, ctx):
    "every callable kind: same times and values as odeint on the bare field with the same options, and close to a reference"
    dt = DT[case["dtype"]]
    name = case["solver"]
    if case["by"] == "name" and name.startswith("user"):
        name = "rk4"
    x, ts = T(case["x"], dt), torch.tensor(case["t"], dtype=dt)
    la, lr = (max(case["la"], -4), max(case["lr"], -4)) if dt == torch.float32 else (case["la"], case["lr"])
    atol, rtol = 10. ** la, 3 * 10. ** lr
    fixed = name in ("euler", "midpoint", "rk4", "user")
    interp = "4th" if case["interp"] and name == "dopri5" else None
    bare = Field(case["f"], dt)
    fm = FieldModule(case["f"], dt)
    g = wrap(case["kind"], fm if case["params"] and case["kind"].startswith("M") else (lambda t, x: bare(t, x)))
    # names are turned into single precision solvers by the model classes
    mk = lambda: solver_obj(name, dt if case["by"] == "object" else torch.float32)
    kw = dict(solver=mk() if case["by"] == "object" else name, atol=atol, rtol=rtol, sensitivity=case["sens"], interpolator=interp)
    m = NeuralODE(g, **kw) if case["cls"] == "NeuralODE" else ODEProblem(g, **kw)
    if case["grad"]:
        x.requires_grad_(True)
    te, sol = m(x, ts)
    al = case["sens"] == "interpolated_adjoint"
    te0, sol0 = odeint(Field(case["f"], dt), x.detach(), ts, mk(), atol=atol, rtol=rtol, interpolator=interp, return_all_eval=al)
    ctx.check(te.tolist() == te0.tolist(), lambda: f"times {te.tolist()} instead of {te0.tolist()}")
    tol = 1e-5 if dt == torch.float32 else 1e-10
    ctx.close(sol, sol0, tol, tol, f"{case['cls']} ({case['kind']}, {name}) against odeint")
    ref = rk_solve({"user": "heun3"}.get(name, name), Field(case["f"]), T(case["x"]), ts.double()) if fixed else \
        fine_solve(Field(case["f"]), T(case["x"]), ts.double(), 40)
    rows = sol if not al else sol[torch.tensor([te.tolist().index(v) for v in ts.tolist()])]
    acc = 1e-4 if fixed else 300 * (atol + rtol) + 1e-4
    ctx.close(rows, ref, acc, acc, f"{case['cls']} ({case['kind']}, {name}) against the reference solution")
    ctx.nontrivial(moves(case["f"], case["x"]) and len(ts) > 2)
    ctx.label(case["kind"], case["cls"], case["sens"], name, "time" if spec_time(case["f"]) else "autonomous")


@st.composite
def case_names(draw):
    f = draw(gen.field(d=2))
    al = draw(st.sampled_from(ALIASES))
    return dict(f=f, x=draw(gen.batch(2)), t=draw(gen.grid(nmax=4)), canon=al[0], alias=draw(st.sampled_from(al)),
                cls=draw(st.sampled_from(["NeuralODE", "ODEProblem", "odeint"])), dtype=draw(gen.dtypes))


@F.facet(case_names(), quick=300, thorough=4000)
def names_and_objects(case, ctx):
    "names, aliases and solver objects are interchangeable"
    dt = DT[case["dtype"]]
    x, ts = T(case["x"], dt), torch.tensor(case["t"], dtype=dt)
    outs = []
    for s in (case["alias"], CLASSES[case["canon"]](dt)):
        f = FieldModule(case["f"], dt)
        if case["cls"] == "odeint":
            outs.append(odeint(f, x, ts, s, atol=1e-3, rtol=1e-3))
        else:
            m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(f, solver=s, atol=1e-3, rtol=1e-3)
            ctx.check(isinstance(m.solver, CLASSES[case["canon"]]), f"solver {case['alias']!r} became {type(m.solver).__name__}")
            outs.append(m(x, ts))
    (t0, s0), (t1, s1) = outs
    ctx.check(t0.tolist() == t1.tolist(), "times differ between a solver name and the solver object")
    tol = 1e-5
    ctx.close(s0, s1, tol, tol, f"solver {case['alias']!r} against the object {CLASSES[case['canon']].__name__}")
    ctx.nontrivial(case["alias"] != case["canon"] or len(ts) > 2)
    ctx.label(case["alias"], case["cls"])


@st.composite
def case_def(draw):
    return dict(f=draw(gen.field(d=2)), f2=draw(gen.field(d=2)), x=draw(gen.batch(2)), t=draw(gen.grid(nmax=5)), t2=draw(gen.grid(nmax=4)),
                solver=draw(st.sampled_from(["euler", "rk4", "dopri5", "tsit5"])), sens=draw(st.sampled_from(["autograd", "adjoint"])),
                stored=draw(st.booleans()), given=draw(st.booleans()), ret=draw(st.booleans()), chain=draw(st.booleans()), save=draw(st.integers(0, 3)) == 0)


@F.facet(case_def(), quick=300, thorough=5000)
def intervals_and_chaining(case, ctx):
    "default interval, stored interval, time output off, chaining"
    x, ts, t2 = T(case["x"]), T(case["t"]), T(case["t2"])
    mk = lambda: CLASSES[case["solver"]](torch.float64)
    kw = dict(atol=1e-6, rtol=1e-6)
    m = NeuralODE(FieldModule(case["f"]), solver=mk(), sensitivity=case["sens"], return_t_eval=case["ret"] and not case["chain"], **kw)
    if case["stored"]:
        m.t_span = ts
    used = t2 if case["given"] else (ts if case["stored"] else torch.linspace(0, 1, 2))
    te0, s0 = odeint(Field(case["f"]), x, used, mk(), **kw)
    if case["chain"]:
        m2 = NeuralODE(FieldModule(case["f2"]), solver=mk(), return_t_eval=False, **kw)
        m2.t_span = t2
        out = nn.Sequential(m, nn.Tanh(), m2)(x) if not case["given"] else m2(torch.tanh(m(x, t2)))
        _, want = odeint(Field(case["f2"]), torch.tanh(s0), t2, mk(), **kw)
        ctx.close(out, want, 1e-9, 1e-9, "chained Neural ODEs")
    else:
        save = case["save"] and case["solver"] in ("euler", "rk4")       # adaptive solvers ignore save points
        keep = range(0, len(used), 2) if save else range(len(used))
        opt = dict(save_at=used[::2].clone()) if save else {}
        out = m(x, used, **opt) if case["given"] else m(x, **opt)
        used, s0 = used[list(keep)], s0[list(keep)]
        if case["ret"]:
            ctx.check(isinstance(out, tuple) and len(out) == 2, "forward does not return (times, solution)")
            ctx.close(out[0], used, 0, 1e-7, "returned times")
            out = out[1]
        ctx.check(torch.is_tensor(out), "time output is switched off but forward does not return a tensor")
        ctx.close(out, s0, 1e-9, 1e-9, "forward on the " + ("given" if case["given"] else "stored" if case["stored"] else "default") + " interval")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label(f"stored={case['stored']}", f"given={case['given']}", f"chain={case['chain']}")


@st.composite
def case_traj(draw):
    return dict(f=draw(gen.field(d=2)), x=draw(gen.batch(2)), t=draw(gen.grid(nmax=6)), solver=draw(st.sampled_from(["euler", "rk4", "dopri5", "tsit5"])),
                sens=draw(st.sampled_from(SENS)), la=draw(st.integers(-7, -2)), lr=draw(st.integers(-7, -2)), stored=draw(st.booleans()))


@F.facet(case_traj(), quick=300, thorough=5000)
def trajectories(case, ctx):
    "trajectory(x, t_span) is the solution of forward(x, t_span) at t_span"
    x, ts = T(case["x"]), T(case["t"])
    m = NeuralODE(FieldModule(case["f"]), solver=CLASSES[case["solver"]](torch.float64), sensitivity=case["sens"], atol=10. ** case["la"], rtol=3 * 10. ** case["lr"])
    if case["stored"]:
        m.t_span = torch.linspace(0, 3, 4).double()
    te, sol = m(x, ts)
    tr = m.trajectory(x, ts)
    ctx.check(torch.is_tensor(tr) and tr.shape[0] == len(ts), lambda: f"trajectory of shape {tuple(tr.shape)} for {len(ts)} times")
    rows = sol[torch.tensor([te.tolist().index(v) for v in ts.tolist()])]
    ctx.close(tr, rows, 1e-9, 1e-9, f"trajectory against forward ({case['sens']})")
    ctx.nontrivial(moves(case["f"], case["x"]) and len(ts) > 2)
    ctx.label(case["sens"], case["solver"])


class ArgsHeun(UserHeun3):
    "hands its arguments to the vector field"
    def step(self, f, x, t, dt, k1=None, args=None):
        self.calls.append(args)
        k1 = f(t, x, args=args)
        k2 = f(t + dt, x + dt * k1, args=args)
        return None, x + dt / 2 * (k1 + k2), None


@st.composite
def case_args(draw):
    return dict(f=draw(gen.field(d=2)), x=draw(gen.batch(2)), t=draw(gen.grid(nmax=5)), c=draw(gen.num(-2, 2)), key=draw(st.sampled_from(["u", "k", "c", "t", "x", "args", "f", "dt"])),
                kind=draw(st.sampled_from(["func", "func_kwonly", "func_kwargs", "obj", "M_args", "M_kwonly", "M_kwargs"])), api=draw(st.sampled_from(["odeint", "NeuralODE", "ODEProblem", "vf"])),
                order=draw(st.sampled_from([1, 1, 2])), give=draw(st.integers(0, 4)) > 0)


@F.facet(case_args(), quick=300, thorough=4000)
def extra_arguments(case, ctx):
    "extra arguments reach the solver step and the vector field unchanged"
    x, ts = T(case["x"]), T(case["t"])
    spec = case["f"]
    seen = []
    key, c = case["key"], case["c"]
    base = Field(spec)
    order = case["order"] if case["api"] == "NeuralODE" or case["api"] == "vf" else 1

    def rhs(t, x, args):
        seen.append(args)
        cc = (args or {}).get(key, 0.)
        y = base(t, x[..., -2:]) + cc
        return y

    def func(t, x, args={}): return rhs(t, x, args)

    def func_kwonly(t, x, *, args=None): return rhs(t, x, args)

    def func_kwargs(t, x, **kw): return rhs(t, x, kw.get("args"))

    class Obj:
        def __call__(self, t, x, args={}): return rhs(t, x, args)

    class A(nn.Module):
        def forward(self, t, x, args={}): return rhs(t, x, args)

    class K(nn.Module):
        def forward(self, t, x, *, args=None): return rhs(t, x, args)

    class KW(nn.Module):
        def forward(self, t, x, **kw): return rhs(t, x, kw.get("args"))
    g = dict(func=func, func_kwonly=func_kwonly, func_kwargs=func_kwargs, obj=Obj(), M_args=A(), M_kwonly=K(), M_kwargs=KW())[case["kind"]]
    if order == 2:
        x = torch.cat([x, .5 * x], -1)
    args = {key: c, "other": [1, 2]}
    kw = dict(args=args) if case["give"] else {}
    cc = c if case["give"] else 0.
    if order == 1:
        full = lambda t, x: base(t, x) + cc
    else:
        full = lambda t, x: torch.cat([x[..., 2:], base(t, x[..., 2:]) + cc], -1)
    s = ArgsHeun(torch.float64)
    if case["api"] == "vf":
        m = NeuralODE(g, solver=s, order=order)
        ctx.close(m.vf(ts[0], x, **kw), full(ts[0], x), 1e-12, 1e-12, "vector field of the model with extra arguments")
    else:
        if case["api"] == "odeint":
            te, sol = odeint(g, x, ts, s, **kw)
        else:
            m = NeuralODE(g, solver=s, order=order) if case["api"] == "NeuralODE" else ODEProblem(g, solver=s)
            te, sol = m(x, ts, **kw)
        want = [x]
        for i in range(len(ts) - 1):
            h = ts[i + 1] - ts[i]
            k1 = full(ts[i], want[-1])
            k2 = full(ts[i + 1], want[-1] + h * k1)
            want.append(want[-1] + h / 2 * (k1 + k2))
        ctx.close(sol, torch.stack(want), 1e-11, 1e-11, f"{case['api']} with extra arguments {args if case['give'] else None}")
        if case["give"]:
            ctx.check(all(a == args for a in s.calls), lambda: f"the solver step received {s.calls[0]!r} instead of {args!r}")
    if case["give"]:
        ctx.check(all(a == args for a in seen), lambda: f"the vector field received {[a for a in seen if a != args][0]!r} instead of {args!r}")
        ctx.check(args == {key: c, "other": [1, 2]}, "the extra arguments were modified")
    ctx.nontrivial(case["give"] and abs(c) > 1e-3)
    ctx.label(case["kind"], case["api"], f"order{order}", f"given={case['give']}")


@st.composite
def case_ms(draw):
    kind = draw(st.sampled_from(["func_tx", "func_x", "lambda_x", "M_x", "M_tx", "M_tz_args"]))
    return dict(kind=kind, f=draw(gen.field(d=2, time=False)), x=draw(gen.batch(2)), t=draw(gen.grid(nmin=3, nmax=6, uniform=True, reverse=False)),
                solver=draw(st.sampled_from(["mszero", "zero", "parareal", "msbackward", "backward", "discrete-adjoint"])),
                fine=draw(st.integers(1, 4)), it=draw(st.integers(0, 4)))


@F.facet(case_ms(), quick=100, thorough=1500)
def multiple_shooting_layer(case, ctx):
    x, ts = T(case["x"]), T(case["t"])
    layer = MultipleShootingLayer(wrap(case["kind"], Field(case["f"])), case["solver"], fine_steps=case["fine"], maxiter=case["it"])
    te, sol = layer(x, ts)
    t0, s0 = odeint_mshooting(Field(case["f"]), x, ts, case["solver"], fine_steps=case["fine"], maxiter=case["it"])
    ctx.check(te.tolist() == t0.tolist(), "times differ")
    ctx.close(sol, s0, 1e-10, 1e-10, f"MultipleShootingLayer({case['solver']}) against odeint_mshooting")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label(case["solver"], case["kind"])

"""C15 symplectic integration is the asynchronous leapfrog map"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, FieldModule, T, moves, rk_solve, rtol, scipy_solve, spec_time
from torchdyn.numerics.odeint import odeint_symplectic
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, str_to_solver

F = core.Registry()
RULE = ("random position fields (linear, neural, time-dependent), state = position and velocity of 2-6 dimensions, batches, random grids of both directions, "
        "both dtypes, solver by name or object; non-trivial = field acts on the position, the velocity is not the trivial one and there are at least two steps")
ASSUMPTIONS = ["fixed steps: the adaptive variant of the method gives no usable error estimate and is not usable through the integrator"]
D = torch.float64


def alf(f, xv, ts):
    d = xv.shape[-1] // 2
    out = [xv]
    for i in range(len(ts) - 1):
        h, x, v = ts[i + 1] - ts[i], out[-1][..., :d], out[-1][..., d:]
        xm = x + h / 2 * v
        w = 2 * f(ts[i] + h / 2, xm) - v
        out.append(torch.cat([xm + h / 2 * w, w], -1))
    return torch.stack(out)


class PosField(Field):
    order = 1


class PosModule(FieldModule):
    order = 1


def solver(case):
    return {"alf": "alf", "AsynchronousLeapfrog": "AsynchronousLeapfrog", "object": AsynchronousLeapfrog(dtype=DT[case["dtype"]]),
            "object32": AsynchronousLeapfrog(), "str": str_to_solver("alf", DT[case["dtype"]])}[case["solver"]]


SOLVERS = ["alf", "AsynchronousLeapfrog", "object", "object32", "str"]


@st.composite
def case_map(draw):
    d = draw(st.integers(1, 3))
    return dict(f=draw(gen.field(d=d)), x=draw(gen.state(2 * d)), t=draw(gen.grid(nmin=2, nmax=8)), dtype=draw(gen.dtypes), solver=draw(st.sampled_from(SOLVERS)),
                save=draw(st.lists(st.integers(0, 7), max_size=3, unique=True)))


def setup(case):
    return PosField(case["f"], case["dtype"]), T(case["x"], case["dtype"]), T(case["t"], case["dtype"])


def nontriv(case):
    xv = T(case["x"])
    d = xv.shape[-1] // 2
    return moves(case["f"], xv[..., :d].tolist()) and float((xv[..., d:] - Field(case["f"]).eval(T(case["t"][0]), xv[..., :d])).abs().max()) > 1e-3 and len(case["t"]) > 2


def labels(ctx, case):
    ctx.label(case["dtype"], case["solver"], "rev" if case["t"][-1] < case["t"][0] else "fwd", f"dim{torch.tensor(case['x']).dim()}",
              "time" if spec_time(case["f"]) else "autonomous")


@F.facet(case_map(), quick=600, thorough=12000)
def leapfrog_map(case, ctx):
    "every returned state is the textbook drift, reflect, drift recurrence"
    f, xv, ts = setup(case)
    keep = xv.clone()
    te, sol = odeint_symplectic(f, xv, ts, solver(case))
    want = alf(PosField(case["f"]), xv.double(), ts.double())
    ctx.check(te.tolist() == ts.tolist(), "times differ from the requested ones")
    ctx.check(sol.dtype == DT[case["dtype"]], f"dtype {sol.dtype}")
    k = 3 ** len(ts) if case["dtype"] == "f32" else 10
    ctx.close(sol, want, rtol(case["dtype"], k), rtol(case["dtype"], k), "asynchronous leapfrog solution")
    ctx.check(f.n <= 2 * len(ts) + 2, f"{f.n} evaluations of the field for {len(ts) - 1} steps")
    ctx.check(torch.equal(keep, xv), "the initial condition was modified")
    s = [i for i in case["save"] if i < len(ts)]
    if s:
        tb, sub = odeint_symplectic(PosField(case["f"], case["dtype"]), xv, ts, solver(case), save_at=ts[s])
        ctx.check(tb.tolist() == ts[s].tolist() and torch.equal(sub, sol[s]), f"save_at {s}: times {tb.tolist()} or states differ from the full solution")
    ctx.nontrivial(nontriv(case))
    labels(ctx, case)


@F.facet(case_map(), quick=300, thorough=6000)
def reversible(case, ctx):
    "integrating the last state back over the reversed times retraces all states to rounding"
    f, xv, ts = setup(case)
    _, sol = odeint_symplectic(f, xv, ts, solver(case))
    _, back = odeint_symplectic(f, sol[-1], ts.flip(0), solver(case))
    k = 10 ** 2 * 3 ** len(ts)
    ctx.close(back.flip(0), sol, rtol(case["dtype"], k) * (1 if case["dtype"] == "f64" else .05), rtol(case["dtype"], k) * (1 if case["dtype"] == "f64" else .05),
              "integration forward and back")
    ctx.nontrivial(nontriv(case))
    labels(ctx, case)


@st.composite
def case_vol(draw):
    d = draw(st.integers(1, 3))
    return dict(f=draw(gen.field(d=d)), x=draw(gen.vec(2 * d, -2, 2)), t=draw(gen.grid(nmin=2, nmax=5)), dtype="f64", solver=draw(st.sampled_from(["alf", "object"])))


@F.facet(case_vol(), quick=200, thorough=3000)
def volume(case, ctx):
    "the Jacobian of the integrated map has determinant of modulus one"
    f, xv, ts = setup(case)
    J = torch.autograd.functional.jacobian(lambda y: odeint_symplectic(f, y, ts, solver(case))[1][-1], xv)
    d = len(case["x"]) // 2
    want = (-1.) ** (d * (len(ts) - 1))
    ctx.close(torch.linalg.det(J), torch.tensor(want, dtype=D), 0, 1e-7 * (1 + float(J.abs().max()) ** (2 * d)), "determinant of the Jacobian of the flow map")
    ctx.nontrivial(any(abs(v) > 1e-3 for r in case["f"]["A"] for v in r) and len(ts) > 2)
    labels(ctx, case)


@st.composite
def case_grad(draw):
    d = draw(st.integers(1, 2))
    t = draw(gen.grid(nmin=2, nmax=5))
    return dict(f=draw(gen.field(d=d)), x=draw(gen.batch(2 * d)), t=t, dtype="f64", solver=draw(st.sampled_from(["alf", "object"])), w=draw(gen.mat(len(t), 2 * d, -1, 1)))


@F.facet(case_grad(), quick=150, thorough=2000)
def gradients(case, ctx):
    "gradients with respect to state and parameters are those of the recurrence"
    fm, rm, x, ts = PosModule(case["f"]), PosModule(case["f"]), T(case["x"]), T(case["t"])
    xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    la = (odeint_symplectic(fm, xa, ts, solver(case))[1] ** 2 * T(case["w"])[:, None]).sum()
    lb = (alf(rm, xb, ts) ** 2 * T(case["w"])[:, None]).sum()
    ga = torch.autograd.grad(la, [xa] + list(fm.parameters()), allow_unused=True)
    gb = torch.autograd.grad(lb, [xb] + list(rm.parameters()), allow_unused=True)
    big = max([1.] + [float(b.abs().max()) for b in gb if b is not None])
    for n, a, b in zip(["x0"] + [n for n, _ in rm.named_parameters()], ga, gb):
        ctx.check((a is None) == (b is None), f"gradient of {n}: {a} instead of {b}")
        if a is not None:
            ctx.close(a, b, 0, 1e-9 * big, f"gradient of {n}")
    ctx.nontrivial(nontriv(case))
    labels(ctx, case)


@st.composite
def case_order(draw):
    d = draw(st.integers(1, 2))
    return dict(f=draw(gen.field(d=d)), x=draw(gen.batch(d, bmax=2)), t0=draw(gen.num(-1, 1)), T=draw(gen.pos(.5, 1.)) * draw(st.sampled_from([1, -1])))


@F.facet(case_order(), quick=120, thorough=1500)
def second_order(case, ctx):
    "started with its own velocity the method converges with order two in both time directions"
    f, x = PosField(case["f"], cap=10 ** 7), T(case["x"])
    t0, t1 = case["t0"], case["t0"] + case["T"]
    xv = torch.cat([x, f(T(t0), x)], -1)
    coarse = torch.linspace(t0, t1, 9, dtype=D)
    ref = scipy_solve(lambda t, y: f(t, y), x, coarse.tolist())
    d, err = x.shape[-1], []
    for n in (8, 32, 128):
        sol = odeint_symplectic(f, xv, torch.linspace(t0, t1, n + 1, dtype=D), "alf")[1][::n // 8, ..., :d]
        err.append(float((sol - ref).abs().max()))
    ctx.check(err[2] <= err[1] / 8 + 2e-6 and err[2] <= err[0] / 40 + 2e-6, f"errors with 8, 32, 128 steps {err}: not second order")
    ctx.nontrivial(err[0] > 1e-4)
    ctx.label("rev" if case["T"] < 0 else "fwd")


@st.composite
def case_step(draw):
    d = draw(st.integers(1, 3))
    return dict(f=draw(gen.field(d=d)), x=draw(gen.state(2 * d)), t=draw(gen.num(-2, 2)), h=draw(gen.num(-.5, .5)), adaptive=draw(st.booleans()))


@F.facet(case_step(), quick=200, thorough=3000)
def single_step(case, ctx):
    "the step function itself, with fixed or adaptive stepping class, in both directions"
    f, xv, t, h = PosField(case["f"]), T(case["x"]), T(case["t"]), T(case["h"])
    s = AsynchronousLeapfrog(stepping_class="adaptive" if case["adaptive"] else "fixed", dtype=D)
    out = s.step(f, xv, t, h)[1]
    ctx.close(out, alf(f, xv, torch.stack([t, t + h]))[-1], 1e-12, 1e-12, "one leapfrog step")
    back = s.step(f, out, t + h, -h)[1]
    ctx.close(back, xv, 1e-10, 1e-10, "step and step back")
    ctx.nontrivial(abs(case["h"]) > .01)


class SecondField(PosField):
    order = 2

    def __call__(self, t, x, args=None):
        # defined for the times of the problem only
        self.lo, self.hi = min(getattr(self, "lo", float(t)), float(t)), max(getattr(self, "hi", float(t)), float(t))
        return super().__call__(t, x)


@st.composite
def case_second(draw):
    d = draw(st.integers(1, 2))
    return dict(f=draw(gen.field(d=2 * d)), x=draw(gen.batch(2 * d)), t=draw(gen.grid(nmin=2, nmax=6)), solver=draw(st.sampled_from(["euler", "midpoint", "rk4", "dopri5", "tsit5", "dopri5", "tsit5"])),
                every=draw(st.booleans()), l=draw(st.integers(-8, -3)), lr=draw(st.integers(-8, -3)))


@F.facet(case_second(), quick=200, thorough=3000)
def ordinary_solvers(case, ctx):
    "fields declared to be of second order are integrated with the ordinary solvers, over the given times, in both directions"
    f, x, ts = SecondField(case["f"]), T(case["x"]), T(case["t"])
    fixed = case["solver"] in ("euler", "midpoint", "rk4")
    te, sol = odeint_symplectic(f, x, ts, str_to_solver(case["solver"], D), atol=10. ** case["l"], rtol=10. ** case["lr"], return_all_eval=case["every"])
    tl = te.tolist()
    ctx.check([t for t in tl if t in ts.tolist()] == ts.tolist(), lambda: f"times {tl} for {ts.tolist()}")
    back = ts[-1] < ts[0]
    ctx.check(all((a > b) if back else (a < b) for a, b in zip(tl, tl[1:])), lambda: f"times {tl} are not in the order of the problem")
    ctx.check(len(sol) == len(te) and (case["every"] or tl == ts.tolist()), lambda: f"{len(sol)} states at {tl} for requests {ts.tolist()}")
    # (the probe of the initial step size may reach beyond a short span)
    ctx.check(f.lo >= min(tl) - max(1., .01 * abs(tl[-1] - tl[0])) and f.hi <= max(tl) + max(1., .01 * abs(tl[-1] - tl[0])), f"field evaluated between {f.lo} and {f.hi}, times from {tl[0]} to {tl[-1]}")
    if fixed:
        ref, tol = rk_solve(case["solver"], Field(case["f"]), x, ts), 1e-10
    else:
        from vf.props.c03 import growth
        ref = scipy_solve(Field(case["f"]), x, tl)
        tol = 20 * len(tl) * (10. ** case["l"] + 10. ** case["lr"]) * (1 + float(ref.abs().max())) * growth(case["f"], abs(tl[-1] - tl[0]))
    ctx.close(sol, ref, tol, tol, f"{case['solver']} through the symplectic integrator")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label(case["solver"], "rev" if back else "fwd", "every step" if case["every"] else "requests")


@F.facet(case_step(), quick=60, thorough=200)
def refused(case, ctx):
    "fields without order, and second-order fields with this solver, are refused"
    f, xv = Field(case["f"]), T(case["x"])
    ts = T([0., .1])
    for g in ("missing", 2):
        if g == 2:
            f.order = 2
        try:
            odeint_symplectic(f, xv, ts, "alf")
        except RuntimeError:
            continue
        ctx.fail(f"a vector field with order {g} was accepted by the first-order symplectic method")
    ctx.nontrivial()

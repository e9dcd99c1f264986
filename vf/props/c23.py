"""C23 higher-order equations are integrated as their first-order form"""
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import Field, FieldModule, T, fine_solve, rk_solve
from vf.props.c10 import weights
from vf.props.c11 import WithUnused, loss_of
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.core.defunc import DEFunc
from torchdyn.core.utils import standardize_vf_call_signature
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import DormandPrince45, Euler, Midpoint, RungeKutta4, Tsitouras45

F = core.Registry()
RULE = ("orders 1-6, widths 1-3, fields of the full state of four call forms (with and without time and args), batches, directions, fixed and adaptive solvers, all "
        "sensitivity methods, integral losses; oracle: the explicit first-order system written out column by column; non-trivial = order above one and a field "
        "that depends on a derivative")
D = torch.float64


class Top(WithUnused):
    "field of the full state giving only the highest derivative (first `w` columns of a field over the full state)"
    def __init__(self, spec, w, gain=False):
        super().__init__(spec, "no")
        self.w, self.gain = w, gain

    def forward(self, t, x, args={}):
        y = super().forward(t, x)[..., :self.w]
        return y * args["k"] if self.gain else y


class TopX(torch.nn.Module):
    def __init__(self, top, time):
        super().__init__()
        self.top = top

    def forward(self, x):
        return self.top(torch.zeros((), dtype=x.dtype), x)


class TopTX(torch.nn.Module):
    def __init__(self, top, time):
        super().__init__()
        self.top = top

    def forward(self, t, x):
        return self.top(t, x)


def forms(top, kind):
    return {"t,x,args": lambda: top, "x": lambda: TopX(top, False), "t,x": lambda: TopTX(top, True), "lambda x": lambda: (lambda x: top(torch.zeros((), dtype=x.dtype), x)),
            "lambda t,x": lambda: (lambda t, x: top(t, x)), "lambda t,x,args": lambda: (lambda t, x, args={}: top(t, x))}[kind]()


def explicit(top, n, w, args={}):
    "the first-order system, column by column"
    def f(t, x):
        last = top(t, x, args) if args else top(t, x)
        cols = [x[:, j + w] if j < (n - 1) * w else last[:, j - (n - 1) * w] for j in range(n * w)]
        return torch.stack(cols, 1)
    return f


@st.composite
def base(draw, nmin=1, nmax=4, **kw):
    n, w = draw(st.integers(nmin, nmax)), draw(st.integers(1, 3))
    if n == nmax and nmax >= 4 and draw(st.booleans()):
        n = draw(st.integers(5, 6))
    if n * w > 6:
        w = 1
    t = draw(gen.grid(**dict(dict(nmin=2, nmax=5, hmax=.4), **kw)))
    return dict(n=n, w=w, f=draw(gen.field(d=n * w)), x=draw(gen.batch(n * w)), t=t)


def feels(case):
    "the field depends on a column beyond the variable itself"
    f, w = case["f"], case["w"]
    top = Top(f, w)
    x = T(case["x"])
    y = x.clone()
    y[:, w:] += 1.
    t = torch.tensor(.3, dtype=D)
    return case["n"] > 1 and float((top(t, x) - top(t, y)).abs().max()) > 1e-3


@st.composite
def case_vf(draw):
    return dict(draw(base()), kind=draw(st.sampled_from(["t,x,args", "x", "t,x", "lambda x", "lambda t,x", "lambda t,x,args"])), at=draw(gen.num(-2, 2)),
                via=draw(st.sampled_from(["DEFunc", "standardize"])), gain=draw(gen.num(-2, 2)), wild=draw(gen.batch(24, -1, 1, bmax=1)))


@F.facet(case_vf(), quick=500, thorough=8000)
def right_hand_side(case, ctx):
    "one evaluation: blocks shift, the last block is the field, args are passed on, evaluations counted"
    n, w, kind = case["n"], case["w"], case["kind"]
    top = Top(case["f"], w, gain=kind == "t,x,args")
    if kind == "t,x,args" and case["via"] == "DEFunc":
        fn = DEFunc(top, n)
    else:
        fn = standardize_vf_call_signature(forms(top, kind), n, defunc_wrap=True)
    x, t = T(case["x"]), torch.tensor(case["at"], dtype=D)
    args = {"k": case["gain"]}
    got = fn(t, x, args)
    want = explicit(top, n, w, args if top.gain else {})(t if "t" in kind else torch.zeros((), dtype=D), x)
    ctx.close(got, want, 1e-12, 1e-12, f"right-hand side of an order {n} equation of width {w}, field called as {kind}")
    ctx.check(fn.nfe == 1, f"{fn.nfe} evaluations counted for one call")
    ctx.nontrivial(feels(case))
    ctx.label(f"order{n}", f"width{w}", kind)


@st.composite
def case_solve(draw):
    return dict(draw(base()), kind=draw(st.sampled_from(["t,x,args", "x", "t,x", "lambda t,x", "lambda t,x,args"])), solver=draw(st.sampled_from(["euler", "midpoint", "rk4", "dopri5", "tsit5"])),
                cls=draw(st.sampled_from(["NeuralODE", "trajectory", "ODEProblem", "functional"])), save=draw(st.booleans()), f32=draw(st.integers(0, 4)) == 0)


SOLVERS = {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4, "dopri5": DormandPrince45, "tsit5": Tsitouras45}


@F.facet(case_solve(), quick=400, thorough=7000, shards=2)
def solutions(case, ctx):
    "every entry point integrates the explicit first-order system, in both directions"
    n, w, kind = case["n"], case["w"], case["kind"]
    dt = torch.float32 if case["f32"] else D
    top = Top(case["f"], w).to(dt)
    x, ts = T(case["x"], dt), T(case["t"], dt)
    solver, fixed = SOLVERS[case["solver"]](dt), case["solver"] in ("euler", "midpoint", "rk4")
    tol = 1e-5 if case["f32"] else 1e-9
    vf = forms(top, kind)
    if case["cls"] == "functional":
        te, sol = odeint(standardize_vf_call_signature(vf, n, defunc_wrap=True), x, ts, solver, atol=tol, rtol=tol)
    else:
        m = (ODEProblem if case["cls"] == "ODEProblem" else NeuralODE)(vf, order=n, solver=solver, atol=tol, rtol=tol)
        if case["cls"] == "trajectory":
            te, sol = ts, m.trajectory(x, ts)
        elif case["save"] and fixed:
            te, sol = m(x, ts, save_at=ts[1:])
        else:
            te, sol = m(x, ts)
    ref64 = Top(case["f"], w)
    time = (lambda f: f) if "t" in kind else (lambda f: lambda t, y: f(torch.zeros((), dtype=D), y))
    want = [rk_solve(case["solver"], time(explicit(ref64, n, w)), x.double(), ts.double())] if fixed else [fine_solve(time(explicit(ref64, n, w)), x.double(), ts.double(), 24)]
    want = want[0]
    if len(te) == len(ts) - 1:
        want = want[1:]
    eps = (3e-5 if case["f32"] else 1e-9) if fixed else (2e-4 if case["f32"] else 1e-5)
    ctx.close(sol.double(), want, eps, eps * 3, f"{case['cls']} of order {n}, width {w}, {case['solver']}, field called as {kind}")
    ctx.nontrivial(feels(case))
    ctx.label(f"order{n}", case["cls"], case["solver"], "rev" if case["t"][-1] < case["t"][0] else "fwd")


@st.composite
def case_grad(draw):
    c = draw(base(nmin=2, nmax=3))
    d = c["n"] * c["w"]
    return dict(c, w_=draw(weights(len(c["t"]), d)), v=draw(weights(len(c["t"]), d)), sens=draw(st.sampled_from(["autograd", "adjoint", "interpolated_adjoint"])),
                cls=draw(st.sampled_from(["NeuralODE", "NeuralODE", "ODEProblem"])), loss=draw(st.booleans()))


def running(t, x):
    return (x ** 2).sum(1) * (1. + .5 * torch.sin(t.reshape(())))


@F.facet(case_grad(), quick=110, thorough=2200, shards=4)
def gradients(case, ctx):
    "autograd, adjoint and interpolated adjoint of higher-order models, integral losses on the full state"
    n, w = case["n"], case["w"]
    wt = dict(w=case["w_"], v=case["v"])
    if case["sens"] == "interpolated_adjoint":       # this method returns all solver points: only the final state carries weight
        wt = dict(w=[case["w_"][-1]], v=[case["v"][-1]])
    integral = case["loss"] and case["cls"] == "NeuralODE"
    mk = dict(solver=DormandPrince45(D), atol=1e-8, rtol=1e-8)
    top, ref = Top(case["f"], w), Top(case["f"], w)
    x, ts = T(case["x"]), T(case["t"])
    m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(top, order=n, sensitivity=case["sens"], solver_adjoint=DormandPrince45(D), atol_adjoint=1e-8, rtol_adjoint=1e-8,
                                                               integral_loss=running if integral else None, **mk)
    xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    carried = integral and case["sens"] == "autograd"
    x_in = torch.cat([torch.zeros(len(x), 1, dtype=D), xa], 1) if carried else xa
    te, sol = m(x_in, ts)
    ell = None
    if carried:
        ell, sol = sol[-1, :, 0], sol[:, :, 1:]
    if case["sens"] == "interpolated_adjoint":
        te, sol = te[-1:], sol[-1:]
    L = loss_of(sol, te, wt)
    g = explicit(ref, n, w)
    aug = lambda t, y: torch.cat([running(t, y[:, 1:])[:, None], g(t, y[:, 1:])], 1)
    full = fine_solve(aug, torch.cat([torch.zeros(len(x), 1, dtype=D), xb], 1), ts, 16)
    s = full[:, :, 1:]
    if case["sens"] == "interpolated_adjoint":
        s = s[-1:]
    L0 = loss_of(s, ts, wt)
    if integral:
        L0 = L0 + full[-1, :, 0].sum()
    if ell is not None:
        L = L + ell.sum()
    scale = 1. + float(s.detach().abs().max()) ** 2
    ctx.close(L if not integral or carried else L0, L0, 0, 1e-5 * scale, "loss")
    pa, pb = list(top.parameters()), list(ref.parameters())
    ga = torch.autograd.grad(L, [xa] + pa, allow_unused=True)
    gb = torch.autograd.grad(L0, [xb] + pb, allow_unused=True)
    gb = [torch.zeros_like(p) if b is None else b for b, p in zip(gb, [xb] + pb)]
    big = 1. + max(float(b.abs().max()) for b in gb)
    for nm, a, b in zip(["x0"] + [k for k, _ in top.named_parameters()], ga, gb):
        a = torch.zeros_like(b) if a is None else a
        ctx.close(a, b, 0, (1e-5 if case["sens"] == "autograd" else 2e-3 if case["sens"] == "interpolated_adjoint" else 1e-4) * big,
                  f"gradient of {nm}, {case['cls']} of order {n}, {case['sens']}" + (", integral loss" if integral else ""))
    ctx.nontrivial(feels(case))
    ctx.label(f"order{n}", case["sens"], case["cls"], "integral" if integral else "terminal")

"""C11 adjoint sensitivities equal the true gradients"""
import torch
import torch.nn as nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import Field, FieldModule, T, fine_solve, moves, spec_time
from vf.solvers import UserBS23
from vf.props.c10 import weights
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import str_to_solver
from torchdyn.core import NeuralODE, ODEProblem

F = core.Registry()
RULE = ("random parametrised field (time-dependent half of the time), batch, grid in both directions, random weights over all returned times, forward "
        "and adjoint solvers as names or objects, tolerances; reference gradients (state, parameters, times) by differentiating a fine reference "
        "solution; non-trivial = the loss has weight on an intermediate time and the field depends on state")
ASSUMPTIONS = ["fields and intervals are non-stiff, so that integrating the state backwards in the adjoint pass is stable"]
D = torch.float64


class WithUnused(FieldModule):
    def __init__(self, spec, where):
        super().__init__(spec)
        if where == "last":
            self.zz = nn.Parameter(torch.ones(2, 3).double())
        elif where == "first":
            ps = list(self._parameters.items())
            self._parameters.clear()
            self._parameters["aa"] = nn.Parameter(torch.ones(3).double())
            for k, v in ps:
                self._parameters[k] = v


def loss_of(sol, te, case):
    w, v = T(case["w"]).unsqueeze(1), T(case["v"]).unsqueeze(1)
    L = (w * sol * sol).sum() + (v * sol).sum()
    if case.get("ct"):
        L = L + case["ct"] * (te * te).sum()
    return L


def reference(case, spec_module, ts, x, loss=loss_of, n=24):
    ts = ts.clone().requires_grad_(True)
    x = x.detach().clone().requires_grad_(True)
    ps = list(spec_module.parameters())
    L = loss(fine_solve(spec_module, x, ts, n), ts, case)
    g = torch.autograd.grad(L, [x, ts] + ps, allow_unused=True)
    return L.detach(), [torch.zeros_like(p) if a is None else a for a, p in zip(g, [x, ts] + ps)]


def mk(name):
    "a solver as a name or as an object"
    kind, s = name.split(":")
    if s == "bs23":
        return UserBS23(D)
    return s if kind == "n" else str_to_solver(s, D)


SOLVERS = ["n:dopri5", "n:tsit5", "o:dopri5", "o:tsit5"]


@st.composite
def case_adj(draw):
    f = draw(gen.field(d=2))
    t = draw(gen.grid(nmax=5, hmax=0.4))
    return dict(f=f, x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)), ct=draw(st.sampled_from([0, 0, 1.5])),
                solver=draw(st.sampled_from(SOLVERS + ["o:rk4", "o:bs23"])), adj=draw(st.sampled_from(SOLVERS + ["none", "o:bs23"])),
                la=draw(st.sampled_from([-8, -7, -6])), lf=draw(st.sampled_from([-8, -7, -6])), tgrad=draw(st.booleans()),
                unused=draw(st.sampled_from(["no", "no", "last", "first"])), cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])),
                interp=draw(st.integers(0, 5)) == 0)


@F.facet(case_adj(), quick=360, thorough=6000, shards=6)
def gradients(case, ctx):
    x, ts = T(case["x"]), T(case["t"])
    if case["solver"] == "o:rk4":          # fixed forward steps: a fine grid, weights on every eighth point
        k = 8
        ts = torch.cat([torch.linspace(float(a), float(b), k + 1).double()[:-1] for a, b in zip(ts, ts[1:])] + [ts[-1:]])
        for key in ("w", "v"):
            z = [[0., 0.] for _ in range(len(ts))]
            z[::k] = case[key]
            case[key] = z
    tf, ta = 10. ** case["lf"], 10. ** case["la"]
    if "bs23" in case["solver"] + case["adj"]:
        tf, ta = max(tf, 1e-6), max(ta, 1e-6)
    fm = WithUnused(case["f"], case["unused"])
    adj = None if case["adj"] == "none" else mk(case["adj"])
    interp = "4th" if case["interp"] and case["solver"].endswith("dopri5") else None
    if interp:
        tf = max(tf, 1e-7)
    kw = dict(solver=mk(case["solver"]), atol=tf, rtol=tf, sensitivity="adjoint", solver_adjoint=adj, atol_adjoint=ta, rtol_adjoint=ta, interpolator=interp)
    m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(fm, **kw)
    xg = x.clone().requires_grad_(True)
    tg = ts.clone().requires_grad_(case["tgrad"])
    te, sol = m(xg, tg)
    L = loss_of(sol, te, case)
    ps = list(fm.parameters())
    got = torch.autograd.grad(L, [xg] + ([tg] if case["tgrad"] else []) + ps, allow_unused=True)
    L0, want = reference(case, WithUnused(case["f"], case["unused"]), ts, x)
    if not case["tgrad"]:
        want = [want[0]] + want[2:]
    names = ["x0"] + (["t_span"] if case["tgrad"] else []) + [n for n, _ in fm.named_parameters()]
    scale = 1. + max(float(b.abs().max()) for b in want)
    acc = (200 * (tf + ta) + 1e-5) * scale
    if case["solver"] == "o:rk4" and case["adj"] == "none":
        acc = 1e-3 * scale
    ctx.close(L, L0, 0, acc, "loss")
    for n, a, b in zip(names, got, want):
        ctx.check(a is not None, f"no gradient of {n}")
        ctx.close(a, b, 0, acc, f"adjoint gradient of {n} (forward {case['solver']} tol {tf:g}, adjoint {case['adj']} tol {ta:g})")
    mid = any(any(abs(a) > 1e-9 for a in r) for r in case["w"][1:-1])
    ctx.nontrivial(mid and any(abs(a) > 1e-9 for r in case["f"]["A"] for a in r))
    ctx.label("rev" if ts[-1] < ts[0] else "fwd", case["solver"], "adj " + case["adj"], "time" if spec_time(case["f"]) else "autonomous",
              f"tgrad={case['tgrad']}", f"unused={case['unused']}")


@st.composite
def case_fwd(draw):
    f = draw(gen.field(d=2))
    return dict(f=f, x=draw(gen.batch(2)), t=draw(gen.grid(nmax=6)), solver=draw(st.sampled_from(["n:euler", "n:rk4", "n:dopri5", "n:tsit5", "o:rk4", "o:dopri5"])),
                adj=draw(st.sampled_from(SOLVERS)), logtol=draw(st.integers(-6, -2)), cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])), save=draw(st.booleans()),
                interp=draw(st.booleans()))


@F.facet(case_fwd(), quick=250, thorough=4000)
def forward_unchanged(case, ctx):
    "the forward result does not depend on the sensitivity method or on the adjoint options"
    x, ts = T(case["x"]), T(case["t"])
    outs = []
    for sens in ("autograd", "adjoint"):
        tol = 10. ** case["logtol"]
        m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(FieldModule(case["f"]), solver=mk(case["solver"]), atol=tol, rtol=3 * tol, sensitivity=sens,
                                                                      interpolator="4th" if case["interp"] else None,
                                                                      solver_adjoint=mk(case["adj"]), atol_adjoint=1e-2, rtol_adjoint=1e-2)
        outs.append(m(x.clone().requires_grad_(True), ts, **(dict(save_at=ts[::2]) if case["save"] and case["solver"][2:] in ("euler", "rk4") else {})))
    (t0, s0), (t1, s1) = outs
    ctx.check(t0.tolist() == t1.tolist(), lambda: f"times {t1.tolist()} with the adjoint method, {t0.tolist()} without")
    ctx.close(s1, s0, 1e-12, 1e-12, "forward values with the adjoint method")
    ctx.nontrivial(moves(case["f"], case["x"]) and len(ts) > 2)
    ctx.label(case["solver"])


@st.composite
def case_tol(draw):
    f = draw(gen.field(d=2, nonlinear=True))
    t = draw(gen.grid(nmin=2, nmax=4, hmin=0.3, hmax=0.6))
    return dict(f=f, x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)), sens="adjoint",
                by=draw(st.sampled_from(["atol", "rtol", "both"])))


def backward_steps(case, atol, rtol):
    adj = UserBS23(D)
    m = NeuralODE(FieldModule(case["f"]), solver=str_to_solver("dopri5", D), atol=1e-7, rtol=1e-7, sensitivity=case["sens"], solver_adjoint=adj,
                  atol_adjoint=atol, rtol_adjoint=rtol)
    x = T(case["x"]).requires_grad_(True)
    te, sol = m(x, T(case["t"]))
    rows = torch.tensor([te.tolist().index(v) for v in case["t"]])
    assert not adj.log
    loss_of(sol[rows], te, case).backward()
    return adj.log


@F.facet(case_tol(), quick=100, thorough=1500, shards=2)
def adjoint_options_used(case, ctx):
    "the adjoint solver takes the backward steps, all of them, within the adjoint tolerances"
    options_used(case, ctx)


def options_used(case, ctx):
    atol, rtol = {"atol": (1e-6, 0.), "rtol": (1e-9, 1e-5), "both": (1e-5, 1e-5)}[case["by"]]
    log = backward_steps(case, atol, rtol)
    ctx.check(len(log) > 0, "the adjoint solver was not used in the backward pass")
    nx = T(case["x"]).numel()
    k = 2 * nx if case["sens"] == "adjoint" else None

    def ratio(s):
        e = s["err"][:k] / (atol + rtol * torch.max(s["x"][:k].abs(), s["xn"][:k].abs()))
        return float(e.pow(2).mean().sqrt())
    accepted = [s for s, n in zip(log, log[1:]) if not torch.equal(n["x"], s["x"])] + log[-1:]
    bad = [ratio(s) for s in accepted if ratio(s) > 1 + 1e-6]
    # a step that leaves the state as it is cannot be told from a rejected one: only steps that advance are judged
    ctx.check(not bad, lambda: f"backward steps with error ratios {bad} w.r.t. the adjoint tolerances were accepted")
    loose = backward_steps(case, 1e-1, 1e-1)
    ctx.nontrivial(len(log) > len(loose))
    ctx.label(case["sens"], case["by"])


@st.composite
def case_fun(draw):
    t = draw(gen.grid(nmax=4, hmax=0.4))
    return dict(f=draw(gen.field(d=2)), x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)),
                sens=draw(st.sampled_from(["adjoint", "interpolated_adjoint", "autograd"])), cls=draw(st.sampled_from(["NeuralODE", "ODEProblem"])),
                extra=draw(st.booleans()), gen=draw(st.booleans()))


@F.facet(case_fun(), quick=150, thorough=2500, shards=2)
def optimizable_parameters(case, ctx):
    "functions without parameters of their own: gradients of the parameters named by the user, and of the state"
    x, ts = T(case["x"]), T(case["t"])
    own = FieldModule(case["f"])
    ps = list(own.parameters())

    def fun(t, x):
        return own(t, x)
    given = ps + ([nn.Parameter(torch.ones(2).double())] if case["extra"] else [])
    kw = dict(solver=str_to_solver("dopri5", D), atol=1e-7, rtol=1e-7, sensitivity=case["sens"], solver_adjoint="dopri5", atol_adjoint=1e-7, rtol_adjoint=1e-7,
              optimizable_params=(p for p in given) if case["gen"] else given)
    m = (NeuralODE if case["cls"] == "NeuralODE" else ODEProblem)(fun, **kw)
    xg = x.clone().requires_grad_(True)
    te, sol = m(xg, ts)
    rows = sol[torch.tensor([te.tolist().index(v) for v in ts.tolist()])]
    loss_of(rows, te, case).backward()
    L0, want = reference(case, own, ts, x)
    scale = 1. + max(float(b.abs().max()) for b in want)
    acc = (5e-4 if case["sens"] != "interpolated_adjoint" else 3e-2) * scale
    ctx.close(xg.grad, want[0], 0, acc, "gradient of the initial state")
    for (n, _), p, b in zip(own.named_parameters(), ps, want[2:]):
        ctx.close(torch.zeros_like(p) if p.grad is None else p.grad, b, 0, acc, f"gradient of the optimisable parameter {n} ({case['sens']})")
    ctx.nontrivial(moves(case["f"], case["x"]))
    ctx.label(case["sens"], case["cls"])


class Driven(nn.Module):
    "field without any dependence on the state, in the computational graph or otherwise"
    def __init__(self, spec):
        super().__init__()
        self.A, self.b = nn.Parameter(T(spec["b"])), nn.Parameter(T(spec["A"][0]))
        self.k = nn.Parameter(torch.tensor(.7, dtype=D))

    def forward(self, t, x, args={}):
        return (self.b * torch.cos(self.k * t) + self.A).expand_as(x)


class OnlyTime(nn.Module):
    "field with a parameter, but depending on neither state nor parameter"
    def __init__(self, spec):
        super().__init__()
        self.z = nn.Parameter(torch.ones(2, dtype=D))

    def forward(self, t, x, args={}):
        return torch.sin(t).expand_as(x) + 0 * self.z


@st.composite
def case_part(draw):
    f = draw(gen.field(d=2))
    t = draw(gen.grid(nmax=4, hmax=0.4))
    return dict(f=f, kind=draw(st.sampled_from(["field", "field", "driven", "time"])), x=draw(gen.batch(2)), t=t, w=draw(weights(len(t), 2)), v=draw(weights(len(t), 2)),
                frozen=draw(st.lists(st.integers(0, 9), max_size=8)), xgrad=draw(st.integers(0, 3)) > 0, sens=draw(st.sampled_from(["adjoint", "adjoint", "interpolated_adjoint"])),
                solver=draw(st.sampled_from(["o:dopri5", "o:tsit5"])))


@F.facet(case_part(), quick=160, thorough=3000, shards=3)
def partly_differentiable(case, ctx):
    "frozen parameters, fields that do not depend on the state, states that need no gradient: the remaining gradients are right"
    mkf = {"field": FieldModule, "driven": Driven, "time": OnlyTime}[case["kind"]]
    fm, fr = mkf(case["f"]), mkf(case["f"])
    names = [n for n, _ in fm.named_parameters()]
    frozen = {names[i % len(names)] for i in case["frozen"]}
    for m in (fm, fr):
        for n, p in m.named_parameters():
            p.requires_grad_(n not in frozen)
    if len(frozen) == len(names) and not case["xgrad"]:
        return
    x, ts = T(case["x"]), T(case["t"])
    wt = case
    if case["sens"] == "interpolated_adjoint":
        wt = dict(w=[case["w"][-1]], v=[case["v"][-1]])
    m = NeuralODE(fm, solver=mk(case["solver"]), atol=1e-8, rtol=1e-8, sensitivity=case["sens"], solver_adjoint=mk(case["solver"]), atol_adjoint=1e-8, rtol_adjoint=1e-8)
    xa, xb = x.clone().requires_grad_(case["xgrad"]), x.clone().requires_grad_(case["xgrad"])
    te, sol = m(xa, ts)
    ref = fine_solve(fr, xb, ts, 24)
    if case["sens"] == "interpolated_adjoint":
        te, sol, ref = te[-1:], sol[-1:], ref[-1:]
    L, L0 = loss_of(sol, te, wt), loss_of(ref, ts, wt)
    a = ([xa] if case["xgrad"] else []) + [p for p in fm.parameters() if p.requires_grad]
    b = ([xb] if case["xgrad"] else []) + [p for p in fr.parameters() if p.requires_grad]
    if not L0.requires_grad:
        return
    ga, gb = torch.autograd.grad(L, a, allow_unused=True), torch.autograd.grad(L0, b, allow_unused=True)
    gb = [torch.zeros_like(p) if v is None else v for v, p in zip(gb, b)]
    scale = 1. + max(float(v.abs().max()) for v in gb)
    for n, u, v in zip((["x0"] if case["xgrad"] else []) + [n for n in names if n not in frozen], ga, gb):
        u = torch.zeros_like(v) if u is None else u
        ctx.close(u, v, 0, (2e-3 if case["sens"] == "interpolated_adjoint" else 1e-4) * scale, f"gradient of {n} ({case['sens']}, {case['kind']} with frozen {sorted(frozen)})")
    ctx.nontrivial(bool(frozen) or case["kind"] != "field")
    ctx.label(case["sens"], case["kind"], f"frozen{len(frozen)}of{len(names)}")

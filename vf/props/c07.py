"""C07 save points select from the full solution and change nothing else"""
import torch
import torchsde
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, Field, FieldModule, T, moves
from vf.solvers import UserHeun3
from torchdyn.numerics import odeint, odeint_symplectic, sdeint
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.core.defunc import SDEFunc

F = core.Registry()
RULE = ("random field, grid (irregular, both directions), subset and order of save points as tensor, list or tuple; invalid requests are off-grid "
        "or repeated points; non-trivial = at least two grid points are not saved, or the order differs from the grid's")
SOLVERS = ["euler", "midpoint", "rk4", "user", "ieuler"]


@st.composite
def saves(draw, n):
    perm = draw(st.permutations(list(range(n))))
    k = draw(st.integers(1, n))
    idx = list(perm[:k])
    return sorted(idx) if draw(st.booleans()) else idx


@st.composite
def case_save(draw, rev=None):
    f = draw(gen.field())
    t = draw(gen.grid(nmin=2, nmax=9, reverse=rev))
    return dict(f=f, x=draw(gen.state(f["d"])), t=t, idx=draw(saves(len(t))), dtype=draw(gen.dtypes), solver=draw(st.sampled_from(SOLVERS)),
                form=draw(st.sampled_from(["tensor", "tensor", "list", "tuple"])))


def req(ts, idx, form):
    s = ts[torch.tensor(idx)]
    return s if form == "tensor" else (s.tolist() if form == "list" else tuple(s.tolist()))


def check(ctx, case, ts, te, sol, full, what=""):
    want = ts[torch.tensor(case["idx"])]
    ctx.check(te.shape == want.shape, lambda: f"{what}{len(te)} times for {len(want)} save points")
    if case["form"] == "tensor":
        ctx.check(te.tolist() == want.tolist(), lambda: f"{what}times {te.tolist()} instead of the save points {want.tolist()}")
    else:
        ctx.close(te, want, 1e-6, 1e-6, what + "times of the save points")
    ctx.close(sol, full[torch.tensor(case["idx"])], 1e-12, 1e-12, f"{what}values at save points {want.tolist()} of grid {ts.tolist()}")
    n = len(ts)
    ctx.nontrivial(n - len(case["idx"]) >= 2 or case["idx"] != sorted(case["idx"]))
    ctx.label(case["form"], "sorted" if case["idx"] == sorted(case["idx"]) else "shuffled", "rev" if ts[1] < ts[0] else "fwd")


@F.facet(case_save(), quick=1200, thorough=16000, shards=2)
def functional(case, ctx):
    dt = DT[case["dtype"]]
    x, ts = T(case["x"], dt), T(case["t"], dt)
    mk = lambda: UserHeun3(dt) if case["solver"] == "user" else case["solver"]
    if case["solver"] == "ieuler" and len(ts) > 4:
        ts, case["idx"] = ts[:4], [i for i in case["idx"] if i < 4] or [3]
    cap = 10 ** 7
    _, full = odeint(Field(case["f"], dt, cap), x, ts, mk())
    f = Field(case["f"], dt, cap)
    arg = req(ts, case["idx"], case["form"])
    keep = arg.clone() if torch.is_tensor(arg) else None
    te, sol = odeint(f, x, ts, mk(), save_at=arg)
    check(ctx, case, ts, te, sol, full)
    if keep is not None:
        ctx.check(torch.equal(keep, arg), "the save points were modified")
    ctx.label(case["solver"])


@st.composite
def case_bad(draw):
    c = draw(case_save())
    c["solver"] = draw(st.sampled_from(["euler", "rk4", "user"]))
    c["kind"] = draw(st.sampled_from(["between", "outside", "repeat", "shifted", "near", "near"]))
    c["off"] = draw(st.sampled_from([3e-4, 1e-3, -3e-4, -1e-3, 3e-3]))
    c["j"] = draw(st.integers(0, len(c["idx"]) - 1))
    c["api"] = draw(st.sampled_from(["odeint", "odeint", "NeuralODE", "sdeint"]))
    return c


@F.facet(case_bad(), quick=600, thorough=8000)
def invalid_requests(case, ctx):
    "off-grid and repeated save points are refused, never answered with another time's value"
    x, ts = T(case["x"]).reshape(-1, case["f"]["d"]), T(case["t"])
    s = ts[torch.tensor(case["idx"])].tolist()
    j = case["j"]
    if case["kind"] == "between":
        k = min(case["idx"][j], len(ts) - 2)
        s[j] = float(ts[k] + 0.4 * (ts[k + 1] - ts[k]))
    elif case["kind"] == "outside":
        s[j] = float(ts[-1] + 0.5 * (ts[-1] - ts[-2]))
    elif case["kind"] == "shifted":
        s[j] = s[j] + 0.01
    elif case["kind"] == "near":
        s[j] = s[j] + case["off"] * max(abs(s[j]), .01)
    else:
        s.insert(j, s[j])
    if case["kind"] in ("shifted", "near") and min(abs(s[j] - float(v)) / max(abs(float(v)), .01) for v in ts) < 2e-4:
        ctx.label("degenerate")
        return
    s = torch.tensor(s, dtype=torch.float64)
    mk = lambda: UserHeun3(torch.float64) if case["solver"] == "user" else case["solver"]
    try:
        if case["api"] == "odeint":
            r = odeint(Field(case["f"]), x, ts, mk(), save_at=s)
        elif case["api"] == "NeuralODE":
            r = NeuralODE(FieldModule(case["f"]), solver=mk())(x, ts, save_at=s)
        else:
            if ts[1] < ts[0]:
                ts = ts.flip(0)
            g = Field(case["f"])
            bm = torchsde.BrownianInterval(float(ts.min()), float(ts.max()), size=x.shape, dtype=torch.float64, entropy=3)
            r = sdeint(SDEFunc(lambda t, y: g(t, y), lambda t, y: 0 * y + 1., noise_type="diagonal", sde_type="ito"), x, ts, "euler", bm, save_at=s)
    except AssertionError:
        ctx.nontrivial()
        ctx.label(case["kind"], case["api"])
        return
    ctx.fail(f"save points {s.tolist()} on the grid {ts.tolist()} ({case['kind']}) were answered with times {r[0].tolist()}")


@st.composite
def case_model(draw):
    f = draw(gen.field(d=2))
    t = draw(gen.grid(nmin=3, nmax=6))
    return dict(f=f, x=draw(gen.batch(2)), t=t, idx=draw(saves(len(t))), form=draw(st.sampled_from(["tensor", "list"])),
                solver=draw(st.sampled_from(["euler", "midpoint", "rk4"])), sens=draw(st.sampled_from(["autograd", "adjoint", "interpolated_adjoint"])),
                model=draw(st.sampled_from(["NeuralODE", "ODEProblem"])), w=draw(gen.num(-2, 2)))


@F.facet(case_model(), quick=300, thorough=5000, shards=2)
def models(case, ctx):
    "every sensitivity method: saved values, and gradients equal to those through the same rows of the full solution"
    ts = T(case["t"])
    cls = NeuralODE if case["model"] == "NeuralODE" else ODEProblem
    out = []
    for save in (False, True):
        x = T(case["x"]).requires_grad_(True)
        fm = FieldModule(case["f"])
        m = cls(fm, solver=case["solver"], sensitivity=case["sens"], solver_adjoint="dopri5", atol_adjoint=1e-7, rtol_adjoint=1e-7)
        te, sol = m(x, ts, save_at=req(ts, case["idx"], case["form"])) if save else m(x, ts)
        rows = sol if save else sol[torch.tensor(case["idx"])]
        wts = torch.arange(1, len(case["idx"]) + 1).double().reshape(-1, 1, 1)
        loss = (wts * (rows * rows + case["w"] * rows)).sum()
        ps = [x] + list(m.vf.parameters())
        gr = torch.autograd.grad(loss, ps, allow_unused=True)
        out.append((te, sol, [g if g is not None else torch.zeros_like(p) for g, p in zip(gr, ps)]))
    (t0, full, g0), (te, sol, g1) = out
    check(ctx, case, ts, te, sol, full, f"{case['model']} ({case['sens']}): ")
    for a, b in zip(g0, g1):
        ctx.close(b, a, 1e-6, 1e-6, f"gradient with save points ({case['sens']})")
    ctx.label(case["sens"])


@st.composite
def case_sde(draw):
    f = draw(gen.field(d=2))
    t = draw(gen.grid(nmin=2, nmax=8, reverse=False))
    return dict(f=f, x=draw(gen.batch(2)), t=t, idx=draw(saves(len(t))), form=draw(st.sampled_from(["tensor", "list"])),
                solver=draw(st.sampled_from(["euler", "milstein_ito", "eulerHeun", "milstein_stratonovich"])), seed=draw(st.integers(0, 50)))


@F.facet(case_sde(), quick=300, thorough=5000)
def stochastic(case, ctx):
    x, ts = T(case["x"]), T(case["t"])
    ty = "ito" if case["solver"] in ("euler", "milstein_ito") else "stratonovich"

    def run(**kw):
        g = Field(case["f"])
        bm = torchsde.BrownianInterval(float(ts[0]), float(ts[-1]), size=x.shape, dtype=torch.float64, entropy=case["seed"])
        return sdeint(SDEFunc(lambda t, y: g(t, y), lambda t, y: 0.3 * y + 0.2, noise_type="diagonal", sde_type=ty), x, ts, case["solver"], bm, **kw)
    _, full = run()
    te, sol = run(save_at=req(ts, case["idx"], case["form"]))
    check(ctx, case, ts, te, sol, full, "sdeint: ")

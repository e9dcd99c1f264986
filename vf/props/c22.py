"""C22 state augmentation, depth concatenation and data control do only that"""
import torch
from torch import nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, T, fine_solve, rk_solve, rtol
from torchdyn.core import NeuralODE
from torchdyn.models.cnf import CNF
from torchdyn.nn import Augmenter, DataControl, DepthCat
from torchdyn.numerics.solvers.ode import DormandPrince45, Euler, Midpoint, RungeKutta4

DT = dict(DT, f16=torch.float16)
F = core.Registry()
RULE = ("tensors of 1-4 dimensions and any (also negative) concatenation dimension, zero to four augmented dimensions or augmenting functions; models whose networks mix "
        "depth concatenation and data control at random places, histories of 1-3 integrations with different batches, spans, directions, sensitivity methods, integral "
        "losses and density columns; non-trivial = the network reacts to time or control")
ASSUMPTIONS = ["adjoint gradients are taken before the next integration of the same model (the control is stored in the module, see the known finding)"]
D = torch.float64


@st.composite
def tensor_case(draw):
    nd = draw(st.integers(2, 4))
    shape = [draw(st.integers(1, 3)) for _ in range(nd)]
    return dict(shape=shape, idx=draw(st.integers(-nd, nd - 1)), a=draw(st.integers(0, 4)), order=draw(st.sampled_from(["first", "last"])), func=draw(st.booleans()),
                fdtype=draw(st.sampled_from(["same", "f64", "f32"])),
                dtype=draw(st.sampled_from(["f32", "f64", "f16"])), seed=draw(st.integers(0, 999)), t=draw(gen.num(-3, 3)), tt=draw(st.sampled_from(["0d", "1d", "float"])), k=draw(st.integers(1, 3)))


@F.facet(tensor_case(), quick=400, thorough=6000)
def augmenter(case, ctx):
    "zeros or the augmenting function's result before or after the unchanged data"
    dt, idx = DT[case["dtype"]], case["idx"]
    x = torch.randn(*case["shape"], generator=torch.Generator().manual_seed(case["seed"]), dtype=D).to(dt)
    keep = x.clone()
    if case["func"]:
        other = {"f64": D, "f32": torch.float32}.get(case.get("fdtype"), dt)      # the function's result is converted to the data's type
        func = lambda y: torch.cat([2 * y + 1] * case["k"], idx).to(other)
        aug = Augmenter(augment_idx=idx, augment_func=func, order=case["order"])
        new = func(x).to(dt)
    else:
        aug = Augmenter(augment_idx=idx, augment_dims=case["a"], order=case["order"])
        shape = list(x.shape)
        shape[idx] = case["a"]
        new = torch.zeros(shape, dtype=dt)
    out = aug(x)
    want = torch.cat([new, x] if case["order"] == "first" else [x, new], idx)
    ctx.check(out.shape == want.shape and out.dtype == dt and torch.equal(out, want), f"augmented tensor {tuple(out.shape)} {out.dtype} of {tuple(x.shape)} along {idx}")
    ctx.check(torch.equal(x, keep), "the data was modified")
    if dt != torch.float16:
        xg, k = x.clone().requires_grad_(True), torch.tensor(.5, dtype=dt, requires_grad=True)
        aug2 = Augmenter(augment_idx=idx, augment_func=lambda y: torch.tanh(k * y), order=case["order"]) if case["func"] else aug
        xr, kr = x.clone().requires_grad_(True), torch.tensor(.5, dtype=dt, requires_grad=True)
        extra = torch.tanh(kr * xr) if case["func"] else new
        ref = torch.cat([extra, xr] if case["order"] == "first" else [xr, extra], idx)
        W = torch.linspace(.5, 2, max(ref.numel(), 1), dtype=dt)[:ref.numel()].reshape(ref.shape)
        ga = torch.autograd.grad((aug2(xg) * W).sum(), [xg] + [k] * case["func"], allow_unused=True)
        gr = torch.autograd.grad((ref * W).sum(), [xr] + [kr] * case["func"], allow_unused=True)
        for nm, a, b in zip(["the data", "the parameter of the augmenting function"], ga, gr):
            ctx.close(torch.zeros_like(b) if a is None else a, b, 1e-5, 1e-5, f"gradient of the augmented tensor with respect to {nm}")
    d = Augmenter()
    y = torch.ones(2, 3)
    ctx.check(torch.equal(d(y), torch.cat([torch.zeros(2, 5), y], 1)), "default augmentation: five zeros first")
    ctx.nontrivial(case["func"] or case["a"] > 0)
    ctx.label("func" if case["func"] else "zeros", case["order"], f"dim{len(case['shape'])}")


@F.facet(tensor_case(), quick=300, thorough=5000)
def depth_and_control(case, ctx):
    "depth concatenation appends t, data control the stored control, and nothing else happens"
    dt, idx = DT[case["dtype"]], case["idx"]
    g = torch.Generator().manual_seed(case["seed"])
    x = torch.randn(*case["shape"], generator=g, dtype=D).to(dt)
    m = DepthCat(idx)
    tdt = {"f64": D, "f32": torch.float32}.get(case.get("fdtype"), dt)
    m.t = {"0d": torch.tensor(case["t"], dtype=tdt), "1d": torch.tensor([case["t"]], dtype=tdt), "float": case["t"]}[case["tt"]]
    shape = list(x.shape)
    shape[idx] = 1
    out = m(x)
    ctx.check(torch.equal(out, torch.cat([x, torch.full(shape, float(m.t), dtype=dt)], idx)) and out.dtype == dt, f"depth {case['t']} concatenated along {idx}")
    c = DataControl()
    cs = list(x.shape)
    cs[1] = case["k"]
    c._control = torch.randn(*cs, generator=g, dtype=D).to(dt)
    out = c(x)
    ctx.check(out.dtype == dt and torch.equal(out, torch.cat([x, c._control], 1)), "control concatenated along dimension 1")
    ctx.check(DepthCat().idx_cat == 1, "default dimension")
    ctx.nontrivial(case["t"] != 0)
    ctx.label(case["tt"], f"dim{len(case['shape'])}")


# ------------------------------------------------------------------------------------- inside models
class Lin(nn.Module):
    def __init__(self, i, o, g, act):
        super().__init__()
        self.W = nn.Parameter(torch.randn(o, i, generator=g, dtype=D) / i ** .5)
        self.b = nn.Parameter(torch.randn(o, generator=g, dtype=D) * .3)
        self.act = act

    def forward(self, x):
        y = x @ self.W.T + self.b
        return torch.tanh(y) if self.act else y


class UserDepth(nn.Module):
    "a module of the user that asks for the time by having an attribute t"
    def __init__(self):
        super().__init__()
        self.t = None

    def forward(self, x):
        return x + torch.sin(self.t)


class UserControl(nn.Module):
    "a module of the user that asks for the control"
    def __init__(self):
        super().__init__()
        self._control = None

    def forward(self, x):
        return torch.cat([x, 2 * self._control], 1)


def build(case):
    "(module, reference function (net, t, x, control))"
    d, g = case["d"], torch.Generator().manual_seed(case["seed"])
    mods, width = [], d
    for op in case["ops"]:
        if op == "t":
            mods.append(DepthCat(1))
            width += 1
        elif op == "c":
            mods.append(DataControl())
            width += d
        elif op == "u":
            mods.append(UserDepth())
        elif op == "v":
            mods.append(UserControl())
            width += d
        else:
            mods.append(Lin(width, 3, g, True))
            width = 3
    mods.append(Lin(width, d, g, False))
    if case["nest"]:
        net = nn.Sequential(nn.Sequential(*mods[:2]), *mods[2:])
    else:
        net = nn.Sequential(*mods)

    def ref(lins, t, x, c):
        lins = iter(lins)
        for op in case["ops"]:
            if op == "t":
                x = torch.cat([x, t.reshape(1, 1).expand(len(x), 1)], 1)
            elif op == "c":
                x = torch.cat([x, c], 1)
            elif op == "u":
                x = x + torch.sin(t)
            elif op == "v":
                x = torch.cat([x, 2 * c], 1)
            else:
                x = next(lins)(x)
        return next(lins)(x)
    return net, [m for m in net.modules() if isinstance(m, Lin)], ref


@st.composite
def case_model(draw):
    d = draw(st.integers(1, 2))
    ops = draw(st.lists(st.sampled_from(["t", "c", "l", "t", "c", "l", "u", "v"]), min_size=1, max_size=4))
    kind = draw(st.sampled_from(["plain", "plain", "integral", "cnf"]))
    extra = 0 if kind == "plain" else 1
    b = draw(st.sampled_from([(1, 3), (2, 2)]))          # often several batches of one shape
    runs = draw(st.lists(st.fixed_dictionaries(dict(x=gen.batch(d + extra, bmin=b[0], bmax=b[1]), train=st.booleans(), t=gen.grid(nmin=2, nmax=4, hmin=.05, hmax=.3), traj=st.booleans(), grad=st.booleans())), min_size=1, max_size=3))
    sens = "autograd" if kind == "integral" else draw(st.sampled_from(["autograd", "autograd", "adjoint"]))
    return dict(d=d, ops=ops, kind=kind, runs=runs, sens=sens, nest=draw(st.booleans()), seed=draw(st.integers(0, 999)), solver=draw(st.sampled_from(["euler", "midpoint", "rk4", "dopri5"])))


def losses(t, x):
    return (x ** 2).sum(1) + torch.cos(t.reshape(()))


def reference(case, lins, ref, x):
    c = (x if case["kind"] == "plain" else x[:, 1:]).detach().clone()

    def f(t, y):
        if case["kind"] == "plain":
            return ref(lins, t, y, c)
        s = y[:, 1:]
        if case["kind"] == "integral":
            return torch.cat([losses(t, s)[:, None], ref(lins, t, s, c)], 1)
        with torch.enable_grad():
            s = s if s.requires_grad else s.clone().requires_grad_(True)
            o = ref(lins, t, s, c)
            tr = sum(torch.autograd.grad(o[:, i].sum(), s, create_graph=True)[0][:, i] for i in range(s.shape[1]))
        return torch.cat([-tr[:, None], o], 1)
    return f


SOLVERS = {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4, "dopri5": DormandPrince45}


@F.facet(case_model(), quick=260, thorough=4000, shards=3)
def inside_models(case, ctx):
    "histories of integrations: every stage sees its own time and the current initial condition, in values and gradients"
    net, lins, ref = build(case)
    inner = CNF(net) if case["kind"] == "cnf" else net
    solver = SOLVERS[case["solver"]](D)
    m = NeuralODE(inner, solver=solver, sensitivity=case["sens"], atol=1e-9, rtol=1e-9, atol_adjoint=1e-8, rtol_adjoint=1e-8, solver_adjoint=DormandPrince45(D),
                  integral_loss=losses if case["kind"] == "integral" else None)
    for k, run in enumerate(case["runs"]):
        x, ts = T(run["x"]), T(run["t"])
        xa, xb = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
        m.train(run.get("train", True))
        sol = m.trajectory(xa, ts) if run["traj"] else m(xa, ts)[1]
        f = reference(case, lins, ref, xb)
        want = fine_solve(f, xb, ts, 8) if case["solver"] == "dopri5" else rk_solve(case["solver"], f, xb, ts)
        tol = 1e-5 if case["solver"] == "dopri5" else 1e-9
        ctx.close(sol, want, tol, tol, f"integration {k} ({case['kind']}, {'trajectory' if run['traj'] else 'forward'})")
        if run["grad"] and (case["sens"] == "autograd" or run["traj"] or case["solver"] == "dopri5"):
            ps = [p for l in lins for p in l.parameters()]
            ga = torch.autograd.grad((sol ** 2).sum(), [xa] + ps, allow_unused=True)
            gb = torch.autograd.grad((want ** 2).sum(), [xb] + ps, allow_unused=True)
            big = max([1.] + [float(v.abs().max()) for v in gb if v is not None])
            for j, (a, b, p) in enumerate(zip(ga, gb, [xa] + ps)):
                a, b = (torch.zeros_like(p) if v is None else v for v in (a, b))
                ctx.close(a, b, 0, (1e-8 if case["solver"] != "dopri5" else 1e-3) * big, f"gradient {j} of integration {k} ({case['sens']})")
    ctx.nontrivial(bool(set(case["ops"]) - {"l"}))
    ctx.label(case["kind"], case["sens"], case["solver"], f"runs{len(case['runs'])}", "".join(sorted(set(case["ops"]))))


@st.composite
def case_aug(draw):
    d = draw(st.integers(1, 2))
    return dict(d=d, a=draw(st.integers(1, 3)), order=draw(st.sampled_from(["first", "last"])), x=draw(gen.batch(d)), seed=draw(st.integers(0, 99)), t=draw(gen.grid(nmin=2, nmax=4)),
                func=draw(st.booleans()))


@F.facet(case_aug(), quick=80, thorough=1500)
def augmented_model(case, ctx):
    "Augmenter before a Neural ODE: the augmented initial state is integrated as it is"
    g = torch.Generator().manual_seed(case["seed"])
    n = case["d"] + case["a"]
    lin, af = Lin(n, n, g, True), Lin(case["d"], case["a"], g, False)
    aug = Augmenter(augment_dims=case["a"], order=case["order"], augment_func=af if case["func"] else None)
    m = nn.Sequential(aug, NeuralODE(lin, solver=RungeKutta4(D)))
    x = T(case["x"])
    te, sol = m[1](m[0](x), T(case["t"]))
    new = af(x) if case["func"] else torch.zeros(len(x), case["a"], dtype=D)
    x0 = torch.cat([new, x] if case["order"] == "first" else [x, new], 1)
    ctx.close(sol, rk_solve("rk4", lambda t, y: lin(y), x0, T(case["t"])), 1e-9, 1e-9, "solution of the augmented model")
    ctx.nontrivial()


def adjoint_interleaved():
    "two forward calls with the adjoint method, then the backward pass of the first: True while it still uses the control of the second"
    g = torch.Generator().manual_seed(0)
    net = nn.Sequential(DataControl(), Lin(2, 1, g, True))
    mk = lambda s: NeuralODE(net, solver=DormandPrince45(D), sensitivity=s, solver_adjoint=DormandPrince45(D), atol=1e-9, rtol=1e-9, atol_adjoint=1e-9, rtol_adjoint=1e-9)
    ts, grads = T([0., 1.]), []
    for s in ("autograd", "adjoint"):
        m, x, y = mk(s), T([[1.]]), T([[-2.]])
        a = m(x.requires_grad_(True), ts)[1]
        m(y, ts)
        grads.append(torch.autograd.grad(a[-1].sum(), [p for p in net.parameters()]))
    return any(float((u - v).abs().max()) > 1e-4 for u, v in zip(*grads))


KNOWN = {"adjoint-interleaved": adjoint_interleaved}

"""C21 Galerkin layers apply weights expanded in their basis of the depth variable"""
import math
import torch
from torch import nn
import torch.nn.functional as TF
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import T, rk_solve
from torchdyn.core import NeuralODE
from torchdyn.nn import DepthCat
from torchdyn.nn.galerkin import Chebychev, Fourier, GalConv2d, GalLinear, GaussianRBF, MultiquadRBF, Polynomial, VanillaRBF

F = core.Registry()
RULE = ("all bases with degrees 1-7, random centres and scales (fixed or trainable), random coefficients, dilations, shifts, sizes, kernels, strides, paddings, with and "
        "without bias; oracle: explicit sums over basis functions and torch.nn.functional layers; non-trivial = non-zero coefficients and more than one basis function")
ASSUMPTIONS = ["the k-th of n basis functions has index k n/(n-1), as the layers define it", "Chebychev expansions of degree 2 and more", "polynomials on positive depth (fractional powers)"]
RBF = {"gauss": GaussianRBF, "vanilla": VanillaRBF, "multi": MultiquadRBF}


@st.composite
def basis_spec(draw):
    kind = draw(st.sampled_from(["fourier", "poly", "cheb", "gauss", "vanilla", "multi"]))
    return dict(kind=kind, deg=draw(st.integers(2 if kind == "cheb" else 1, 7)), adaptive=kind in RBF and draw(st.booleans()), center=draw(st.sampled_from([0., .5, -1.])),
                scale=draw(st.sampled_from([2., .5, 1.5])), own=draw(st.booleans()))


def build(b):
    if b["kind"] in RBF:
        e = RBF[b["kind"]](b["deg"], b["adaptive"], b["scale"], b["center"]) if b["own"] else RBF[b["kind"]](b["deg"], b["adaptive"])
        return e
    return {"fourier": Fourier, "poly": Polynomial, "cheb": Chebychev}[b["kind"]](b["deg"])


def n_range(deg):
    return [deg * k / (deg - 1) if deg > 1 else 0. for k in range(deg)]


def basis(b, ns, s, e=None):
    "list of lists (one list of values per family); s and the centres and scales can be tensors"
    c, eps = (b["center"], b["scale"]) if b["own"] else (0., 2.)
    n = len(ns)
    cs = [e.centers[i] for i in range(n)] if e is not None and b["adaptive"] else [c] * n
    es = [e.eps_scales[i] for i in range(n)] if e is not None and b["adaptive"] else [eps] * n
    sq = torch.sqrt if torch.is_tensor(s) else math.sqrt
    ex = torch.exp if torch.is_tensor(s) else math.exp
    if b["kind"] == "fourier":
        cos, sin = (torch.cos, torch.sin) if torch.is_tensor(s) else (math.cos, math.sin)
        return [[cos(k * s) for k in ns], [sin(k * s) for k in ns]]
    if b["kind"] == "poly":
        return [[s ** k for k in ns]]
    if b["kind"] == "cheb":
        out = [1., s]
        while len(out) < len(ns):
            out.append(2 * s * out[-1] - out[-2])
        return [out]
    r = sq(sum((s - c_) ** 2 for c_ in cs)) if b["adaptive"] else abs(s - c)
    if b["kind"] == "gauss":
        return [[ex(-(r * (k - c_) / e_) ** 2) for k, c_, e_ in zip(ns, cs, es)]]
    if b["kind"] == "vanilla":
        return [[r * k / e_ for k, e_ in zip(ns, es)]]
    return [[1 + sq(1 + (r * k / e_) ** 2) for k, e_ in zip(ns, es)]]


def vary(e, seed):
    "gives every degree its own trainable centre and scale"
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in e.parameters():
            p.add_(.5 * torch.rand(p.shape, generator=g))


@st.composite
def case_basis(draw):
    b = draw(basis_spec())
    return dict(b=b, seed=draw(st.integers(0, 999)), s=draw(gen.pos(.05, 2)) if b["kind"] == "poly" else draw(gen.num(-2, 2)))


@F.facet(case_basis(), quick=400, thorough=8000)
def basis_functions(case, ctx):
    "every basis equals its definition, with the configured centres and scales"
    b = case["b"]
    e = build(b)
    ns = n_range(b["deg"])
    if b["kind"] in RBF and b["adaptive"]:
        c0, s0 = (b["center"], b["scale"]) if b["own"] else (0., 2.)
        ctx.close(e.centers, torch.full((b["deg"],), c0), 0, 0, "initial value of the trainable centres")
        ctx.close(e.eps_scales, torch.full((b["deg"],), s0), 0, 0, "initial value of the trainable scales")
        vary(e, case["seed"])
    got = e(torch.tensor(ns), torch.tensor([case["s"]]))
    want = basis(b, [float(v) for v in torch.tensor(ns)], torch.tensor(case["s"]) if b["adaptive"] else float(torch.tensor(case["s"])), e)
    ctx.check(len(got) == len(want) == e.n_eig and e.deg == b["deg"], f"{len(got)} families of functions, n_eig {e.n_eig}, degree {e.deg}")
    for i, (u, v) in enumerate(zip(got, want)):
        ctx.close(u.reshape(-1), torch.stack([torch.as_tensor(z).reshape(()) for z in v]).detach().float(), 2e-5, 2e-5, f"basis family {i} of {b['kind']}")
    if b["kind"] in RBF and b["adaptive"]:
        ctx.check({n for n, _ in e.named_parameters()} == {"centers", "eps_scales"} and all(p.numel() == b["deg"] for p in e.parameters()), "trainable centres and scales")
    else:
        ctx.check(not list(e.parameters()), "a fixed basis has parameters")
    ctx.nontrivial(b["deg"] > 1 and abs(case["s"]) > .01)
    ctx.label(b["kind"], "adaptive" if b["adaptive"] else "fixed")


@st.composite
def case_lin(draw):
    b = draw(basis_spec())
    return dict(b=b, i=draw(st.integers(1, 4)), o=draw(st.integers(1, 4)), bias=draw(st.booleans()), dil=draw(st.booleans()), shift=draw(st.booleans()), dv=draw(gen.pos(.3, 1.5)),
                sv=draw(gen.pos(.0, .5)), x=None, n=draw(st.integers(1, 4)), ts=draw(st.lists(gen.pos(.05, 1.5) if b["kind"] == "poly" else gen.num(-1.5, 1.5), min_size=1, max_size=3)),
                seed=draw(st.integers(0, 999)), zero=draw(st.integers(0, 5)) == 0)


def prepare(layer, case):
    g = torch.Generator().manual_seed(case["seed"])
    with torch.no_grad():
        if not case["zero"]:
            layer.coeffs.copy_(torch.randn(layer.coeffs.shape, generator=g))
        if case["dil"]:
            layer.dilation.fill_(case["dv"])
        if case["shift"]:
            layer.shift.fill_(case["sv"])
    if case["b"]["kind"] in RBF and case.get("vseed", case["seed"]) % 2:
        vary(layer.expfunc, case.get("vseed", case["seed"]))
    return g


def expand(case, layer, t):
    "explicit sum over basis functions, differentiable, float32"
    b = case["b"]
    s = (t * layer.dilation + layer.shift).reshape(())
    B = basis(b, [float(v) for v in torch.linspace(0, b["deg"], b["deg"])], s, layer.expfunc)
    w = 0
    for j, fam in enumerate(B):
        for k, v in enumerate(fam):
            w = w + v * layer.coeffs[:, k, j]
    return w


def lin_labels(ctx, case):
    ctx.label(case["b"]["kind"], "bias" if case["bias"] else "nobias", "dil" if case["dil"] else "-", "shift" if case["shift"] else "-", "zero" if case["zero"] else "coeffs",
              "adaptive" if case["b"]["adaptive"] else "fixed")


@F.facet(case_lin(), quick=500, thorough=8000, shards=2)
def linear_layer(case, ctx):
    "GalLinear is the linear layer with the expanded weights, at each depth of a sequence of calls; zero when fresh; gradients of coefficients, dilation and shift"
    b = case["b"]
    layer = GalLinear(case["i"], case["o"], bias=case["bias"], expfunc=build(b), dilation=case["dil"], shift=case["shift"])
    ctx.check(bool((layer.coeffs == 0).all()), "coefficients of a fresh layer are not zero")
    ctx.check(float(layer.dilation) == 1 and float(layer.shift) == 0, "dilation and shift of a fresh layer are not 1 and 0")
    names = {n for n, _ in layer.named_parameters()}
    want_names = {"coeffs"} | ({"dilation"} if case["dil"] else set()) | ({"shift"} if case["shift"] else set()) | ({"expfunc.centers", "expfunc.eps_scales"} if b["adaptive"] else set())
    ctx.check(names == want_names, f"trainable parameters {sorted(names)} instead of {sorted(want_names)}")
    g = prepare(layer, case)
    for tv in case["ts"]:
        x, t = torch.randn(case["n"], case["i"], generator=g), torch.tensor(tv)
        out = layer(torch.cat([x, torch.full((len(x), 1), tv)], 1))
        w = expand(case, layer, t)
        k = case["i"] * case["o"]
        want = x @ w[:k].reshape(case["o"], case["i"]).T + (w[k:] if case["bias"] else 0)
        scale = 1e-4 * (1 + float(w.detach().abs().max()))
        ctx.close(out, want, 1e-4, scale, f"output of the linear layer at depth {tv}")
        if case["zero"]:
            ctx.check(bool((out == 0).all()), "a fresh layer does not give zero")
        if b["kind"] != "cheb":
            ps = [p for n, p in layer.named_parameters()]
            ga, gb = torch.autograd.grad((out ** 2).sum(), ps, allow_unused=True), torch.autograd.grad((want ** 2).sum(), ps, allow_unused=True)
            for (n, p), u, v in zip(layer.named_parameters(), ga, gb):
                u, v = (torch.zeros_like(p) if z is None else z for z in (u, v))
                if not torch.isfinite(v).all():
                    continue            # radius zero: no derivative
                ctx.close(u, v, 1e-3, 1e-3 * (1 + float(w.detach().abs().max()) ** 2), f"gradient of {n} at depth {tv}")
    ctx.nontrivial(not case["zero"] and b["deg"] > 1)
    lin_labels(ctx, case)


@st.composite
def case_hist(draw):
    c = draw(case_lin())
    c.update(zero=False, conv=draw(st.integers(0, 2)) == 0, ops=draw(st.lists(st.sampled_from(["call", "call", "call", "coeffs", "dilation", "shift", "basis", "train", "eval", "nograd", "load", "step"]), min_size=3, max_size=8)))
    c["i"], c["o"] = min(c["i"], 2), min(c["o"], 3)
    return c


@F.facet(case_hist(), quick=300, thorough=5000)
def histories(case, ctx):
    "calls at repeated and new depths, interleaved with changes of the parameters (in place, by loading, by an optimiser), of the mode and without gradients: every call uses the present values"
    b, n, i, o = case["b"], case["n"], case["i"], case["o"]
    kw = dict(bias=case["bias"], expfunc=build(b), dilation=case["dil"], shift=case["shift"])
    layer = GalConv2d(i, o, 2, **kw) if case["conv"] else GalLinear(i, o, **kw)
    g = prepare(layer, case)
    calls, changed = 0, False
    for step, op in enumerate(["call"] + case["ops"] + ["call"]):
        with torch.no_grad():
            if op in ("coeffs", "dilation", "shift"):
                p = getattr(layer, op)
                if isinstance(p, nn.Parameter):
                    p.mul_(.5).add_(.125)
            elif op == "basis" and b["kind"] in RBF:
                for p in layer.expfunc.parameters():
                    p.add_(.25)
            elif op == "load":
                layer.load_state_dict({k: v * .75 + .0625 for k, v in layer.state_dict().items()})
        if op == "step":
            opt = torch.optim.SGD(layer.parameters(), lr=.01)
            opt.zero_grad()
            sum((p ** 2).sum() for p in layer.parameters()).backward()
            opt.step()
        elif op in ("train", "eval"):
            layer.train(op == "train")
        elif op in ("call", "nograd"):
            tv = case["ts"][calls // 2 % len(case["ts"])]
            x = torch.randn(n, i, *([3, 4] if case["conv"] else []), generator=g)
            xin = torch.cat([x, torch.full((n, 1) + tuple(x.shape[2:]), tv)], 1)
            with torch.set_grad_enabled(op == "call"):
                out = layer(xin)
            w = expand(case, layer, torch.tensor(tv))
            if case["conv"]:
                k = 4 * i * o
                want = TF.conv2d(x, w[:k].reshape(o, i, 2, 2), w[k:] if case["bias"] else None)
            else:
                k = i * o
                want = TF.linear(x, w[:k].reshape(o, i), w[k:] if case["bias"] else None)
            what, big = f"call {calls} at depth {tv} after {case['ops'][:max(step - 1, 0)]}", float(w.detach().abs().max())
            ctx.close(out, want, 1e-4, 2e-4 * (1 + big), "output of " + what)
            if op == "call":
                ga, gb = torch.autograd.grad((out ** 2).sum(), layer.coeffs)[0], torch.autograd.grad((want ** 2).sum(), layer.coeffs)[0]
                ctx.close(ga, gb, 1e-3, 1e-3 * (1 + big ** 2) * (1 + float(gb.abs().max())), "gradient of the coefficients in " + what)
            calls += 1
        changed |= op not in ("call", "nograd", "train", "eval")
    ctx.nontrivial(changed and b["deg"] > 1)
    lin_labels(ctx, case)
    ctx.label("conv" if case["conv"] else "linear")


@st.composite
def case_conv(draw):
    c = draw(case_lin())
    ks = draw(st.integers(1, 3))
    c.update(i=draw(st.integers(1, 2)), o=draw(st.integers(1, 3)), ks=ks, stride=draw(st.integers(1, 2)), pad=draw(st.integers(0, 2)), size=draw(st.integers(ks, 5)), size2=draw(st.integers(ks, 5)))
    return c


@F.facet(case_conv(), quick=250, thorough=4000)
def conv_layer(case, ctx):
    "GalConv2d is the convolution with the expanded kernel and bias"
    b = case["b"]
    layer = GalConv2d(case["i"], case["o"], case["ks"], case["stride"], case["pad"], bias=case["bias"], expfunc=build(b), dilation=case["dil"], shift=case["shift"])
    ctx.check(bool((layer.coeffs == 0).all()), "coefficients of a fresh layer are not zero")
    g = prepare(layer, case)
    for tv in case["ts"]:
        x = torch.randn(case["n"], case["i"], case["size"], case["size2"], generator=g)
        out = layer(torch.cat([x, torch.full((len(x), 1) + tuple(x.shape[2:]), tv)], 1))
        w = expand(case, layer, torch.tensor(tv)).detach()
        k = case["i"] * case["o"] * case["ks"] ** 2
        want = TF.conv2d(x, w[:k].reshape(case["o"], case["i"], case["ks"], case["ks"]), w[k:] if case["bias"] else None, stride=case["stride"], padding=case["pad"])
        ctx.close(out, want, 1e-4, 2e-4 * (1 + float(w.abs().max())), f"output of the convolution at depth {tv}")
        if case["zero"]:
            ctx.check(bool((out == 0).all()), "a fresh layer does not give zero")
    ctx.nontrivial(not case["zero"] and b["deg"] > 1)
    lin_labels(ctx, case)
    ctx.label(f"k{case['ks']}s{case['stride']}p{case['pad']}")


@F.facet(case_lin(), quick=150, thorough=2000)
def linear_in_coefficients(case, ctx):
    "the output is linear in the coefficients, and two layers do not share state"
    mk = lambda: GalLinear(case["i"], case["o"], bias=case["bias"], expfunc=build(case["b"]), dilation=case["dil"], shift=case["shift"])
    A, B, C = mk(), mk(), mk()
    g = prepare(A, case)
    prepare(B, {**case, "seed": case["seed"] + 1, "vseed": case["seed"]})
    prepare(C, case)
    with torch.no_grad():
        C.coeffs.copy_(2 * A.coeffs - B.coeffs)
    t = case["ts"][0]
    x = torch.cat([torch.randn(case["n"], case["i"], generator=g), torch.full((case["n"], 1), t)], 1)
    a, b = A(x), B(x)
    c = C(x)
    ctx.close(c, 2 * a - b, 1e-4, 1e-4 * (1 + float(a.detach().abs().max() + b.detach().abs().max())), "output for a combination of coefficients")
    ctx.close(A(x), a, 0, 0, "repeated evaluation")
    ctx.nontrivial(not case["zero"])
    lin_labels(ctx, case)


@F.facet(case_lin(), quick=100, thorough=1500)
def in_models(case, ctx):
    "inside a Neural ODE the layer is evaluated at the time of every stage"
    case = {**case, "o": case["i"], "zero": False}
    b = case["b"]
    if b["kind"] == "poly":
        case["shift"] = True
    layer = GalLinear(case["i"], case["i"], bias=case["bias"], expfunc=build(b), dilation=case["dil"], shift=case["shift"])
    g = prepare(layer, case)
    with torch.no_grad():
        layer.coeffs.mul_(.1)
    x, ts = torch.randn(case["n"], case["i"], generator=g), torch.tensor([.25, .5, .625, 1.])
    m = NeuralODE(nn.Sequential(DepthCat(1), layer), solver="rk4")
    te, sol = m(x, ts)

    def f(t, y):
        w = expand(case, layer, t).detach()
        k = case["i"] ** 2
        return y @ w[:k].reshape(case["i"], case["i"]).T + (w[k:] if case["bias"] else 0)
    want = rk_solve("rk4", f, x, ts)
    if float(want.abs().max()) > 1e3:
        raise core.Inconclusive("solution too large")
    ctx.close(sol, want, 1e-4, 1e-4, "Neural ODE over a depth-dependent layer")
    ctx.nontrivial(b["deg"] > 1)
    lin_labels(ctx, case)


@F.facet(st.fixed_dictionaries(dict(i=st.integers(1, 3), o=st.integers(1, 3), seed=st.integers(0, 999), size=st.integers(3, 6), n=st.integers(1, 3), t=gen.num(-1.5, 1.5))), quick=80, thorough=1000)
def default_layers(case, ctx):
    "layers built with the documented defaults: Fourier basis of degree 5, bias, trainable dilation and shift, 3x3 kernel, stride 1, no padding"
    g = torch.Generator().manual_seed(case["seed"])
    c = dict(b=dict(kind="fourier", deg=5, adaptive=False, own=False), dil=True, shift=True, zero=False, seed=case["seed"], dv=1., sv=0.)
    i, o = case["i"], case["o"]
    for kind, layer in (("linear", GalLinear(i, o)), ("convolution", GalConv2d(i, o))):
        names = {n for n, _ in layer.named_parameters()}
        ctx.check(names == {"coeffs", "dilation", "shift"}, f"trainable parameters {sorted(names)}")
        prepare(layer, c)
        w = expand(c, layer, torch.tensor(case["t"])).detach()
        if kind == "linear":
            x = torch.randn(case["n"], i, generator=g)
            out = layer(torch.cat([x, torch.full((case["n"], 1), case["t"])], 1))
            want = TF.linear(x, w[:i * o].reshape(o, i), w[i * o:])
        else:
            x = torch.randn(case["n"], i, case["size"], case["size"], generator=g)
            out = layer(torch.cat([x, torch.full((case["n"], 1, case["size"], case["size"]), case["t"])], 1))
            want = TF.conv2d(x, w[:9 * i * o].reshape(o, i, 3, 3), w[9 * i * o:])
        ctx.close(out, want, 1e-4, 2e-4 * (1 + float(w.abs().max())), f"default {kind}")
    ctx.nontrivial(True)

"""C25 root finding reaches roots with updates satisfying the secant equation"""
import math
import torch
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import T
from torchdyn.numerics.solvers.root import (BroydenBad, BroydenFull, LineSearchArmijo, NaiveSearch, TerminationCondition, batch_jacobian, root_find)

F = core.Registry()
RULE = ("batches of 1-4 systems of dimension 1-4: affine, affine plus a bounded nonlinearity, and arbitrary smooth ones for the line searches; random inverse Jacobians, steps and "
        "residuals for the updates; damping, tolerances, methods and searches; non-trivial = the start is not a root and the update changes the matrix")
ASSUMPTIONS = ["the secant equation is tested when the denominator of the update is at least 1e-3 (the library adds 1e-6 to it)",
               "convergence is required on systems whose Jacobian stays within 30% of a matrix with condition number below about 30"]
D = torch.float64
METHODS = {"broyden": BroydenFull, "broyden_fast": BroydenBad}


@st.composite
def case_update(draw):
    b, d = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    return dict(J=[draw(gen.mat(d, d, -2, 2)) for _ in range(b)], z=draw(gen.mat(b, d, -2, 2)), g=draw(gen.mat(b, d, -2, 2)), method=draw(st.sampled_from(list(METHODS))))


@F.facet(case_update(), quick=500, thorough=10000)
def updates(case, ctx):
    "secant equation, rank one, and no change on the orthogonal complement, each batch element by itself"
    J, dz, dg = T(case["J"]), T(case["z"]), T(case["g"])
    new = METHODS[case["method"]]().update_jacobian(dg, dz, J)
    ctx.check(new.shape == J.shape, f"updated matrix of shape {tuple(new.shape)}")
    for k in range(len(J)):
        Jg = J[k] @ dg[k]
        den = float(dz[k] @ Jg) if case["method"] == "broyden" else float(dg[k] @ dg[k])
        if abs(den) < 1e-3:
            continue
        num = dz[k] - Jg
        e = float((new[k] @ dg[k] - dz[k]).abs().max())
        ctx.check(e <= (4e-6 / abs(den)) * float(num.abs().max()) + 1e-9, f"{case['method']}: secant equation violated by {e} in element {k}")
        dJ = new[k] - J[k]
        sv = torch.linalg.svdvals(dJ)
        if len(sv) > 1:
            ctx.check(float(sv[1]) <= 1e-9 * (1 + float(sv[0])), f"{case['method']}: the update has rank above one (singular values {sv.tolist()})")
        # the update annihilates what is orthogonal to J^T dz (good Broyden) or dg (fast Broyden)
        w = J[k].T @ dz[k] if case["method"] == "broyden" else dg[k]
        if float(w.norm()) > 1e-3:
            P = torch.eye(len(w), dtype=D) - torch.outer(w, w) / (w @ w)
            ctx.check(float((dJ @ P).abs().max()) <= 1e-8 * (1 + float(dJ.abs().max())), f"{case['method']}: the update acts on directions orthogonal to the latest step")
        ctx.nontrivial(float(dJ.abs().max()) > 1e-3)
        alone = METHODS[case["method"]]().update_jacobian(dg[k:k + 1], dz[k:k + 1], J[k:k + 1])
        ctx.close(alone[0], new[k], 1e-9, 1e-9 * (1 + float(new[k].abs().max())), "the update of one batch element depends on the others")
    ctx.label(case["method"], f"dim{J.shape[-1]}", f"batch{len(J)}")


# ---------------------------------------------------------------------------------------------- systems
@st.composite
def system(draw, bmax=4, eps=True):
    "g(z) = A (z - r) + e tanh(B z + c), the same matrix for every batch element; A = Q-like well conditioned matrix"
    d = draw(st.integers(1, 3))
    A = draw(gen.mat(d, d, -1, 1))
    for i in range(d):       # diagonal dominance
        A[i][i] = (1.5 * d + draw(gen.num(0, 2))) * draw(st.sampled_from([1, -1]))
    perm = draw(st.permutations(list(range(d))))
    A = [A[i] for i in perm]
    e = draw(st.sampled_from([0., .1, .25])) if eps else 0.
    return dict(d=d, A=A, r=draw(gen.vec(d, -2, 2)), B=draw(gen.mat(d, d, -1, 1)), c=draw(gen.vec(d, -1, 1)), e=e, z=draw(gen.batch(d, -3, 3, bmax=bmax)))


def build(s):
    A, r, B, c = T(s["A"]), T(s["r"]), T(s["B"]) / s["d"], T(s["c"])
    return lambda z: (z - r) @ A.T + s["e"] * torch.tanh(z @ B.T + c)


def start(s):
    return T(s["z"])


@st.composite
def case_affine(draw):
    return dict(s=draw(system(eps=False)), alpha=draw(st.sampled_from([1., 1., .75, .5, .25, 1.5])), method=draw(st.sampled_from(list(METHODS))),
                tol=draw(st.sampled_from([1e-2, 1e-4, 1e-7])), rtol=draw(st.sampled_from([1., 1e-1, 1e-3])), search=draw(st.sampled_from(["none", "none", "naive", "armijo"])))


@F.facet(case_affine(), quick=250, thorough=5000)
def affine(case, ctx):
    "damped steps on affine systems contract the error by exactly (1 - alpha) and stop as soon as the tolerances are met; full steps reach the root at once"
    s = case["s"]
    g, z0, r = build(s), start(s), T(s["r"])
    al = 1. if case["search"] != "none" else case["alpha"]
    kw = dict(alpha=case["alpha"], f_tol=case["tol"], f_rtol=case["rtol"], x_tol=case["tol"], x_rtol=1., maxiters=150, method=case["method"])
    z, log = root_find(g, z0.clone(), search_method=case["search"], **kw)
    k = log.data["iteration"]
    scale = float((z0 - r).abs().max()) + 1
    want = r + (1 - al) ** k * (z0 - r)
    ctx.close(z, want, 0, 1e-6 * scale if al != 1 else 1e-8 * scale, f"{case['method']} with step {al} ({case['search']}) after {k} steps")
    ctx.check(torch.equal(log.data["z"], z) and torch.allclose(log.data["geval"], g(z), atol=1e-9), "logged values are not those of the result")

    def done(k, slack):
        zk = r + (1 - al) ** k * (z0 - r)
        dz = (1 - al) ** (k - 1) * (z0 - r)
        f, f1 = g(zk).norm(dim=1), None
        f1 = g(r + (1 - al) * (z0 - r)).norm(dim=1)
        fl = 1e-9 * scale * (1 if slack > 1 else -1)
        return bool(((f <= case["tol"] * slack + fl) & (f <= case["rtol"] * f1 * slack + fl)).all()
                    and ((dz.norm(dim=1) <= case["tol"] * slack + fl) & (dz.norm(dim=1) <= zk.norm(dim=1) * slack + fl)).all())
    ctx.check(k <= 151, f"{k} steps with a limit of 150")
    for lim in ({k, k + 1, max(k // 2, 1)} if k <= 150 else {75}):      # a limit that suffices changes nothing, a smaller one returns the state of the last step
        z2, log2 = root_find(g, z0.clone(), search_method=case["search"], **{**kw, "maxiters": lim})
        n = log2.data["iteration"]
        ctx.check(n == k if lim >= k else lim <= n <= lim + 1, f"{n} steps with a limit of {lim}, {k} without")
        if lim >= k:
            ctx.close(z2, z, 0, 0, f"result with a limit of {lim} that suffices")
        else:
            ctx.close(z2, r + (1 - al) ** n * (z0 - r), 0, 1e-6 * scale, f"state after {n} steps (limit {lim})")
    if k < 151:
        ctx.check(done(k, 1.01), f"stopped after {k} steps although the tolerances are not met")
    if 1 < k:
        ctx.check(not done(k - 1, .99) or float(g(z0).abs().max()) < 1e-6, f"{k} steps although the tolerances were met after {k - 1}")
    ctx.nontrivial(float(g(z0).abs().max()) > .1)
    ctx.label(case["method"], f"alpha{al}", case["search"], f"steps{min(k, 20) // 5 * 5}+")


@st.composite
def case_root(draw):
    return dict(s=draw(system()), alpha=draw(st.sampled_from([1., .5, .2])), method=draw(st.sampled_from(list(METHODS))), search=draw(st.sampled_from(["none", "naive", "armijo"])),
                tol=draw(st.sampled_from([1e-3, 1e-5, 1e-7])), frt=draw(st.sampled_from([1e-1, 1e-3])), verbose=draw(st.booleans()))


@F.facet(case_root(), quick=250, thorough=6000)
def reaches_roots(case, ctx):
    "well-conditioned systems: the result satisfies the requested tolerances and lies near the root of every element"
    s = case["s"]
    g, z0 = build(s), start(s)
    z, log = root_find(g, z0.clone(), alpha=case["alpha"], f_tol=case["tol"], f_rtol=case["frt"], x_tol=case["tol"], x_rtol=1e6, maxiters=250, method=case["method"],
                       search_method=case["search"], verbose=case["verbose"])
    f = g(z).norm(dim=1)
    ctx.check(float(f.max()) <= case["tol"] * 1.001, f"residual {float(f.max())} with tolerance {case['tol']} ({case['method']}, search {case['search']}, alpha {case['alpha']})")
    # independent root: Newton from the result of a long damped iteration
    A, y = T(s["A"]), z.clone()
    for _ in range(60):
        J = torch.autograd.functional.jacobian(lambda v: g(v[None])[0], y[0]) if len(y) == 1 else None
        Js = torch.stack([torch.autograd.functional.jacobian(lambda v: g(v[None])[0], e) for e in y]) if J is None else J[None]
        step = torch.linalg.solve(Js, g(y)[..., None])[..., 0]
        y = y - step
        if float(step.abs().max()) < 1e-13:
            break
    ctx.check(float(g(y).abs().max()) < 1e-10, "reference root")
    ctx.close(z, y, 0, 40 * case["tol"], "distance to the root")
    ctx.nontrivial(float(g(z0).abs().max()) > .1)
    ctx.label(case["method"], case["search"], f"tol{case['tol']:g}", "affine" if s["e"] == 0 else "nonlinear")


@F.facet(st.fixed_dictionaries(dict(s=system(bmax=3), alpha=st.sampled_from([1., .5, .1]), method=st.sampled_from(list(METHODS)), k=st.integers(0, 6))), quick=200, thorough=4000)
def batch_independence(case, ctx):
    "a fixed number of steps without line search: every element moves as if it were alone"
    g, z0, kw = build(case["s"]), start(case["s"]), dict(alpha=case["alpha"], f_tol=-1., f_rtol=1., x_tol=-1., maxiters=case["k"], method=case["method"], search_method="none", verbose=False)
    z, _ = root_find(g, z0.clone(), **kw)
    for i in range(len(z0)):
        one, _ = root_find(g, z0[i:i + 1].clone(), **kw)
        ctx.close(z[i:i + 1], one, 1e-7, 1e-7, f"element {i} of a batch of {len(z0)} after {case['k'] + 1} steps")
    ctx.nontrivial(len(z0) > 1)
    ctx.label(case["method"], f"batch{len(z0)}")


# ------------------------------------------------------------------------------------------ one step
@F.facet(st.fixed_dictionaries(dict(s=system(bmax=3), seed=st.integers(0, 999), alpha=gen.pos(.1, 1.5), method=st.sampled_from(list(METHODS)))), quick=250, thorough=5000)
def one_step(case, ctx):
    "a step moves by alpha times J_inv g, evaluates g at the new point and updates the matrix with that step"
    g, z0 = build(case["s"]), start(case["s"])
    d = z0.shape[1]
    J = torch.randn(len(z0), d, d, generator=torch.Generator().manual_seed(case["seed"]), dtype=D)
    m = METHODS[case["method"]]()
    z, dz, ge, J1 = m.step(g=g, z0=z0, J_inv=J, geval_old=g(z0), alpha=case["alpha"])
    want = torch.stack([J[i] @ g(z0)[i] for i in range(len(z0))])
    ctx.close(dz, want, 1e-9, 1e-9, "direction of the step")
    ctx.close(z, z0 - case["alpha"] * want, 1e-9, 1e-9, "new point")
    ctx.close(ge, g(z), 1e-9, 1e-9, "residual at the new point")
    ctx.close(J1, m.update_jacobian(g(z) - g(z0), z - z0, J), 1e-8, 1e-8 * (1 + float(J1.abs().max())), "updated inverse Jacobian")
    ctx.nontrivial()


@F.facet(st.fixed_dictionaries(dict(s=system(bmax=3), seed=st.integers(0, 999))), quick=120, thorough=2000)
def jacobians(case, ctx):
    "batch_jacobian: one matrix per element, equal to the analytic derivative"
    s = case["s"]
    g, z = build(s), start(s)
    A, B, c = T(s["A"]), T(s["B"]) / s["d"], T(s["c"])
    want = torch.stack([A + s["e"] * (1 - torch.tanh(B @ e + c) ** 2)[:, None] * B for e in z])
    ctx.close(batch_jacobian(g, z), want, 1e-9, 1e-9, "batch Jacobian")
    ctx.nontrivial(s["e"] != 0)


# --------------------------------------------------------------------------------------- line searches
@st.composite
def case_search(draw):
    b, d = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(kind=draw(st.sampled_from(["affine", "cubic", "sine", "exp", "quad"])), z=draw(gen.mat(b, d, -2, 2)), dz=draw(gen.mat(b, d, -3, 3)), newton=draw(st.booleans()),
                search=draw(st.sampled_from(["naive", "armijo"])), a0=draw(st.sampled_from([1., 1., .5, 2.])), mult=draw(st.sampled_from([.1, .5])), big=draw(st.sampled_from([1., 1., 10.])))


G = {"affine": lambda z: 2 * z - 1, "cubic": lambda z: z ** 3 - z + .3, "sine": lambda z: torch.sin(2 * z) + .2, "exp": lambda z: torch.exp(z) - 2, "quad": lambda z: (z - .5) ** 2 - .3}


@F.facet(case_search(), quick=600, thorough=12000)
def line_searches(case, ctx):
    "the accepted step does not increase the residual, or the smallest step size is reported; the reported objective is the one of the reported step"
    g, z = G[case["kind"]], T(case["z"])
    g0 = g(z)
    dz = T(case["dz"]) * case["big"]
    if case["newton"]:
        J = batch_jacobian(g, z)
        dz = torch.stack([torch.linalg.pinv(J[i]) @ g0[i] for i in range(len(z))])
        if float(dz.abs().max()) > 50:
            return
    phi = lambda a: float(g(z - a * dz).norm() ** 2)
    if case["search"] == "naive":
        a, p = NaiveSearch(g, g0, dz, z).search(alpha0=case["a0"], mult_factor=case["mult"])
        small, slack = 1e-6, 1e-9
        k = round(math.log(float(a) / case["a0"]) / math.log(case["mult"]))
        ctx.check(k >= 0 and abs(float(a) - case["a0"] * case["mult"] ** k) < 1e-9, f"step {a} is not the initial step reduced some times")
        if k:
            ctx.check(phi(case["a0"] * case["mult"] ** (k - 1)) > phi(0) * (1 - 1e-9), f"step {a} although a larger step did not increase the residual")
    else:
        a, p = LineSearchArmijo(g, g0, dz, z).search(alpha0=case["a0"])
        small, slack = 1e-2, 1e-3
    a = float(a)
    ok = phi(a) <= phi(0) * (1 + slack) + 1e-12
    ctx.check(math.isfinite(a) and (ok or a <= small), f"{case['search']}: step {a} changes the squared residual from {phi(0)} to {phi(a)}")
    if a > small and ok:
        ctx.check(abs(float(p) - phi(a)) <= 1e-8 * (1 + phi(a)), f"{case['search']}: reports the objective {float(p)} for the step {a}, which has {phi(a)}")
    if phi(case["a0"]) < phi(0) * .5:
        ctx.check(a == case["a0"], f"{case['search']}: full step {case['a0']} halves the residual, {a} taken instead")
    ctx.nontrivial(float(g0.abs().max()) > .05)
    ctx.label(case["search"], case["kind"], "newton" if case["newton"] else "random direction", "shortened" if a < case["a0"] else "full", "smallest" if a <= small else "found")


@F.facet(st.fixed_dictionaries(dict(kind=st.sampled_from(list(G)), z=gen.batch(2, -2, 2), method=st.sampled_from(list(METHODS)), k=st.integers(1, 6))), quick=120, thorough=3000)
def monotone_with_search(case, ctx):
    "iterating with the naive search never increases the residual of the batch"
    g, z = G[case["kind"]], T(case["z"])
    J = batch_jacobian(g, z)
    if min(float(torch.linalg.svdvals(j)[-1]) for j in J) < .05:
        return
    run = lambda k: root_find(g, z.clone(), f_tol=-1., x_tol=-1., maxiters=k, method=case["method"], search_method="naive", verbose=False)[0]
    a, b = run(case["k"] - 1), run(case["k"])
    fa, fb = float(g(a).norm()), float(g(b).norm())
    f0 = float(g(z).norm())
    ctx.check(fb <= fa * (1 + 1e-3) + 1e-9, f"residual {fa} after {case['k']} steps, {fb} after {case['k'] + 1}")
    ctx.check(fa <= f0 * (1 + 1e-3) + 1e-9, f"residual {f0} at the start, {fa} after {case['k']} steps")
    ctx.nontrivial(f0 > .05)
    ctx.label(case["kind"], case["method"])


# ------------------------------------------------------------------------------------------ termination
@st.composite
def case_term(draw):
    b, d, k = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 5))
    el = lambda: draw(st.sampled_from([0, 0, -1, -2, -3, -4]))
    rows = [dict(g=[[draw(gen.num(-1, 1)) * 10. ** el() for _ in range(d)] for _ in range(b)], z=draw(gen.mat(b, d, -2, 2)), dz=[[draw(gen.num(-1, 1)) * 10. ** el() for _ in range(d)] for _ in range(b)])
            for _ in range(k)]
    e = lambda *v: draw(st.sampled_from(v))
    return dict(rows=rows, f_tol=e(1e-3, 1e-1, 1., 10.), f_rtol=e(1e-2, .1, 1., 10.), x_tol=e(1e-3, .1, 1., 10.), x_rtol=e(1e-2, .1, 1., 10.))


@F.facet(case_term(), quick=400, thorough=8000)
def termination(case, ctx):
    "terminates exactly when every element satisfies the absolute and relative tolerances on residual and step"
    o = {k: case[k] for k in ("f_tol", "f_rtol", "x_tol", "x_rtol")}
    tc = TerminationCondition(**o)
    stops = False
    n = lambda r: math.sqrt(sum(v * v for v in r))
    first = [n(r) for r in case["rows"][0]["g"]]
    for i, row in enumerate(case["rows"]):
        code = tc.check(T(row["g"]), T(row["z"]), T(row["dz"]))
        margins = []
        for g, z, dz, f0 in zip(row["g"], row["z"], row["dz"], first):
            margins += [(n(g), o["f_tol"]), (n(g), o["f_rtol"] * f0), (n(dz), o["x_tol"]), (n(dz), o["x_rtol"] * n(z))]
        if any(abs(a - b) < 1e-6 * (a + b) and a + b > 0 for a, b in margins):
            continue
        want = all(a <= b for a, b in margins)
        stops = stops or want
        ctx.check(bool(code) == want, f"check {i} says {code}, the tolerances {'are' if want else 'are not'} met by all elements")
    ctx.nontrivial(stops)
    ctx.label("stops" if stops else "goes on")

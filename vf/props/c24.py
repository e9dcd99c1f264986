"""C24 toy datasets have the documented sizes, labels and geometry"""
import math
import numpy as np
import torch
from hypothesis import strategies as st
from vf import core, gen
from torchdyn.datasets import ToyDataset
from torchdyn.datasets.static_datasets import (generate_concentric_spheres, generate_diffeqml, generate_gaussians, generate_gaussians_spiral, generate_moons, generate_spirals,
                                               randnsphere)

F = core.Registry()
RULE = ("sample counts 2-400 (odd ones included), dimensions 2-6, radii, noise levels from none to strong, class counts and random seeds; every sample is tested against the "
        "geometric predicate of its class; non-trivial = more than one sample per class")
ASSUMPTIONS = ["statistical facts (spread of noise, isotropy, class means) are tested with margins of at least six standard deviations on at least 60 samples",
               "the spiral generators return n_samples points per arm and the gaussian generators n_samples points per gaussian, as implemented"]

seeds = st.integers(0, 10 ** 6)
noises = st.sampled_from([0., 0., 1e-4, 1e-2, .1, .3])
counts = st.one_of(st.integers(2, 12), st.integers(2, 60), st.integers(60, 400))


def seeded(seed, fn, *a, **kw):
    torch.manual_seed(seed)
    np.random.seed(seed % (2 ** 32))
    return fn(*a, **kw)


def basic(ctx, case, out, n, d, fn, kind, **kw):
    "sizes, finiteness, reproducibility and the dispatcher"
    X, y = out
    ctx.check(tuple(X.shape) == (n, d) and X.dtype == torch.float32, f"{kind}: samples of shape {tuple(X.shape)} {X.dtype}, expected {(n, d)}")
    ctx.check(torch.isfinite(X).all(), f"{kind}: non-finite samples")
    if y is not None:
        ctx.check(tuple(y.shape) == (n,), f"{kind}: labels of shape {tuple(y.shape)}")
    for who, again in (("second call", seeded(case["seed"], fn, **kw)),
                       ("dispatcher", seeded(case["seed"], ToyDataset().generate, kw["n_samples"], kind, **{k: v for k, v in kw.items() if k != "n_samples"}))):
        ctx.check(again is not None and torch.equal(again[0], X) and (y is None and again[1] is None or y is not None and torch.equal(again[1], y)), f"{kind}: {who} with the same seed differs")
    if n >= 4:
        other = seeded(case["seed"] + 1, fn, **kw)[0]
        random = kind != "moons" or kw["noise"]
        ctx.check(torch.equal(other, X) == (not random), f"{kind}: other seeds give {'the same' if random else 'different'} samples")


def spread(v):
    return float((v.double() ** 2).mean().sqrt())


@F.facet(st.fixed_dictionaries(dict(seed=seeds, n=counts, noise=noises, dim=st.integers(2, 6), r=gen.num(.25, 2), R=gen.num(.25, 4), tiny=st.integers(0, 3))), quick=200, thorough=3000, shards=2)
def spheres(case, ctx):
    "inner sphere labelled 1 (half of the samples, rounded down), outer sphere labelled 0"
    n, d, r, R, s = case["n"], case["dim"], max(case["r"], .1), max(case["R"], .1), case["noise"]
    if case.get("tiny") == 0:           # almost nothing but noise
        r, R, s = r * 1e-3, R * 1e-3, max(s, .1)
    kw = dict(n_samples=n, noise=s, dim=d, inner_radius=r, outer_radius=R)
    X, y = out = seeded(case["seed"], generate_concentric_spheres, **kw)
    basic(ctx, case, out, n, d, generate_concentric_spheres, "spheres", **kw)
    ctx.check(set(y.tolist()) <= {0, 1} and int((y == 1).sum()) == n // 2, f"{int((y == 1).sum())} of {n} samples are labelled inner")
    for lab, rad in ((1, r), (0, R)):
        P = X[y == lab].double()
        dev = P.norm(dim=1) - rad
        ctx.check(float(dev.abs().max()) <= 1e-5 * rad + s * (math.sqrt(d) + 7), f"label {lab}: distance {float(P.norm(dim=1)[dev.abs().argmax()])} from the centre, radius {rad}, noise {s}")
        if len(P) >= 60:
            if 0 < s <= rad / 20:
                ctx.check(.4 * s < spread(dev) < 2.5 * s, f"radial spread {spread(dev)} at noise {s}")
            if s >= 20 * rad:
                ctx.check(float((P.std(0) / s - 1).abs().max()) < 7 / math.sqrt(2 * len(P)) + .05, f"label {lab}: standard deviations {P.std(0).tolist()} at noise {s}")
                ctx.check(float((torch.corrcoef(P.T) - torch.eye(d)).abs().max()) < min(7 / math.sqrt(len(P)), .95), f"label {lab}: the noise of different coordinates is correlated")
            m = float(P.mean(0).abs().max())
            sd = math.sqrt((rad ** 2 / d + s ** 2) / len(P))
            ctx.check(m < 7 * sd, f"label {lab}: mean {m} of {len(P)} points on a sphere of radius {rad}")
            if s <= rad / 20:
                v = (P ** 2).mean(0) / rad ** 2 * d
                ctx.check(float((v - 1).abs().max()) < 7 * math.sqrt(2 / len(P)) + .05, f"label {lab}: coordinates of the sphere are not equally distributed: {v.tolist()}")
        ctx.check(len({tuple(p) for p in P.tolist()}) == len(P), "repeated samples")
    ctx.nontrivial(n >= 4)
    ctx.label("odd" if n % 2 else "even", f"dim{d}", f"noise{s}")


@F.facet(st.fixed_dictionaries(dict(seed=seeds, dim=st.integers(1, 8), r=gen.num(.125, 5))), quick=150, thorough=2000)
def one_sphere(case, ctx):
    r = max(case["r"], .01)
    p = seeded(case["seed"], randnsphere, case["dim"], r)
    ctx.check(tuple(p.shape) == (case["dim"],), f"shape {tuple(p.shape)}")
    ctx.close(p.double().norm(), torch.tensor(r, dtype=torch.float64), 1e-5, 0, f"norm of a point on a sphere of radius {r}")
    ctx.nontrivial(case["dim"] > 1)


@F.facet(st.fixed_dictionaries(dict(seed=seeds, n=counts, noise=st.one_of(noises, st.none(), st.just(300.)))), quick=150, thorough=3000)
def moons(case, ctx):
    "label 0: upper unit half circle around the origin, label 1: lower unit half circle around (1, 1/2)"
    n, s = case["n"], case["noise"]
    kw = dict(n_samples=n, noise=s)
    X, y = out = seeded(case["seed"], generate_moons, **kw)
    basic(ctx, case, out, n, 2, generate_moons, "moons", **kw)
    ctx.check(y.dtype == torch.int64 and set(y.tolist()) == {0, 1} and int((y == 0).sum()) == n // 2, f"{int((y == 0).sum())} of {n} samples are labelled outer")
    s = s or 0.
    P = X.double()
    for lab, (cx, cy), up in ((0, (0., 0.), 1), (1, (1., .5), -1)):
        Q = P[y == lab] - torch.tensor([cx, cy], dtype=torch.float64)
        dev = (Q.norm(dim=1) - 1).abs().max()
        ctx.check(float(dev) <= 1e-5 + 8 * s, f"label {lab}: {float(dev)} away from its circle at noise {s}")
        ctx.check(float((up * Q[:, 1]).min()) >= -1e-5 - 8 * s, f"label {lab}: a sample on the wrong half of the circle")
        if len(Q) >= 2 and s == 0:
            a = torch.atan2(up * Q[:, 1], Q[:, 0]).abs().sort().values
            ctx.close(a, torch.linspace(0, math.pi, len(Q), dtype=torch.float64), 0, 2e-3, f"label {lab}: angles along the half circle")
        if len(Q) >= 60 and s >= 100:
            ctx.check(float(Q.std(0).min()) > .1 * s, f"label {lab}: the same offset of all samples at noise {s}")
        if len(Q) >= 60 and s >= 1e-2:
            ctx.check(spread(Q.norm(dim=1) - 1) > .05 * s, f"label {lab}: no noise of scale {s}")
    ctx.nontrivial(n >= 4)
    ctx.label("odd" if n % 2 else "even", f"noise{case['noise']}")


@F.facet(st.fixed_dictionaries(dict(seed=seeds, n=counts, noise=st.one_of(noises, noises, st.just(3000.)))), quick=150, thorough=3000)
def spirals(case, ctx):
    "two spirals of n points each, mirror images of each other through the origin, radius equal to the angle up to 780 degrees"
    n, s = case["n"], case["noise"]
    kw = dict(n_samples=n, noise=s)
    X, y = out = seeded(case["seed"], generate_spirals, **kw)
    basic(ctx, case, out, 2 * n, 2, generate_spirals, "spirals", **kw)
    ctx.check(y.dtype == torch.int64 and set(y.tolist()) == {0, 1} and int((y == 0).sum()) == n, "each spiral has n samples")
    P, top = X.double(), 780 * 2 * math.pi / 360
    A, B = P[y == 0], P[y == 1]
    ctx.check(torch.equal(A[A[:, 0].argsort()], (-B)[(-B)[:, 0].argsort()]), "the spirals are not mirror images")
    if s == 0:
        rad = A.norm(dim=1)
        ctx.check(float(rad.max()) <= top + 1e-4, f"radius {float(rad.max())} beyond {top}")
        ctx.close(A, torch.stack([-torch.cos(rad) * rad, torch.sin(rad) * rad], 1), 0, 1e-4, "point on the spiral of its radius")
    else:
        k = torch.linspace(0, top, 12000, dtype=torch.float64)
        C = torch.stack([-torch.cos(k) * k, torch.sin(k) * k], 1)
        dist = torch.cdist(A, C).min(1).values
        ctx.check(float(dist.max()) <= 8 * s + .01, f"{float(dist.max())} away from the spiral at noise {s}")
        if n >= 60 and s >= 1e3:
            ctx.check(float(A.std(0).min()) > .1 * s, f"the same offset of all samples at noise {s}")
        if n >= 60 and s >= .1:
            ctx.check(spread(dist) > .05 * s, f"no noise of scale {s}")
    if n >= 60 and s < 1:
        rad = A.norm(dim=1)
        ctx.check(float(rad.max()) > .8 * top and float(rad.min()) < .5 * top, "the spiral is not covered")
    ctx.nontrivial(n >= 2)
    ctx.label(f"noise{s}")


def clusters(ctx, X, y, n, k, d, where, stds, noise, kind):
    "class i: n samples around where[i] with standard deviation stds[i]"
    ctx.check(y.dtype == torch.int64 and torch.equal(torch.bincount(y, minlength=k), torch.full((k,), n)), f"{kind}: class sizes {torch.bincount(y).tolist()}")
    off = []
    for i in range(k):
        P = X[y == i].double() - where[i]
        dev = float(P.abs().max())
        ctx.check(dev <= 7 * stds[i] + 6 * noise + 1e-5 * (1 + 2 * float(where[i].norm())), f"{kind}: class {i} is {dev} away from {where[i].tolist()} (std {stds[i]}, noise {noise})")
        m = float(P.mean(0).abs().max())
        ctx.check(m <= 7 * stds[i] / math.sqrt(n) + 6 * noise + 1e-5 * (1 + 2 * float(where[i].norm())), f"{kind}: mean of class {i} is {m} away from its centre")
        if n >= 60:
            sd = P.std(0)
            lo, hi = stds[i], math.sqrt(stds[i] ** 2 + noise ** 2)
            ctx.check(float(sd.min()) > .45 * lo - 2e-6 * (1 + float(where[i].norm())) and float(sd.max()) < 1.7 * hi + 1e-5 * (1 + float(where[i].norm())), f"{kind}: class {i} has standard deviation {sd.tolist()}, expected {stds[i]}")
        off.append(P.mean(0))
    off = torch.stack(off)
    if noise > 20 * max(stds) and off.numel() >= 12:
        rms = spread(torch.cat([(X[y == i].double() - where[i]) for i in range(k)]))
        ctx.check(rms > .05 * noise, f"{kind}: no noise of scale {noise}")


@F.facet(st.fixed_dictionaries(dict(seed=seeds, n=st.one_of(st.integers(1, 5), st.integers(60, 150)), k=st.integers(1, 9), dim=st.integers(2, 5), r=gen.num(.25, 3),
                                    std=st.sampled_from([1e-6, 1e-6, .01, .1, .5, 3.]), noise=noises)), quick=200, thorough=3000)
def gaussians(case, ctx):
    "k gaussians equally spaced on a circle in the plane of the first two coordinates"
    n, k, d, r = case["n"], case["k"], case["dim"], max(case["r"], .1)
    kw = dict(n_samples=n, n_gaussians=k, dim=d, radius=r, std_gaussians=case["std"], noise=case["noise"])
    X, y = out = seeded(case["seed"], generate_gaussians, **kw)
    basic(ctx, case, out, n * k, d, generate_gaussians, "gaussians", **kw)
    ang = [2 * math.pi * (i + 1) / k for i in range(k)]
    where = [torch.tensor([r * math.cos(a), r * math.sin(a)] + [0.] * (d - 2), dtype=torch.float64) for a in ang]
    clusters(ctx, X, y, n, k, d, where, [case["std"]] * k, case["noise"], "gaussians")
    ctx.nontrivial(n > 1 and k > 1)
    ctx.label(f"dim{d}", f"std{case['std']}", f"noise{case['noise']}")


@F.facet(st.fixed_dictionaries(dict(seed=seeds, n=st.one_of(st.integers(1, 5), st.integers(60, 150)), k=st.integers(1, 9), loop=st.integers(1, 6), dim=st.integers(2, 5), a=gen.num(.25, 12),
                                    b=gen.num(.125, 12), sa=st.sampled_from([1e-6, .01, .3, 4.]), sb=st.sampled_from([1e-6, .01, .1, 5.]), noise=noises)), quick=200, thorough=3000)
def gaussians_spiral(case, ctx):
    "k gaussians whose radius and standard deviation are interpolated linearly, equally spaced in angle"
    n, k, d, m = case["n"], case["k"], case["dim"], case["loop"]
    a, b = max(case["a"], .1), max(case["b"], .1)
    kw = dict(n_samples=n, n_gaussians=k, n_gaussians_per_loop=m, dim=d, radius_start=a, radius_end=b, std_gaussians_start=case["sa"], std_gaussians_end=case["sb"], noise=case["noise"])
    X, y = out = seeded(case["seed"], generate_gaussians_spiral, **kw)
    basic(ctx, case, out, n * k, d, generate_gaussians_spiral, "gaussians_spiral", **kw)
    lin = lambda u, v: [u + (v - u) * i / max(k - 1, 1) for i in range(k)]
    rad, ang = lin(a, b), [2 * math.pi * (i + 1) / m for i in range(k)]
    where = [torch.tensor([r * math.cos(t), r * math.sin(t)] + [0.] * (d - 2), dtype=torch.float64) for r, t in zip(rad, ang)]
    clusters(ctx, X, y, n, k, d, where, lin(case["sa"], case["sb"]), case["noise"], "gaussians_spiral")
    ctx.nontrivial(n > 1 and k > 1)
    ctx.label(f"dim{d}", f"loop{m}", f"noise{case['noise']}")


_logo = []


def logo():
    if not _logo:
        from scipy.integrate import solve_ivp
        f = lambda t, x: [-x[1] + x[0] * (1 - x[0] ** 2 - x[1] ** 2), x[0] + x[1] * (1 - x[0] ** 2 - x[1] ** 2)]
        arms = [torch.from_numpy(solve_ivp(f, [0, 3.2], x0, t_eval=np.linspace(0, 3.2, 2000), rtol=1e-8, atol=1e-8).y.T.copy()) for x0 in ([0, 2], [-1.6, -1.2], [1.6, -1.2])]
        k = torch.linspace(0, 2 * math.pi, 3000, dtype=torch.float64)
        _logo.append((torch.stack([2 * torch.cos(k), 2 * torch.sin(k)], 1), arms))
    return _logo[0]


@F.facet(st.fixed_dictionaries(dict(seed=seeds, n=st.integers(1, 400), noise=st.sampled_from([0., 1e-3, 1e-2, .1]))), quick=40, thorough=600)
def diffeqml(case, ctx):
    "samples around the circle of radius two and the three trajectories of the logo"
    n, s = case["n"], case["noise"]
    X, y = out = seeded(case["seed"], generate_diffeqml, n_samples=n, noise=s)
    ctx.check(y is None, "labels of an unlabelled dataset")
    basic(ctx, case, out, n, 2, generate_diffeqml, "diffeqml", n_samples=n, noise=s)
    ring, arms = logo()
    P = X.double()
    d = torch.stack([torch.cdist(P, c).min(1).values for c in [ring] + arms])
    ctx.check(float(d.min(0).values.max()) <= .075 + 6 * s, f"a sample is {float(d.min(0).values.max())} away from the logo at noise {s}")
    if n >= 200 and s <= 1e-2:
        who = torch.bincount(d.argmin(0), minlength=4)
        ctx.check(int(who.min()) > 0, f"parts of the logo without samples: {who.tolist()} (circle and three arms)")
    ctx.nontrivial(n > 1)
    ctx.label(f"noise{s}")


@F.facet(st.fixed_dictionaries(dict(seed=seeds, n=st.integers(2, 40), kind=st.sampled_from(["moons", "spirals", "spheres", "gaussians", "gaussians_spiral", "diffeqml"]))), quick=60, thorough=600)
def defaults(case, ctx):
    "generation with default options: dispatcher equals the direct call, and the options left out have their documented values"
    fn = {"moons": generate_moons, "spirals": generate_spirals, "spheres": generate_concentric_spheres, "gaussians": generate_gaussians, "gaussians_spiral": generate_gaussians_spiral,
          "diffeqml": generate_diffeqml}[case["kind"]]
    a, b = seeded(case["seed"], fn, case["n"]), seeded(case["seed"], ToyDataset().generate, case["n"], case["kind"])
    ctx.check(torch.equal(a[0], b[0]) and (a[1] is None and b[1] is None or torch.equal(a[1], b[1])), f"{case['kind']}: dispatcher differs from the direct call")
    doc = {"moons": dict(noise=1e-4), "spirals": dict(noise=1e-4), "spheres": dict(dim=3, noise=1e-4, inner_radius=.5, outer_radius=1.),
           "gaussians": dict(n_gaussians=7, dim=2, radius=.5, std_gaussians=.1, noise=1e-3),
           "gaussians_spiral": dict(n_gaussians=7, n_gaussians_per_loop=4, dim=2, radius_start=1, radius_end=.2, std_gaussians_start=.3, std_gaussians_end=.1, noise=1e-3),
           "diffeqml": dict(noise=1e-3)}[case["kind"]]
    c = seeded(case["seed"], fn, case["n"], **doc)
    ctx.check(torch.equal(a[0], c[0]), f"{case['kind']}: the default options are not {doc}")
    per = {"moons": 1, "spirals": 2, "spheres": 1, "gaussians": 7, "gaussians_spiral": 7, "diffeqml": 1}[case["kind"]]
    ctx.check(len(a[0]) == per * case["n"], f"{case['kind']}: {len(a[0])} samples for n = {case['n']}")
    ctx.nontrivial()
    ctx.label(case["kind"])

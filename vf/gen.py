"""Hypothesis strategies shared by the property modules. Every case is plain JSON data."""
import random

from hypothesis import strategies as st


def num(lo, hi, q=8):
    "mostly lattice points i/q (exact in float32), sometimes decimals; shrinks towards the lattice and 0"
    lat = st.integers(int(round(lo * q)), int(round(hi * q))).map(lambda i: i / q)
    dec = st.integers(int(round(lo * 1000)), int(round(hi * 1000))).map(lambda i: i / 1000)
    return st.one_of(lat, lat, dec)


def pos(lo, hi):
    return st.integers(int(round(lo * 1000)), int(round(hi * 1000))).map(lambda i: i / 1000)


def vec(n, lo, hi):
    return st.lists(num(lo, hi), min_size=n, max_size=n)


def mat(n, m, lo, hi):
    return st.lists(vec(m, lo, hi), min_size=n, max_size=n)


dtypes = st.sampled_from(["f64", "f64", "f32"])


@st.composite
def field(draw, d=None, lip=1.0, time=None, nonlinear=None, hidden=2):
    """f(t, x) = A x + B tanh(C x + dt*t + e) + g cos(w t + p), entries of A, B, C bounded by `lip`/d.
    time/nonlinear: True forces the term, False removes it, None leaves it to the generator."""
    if d is None:
        d = draw(st.integers(1, 3))
    time = draw(st.booleans()) if time is None else time
    nonlinear = draw(st.booleans()) if nonlinear is None else nonlinear
    s = {"d": d, "A": draw(mat(d, d, -lip, lip)), "b": draw(vec(d, -1, 1))}
    if nonlinear:
        h = draw(st.integers(1, hidden))
        s["B"] = draw(mat(d, h, -lip, lip))
        s["C"] = draw(mat(h, d, -lip, lip))
        s["e"] = draw(vec(h, -1, 1))
        s["dt"] = draw(vec(h, -1.5, 1.5)) if time else [0.] * h
    if time:
        s["g"] = draw(vec(d, -2, 2))
        s["w"] = draw(num(0.5, 4))
        s["p"] = draw(num(-1, 1))
    return s


@st.composite
def state(draw, d, lo=-2, hi=2, shapes=("v", "b", "b", "bk")):
    "nested list of shape (d,), (b, d) or (b, k, d)"
    kind = draw(st.sampled_from(shapes))
    if kind == "v":
        return draw(vec(d, lo, hi))
    if kind == "b":
        return draw(mat(draw(st.integers(1, 3)), d, lo, hi))
    b, k = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    return [draw(mat(k, d, lo, hi)) for _ in range(b)]


def spread(seed, n, m, lo, hi):
    "n x m decimals expanded from one number"
    r = random.Random(seed)
    return [[round(r.uniform(lo, hi), 3) for _ in range(m)] for _ in range(n)]


@st.composite
def batch(draw, d, lo=-2, hi=2, bmax=3, bmin=1, wide=True):
    "small batches; now and then (unless a size is asked for) a large one"
    if wide and bmax == 3 and draw(st.integers(0, 11)) == 11:
        return spread(draw(st.integers(0, 999)), draw(st.sampled_from([5, 8, 17, 33, 70])), d, lo, hi)
    return draw(mat(draw(st.integers(bmin, bmax)), d, lo, hi))


@st.composite
def grid(draw, nmin=2, nmax=7, hmin=0.05, hmax=0.5, reverse=None, uniform=None, t0=(-2, 2), kinds=None, wide=True):
    """strictly monotone times. Uniform, irregular, strongly graded, or with one point very close to another; now and then many points or a distant start"""
    n = draw(st.integers(nmin, nmax))
    start = draw(num(*t0))
    far = wide and draw(st.integers(0, 11)) == 11
    if far:
        start = draw(st.sampled_from([-40., -9.5, 12., 64.]))
    if wide and kinds is None and nmax >= 5 and draw(st.integers(0, 11)) == 11:
        m, L = draw(st.sampled_from([14, 20] if uniform else [20, 50, 130])), (nmax - 1) * (hmin + hmax) / 2
        w = spread(draw(st.integers(0, 999)), 1, m - 1, .5, 1.5)[0] if not uniform else [1.] * (m - 1)
        t = [start]
        for v in w:
            t.append(round(t[-1] + round(L * v / m, 4), 6))
        return t[::-1] if (draw(st.integers(0, 3)) == 0 if reverse is None else reverse) else t
    kind = draw(st.sampled_from(kinds or ["irregular", "irregular", "uniform", "graded", "lattice", "nearly-uniform"])) if uniform is None else ("uniform" if uniform else "irregular")
    if kind == "uniform":
        h = draw(pos(hmin, hmax))
        inc = [h] * (n - 1)
    elif kind == "nearly-uniform":
        h, k = draw(pos(hmin, hmax)), draw(st.integers(1, 4))
        inc = [h * (1 + k * 1e-4 * i) for i in range(n - 1)]
    elif kind == "graded":
        h = draw(pos(hmin, hmax))
        r = draw(st.sampled_from([0.25, 0.5, 2., 4.]))
        inc = [min(max(h * r ** i, hmin / 4), hmax * 2) for i in range(n - 1)]
    elif kind == "lattice":
        inc = [draw(st.integers(1, 4)) / 8 for _ in range(n - 1)]
    else:
        inc = [draw(pos(hmin, hmax)) for _ in range(n - 1)]
    t = [start]
    for h in inc:
        t.append(round(t[-1] + h, 6))
    rev = draw(st.integers(0, 3)) == 0 if reverse is None else reverse
    if rev:
        t = t[::-1]
    return t

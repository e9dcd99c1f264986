"""Vector fields from plain-data specs, reference solvers and small tensor helpers (independent of torchdyn)."""
import math
import zlib
import numpy as np
import torch
import torch.nn as nn
from .core import Violation

DT = {"f32": torch.float32, "f64": torch.float64}


def T(v, dtype="f64"):
    "tensor of plain data; a third of them (chosen by the data) are views that are not contiguous in memory"
    x = torch.tensor(v, dtype=DT[dtype] if isinstance(dtype, str) else dtype)
    if x.dim() and zlib.crc32(repr(v).encode()) % 3 == 0:
        if x.dim() > 1 and min(x.shape[-2:]) > 1:
            x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
        else:
            x = torch.stack([x, x + 1], -1)[..., 0]
    return x


def rtol(dtype, k=1.0):
    return k * (2e-5 if dtype in ("f32", torch.float32) else 1e-10)


class Field:
    "f(t, x) of a gen.field spec; counts evaluations and refuses to be evaluated forever"
    def __init__(self, spec, dtype="f64", cap=60000, params=None):
        self.spec, self.n, self.cap, self.times = spec, 0, cap, []
        self.p = params if params is not None else {k: T(v, dtype) for k, v in spec.items() if k not in ("d", "w", "p")}
        self.w, self.ph = spec.get("w", 1.), spec.get("p", 0.)
        self.record = False

    def eval(self, t, x):
        p = self.p
        y = x @ p["A"].T + p["b"]
        if "B" in p:
            # t can be a 0-dim or 1-element tensor
            tt = t if not torch.is_tensor(t) else t.reshape(())
            y = y + torch.tanh(x @ p["C"].T + p["dt"] * tt + p["e"]) @ p["B"].T
        if "g" in p:
            tt = t if not torch.is_tensor(t) else t.reshape(())
            y = y + p["g"] * (torch.cos(self.w * tt + self.ph) if torch.is_tensor(tt) else math.cos(self.w * tt + self.ph))
        return y

    def __call__(self, t, x, args=None):
        self.n += 1
        if self.n > self.cap:
            raise Violation(f"integration does not terminate: more than {self.cap} evaluations of the vector field")
        if self.record:
            self.times.append(float(t))
        return self.eval(t, x)


class FieldModule(nn.Module):
    "the same field with trainable parameters; `keys` selects which are nn.Parameters"
    def __init__(self, spec, dtype="f64", cap=60000, scalar_time=True):
        super().__init__()
        self.f = Field(spec, dtype, cap)
        for k in list(self.f.p):
            self.register_parameter(k, nn.Parameter(self.f.p[k].clone()))
        self.f.p = None
        self._keys = [k for k in spec if k not in ("d", "w", "p")]

    def forward(self, t, x, args=None):
        self.f.p = {k: getattr(self, k) for k in self._keys}
        return self.f(t, x)


def spec_time(spec):
    "does the field depend on time"
    return any(abs(v) > 1e-9 for v in spec.get("g", [])) or ("B" in spec and any(abs(v) > 1e-9 for v in spec["dt"])
                                                             and any(abs(v) > 1e-9 for r in spec["B"] for v in r))


def moves(spec, x):
    f = Field(spec)
    return bool(f.eval(torch.tensor(0.3, dtype=torch.float64), T(x)).abs().max() > 1e-3)


# ------------------------------------------------------------------------------------------ references
TABLEAU = {
    "euler": ([[]], [1.], [0.]),
    "midpoint": ([[], [.5]], [0., 1.], [0., .5]),
    "rk4": ([[], [.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6], [0., .5, .5, 1.]),
    "heun3": ([[], [1 / 3], [0., 2 / 3]], [1 / 4, 0., 3 / 4], [0., 1 / 3, 2 / 3]),
}


def rk_step(name, f, t, x, h):
    A, b, c = TABLEAU[name]
    ks = []
    for i in range(len(b)):
        xi = x
        for a, k in zip(A[i], ks):
            xi = xi + h * a * k
        ks.append(f(t + c[i] * h, xi))
    out = x
    for bi, k in zip(b, ks):
        out = out + h * bi * k
    return out


def rk_solve(name, f, x, ts):
    "textbook fixed-step explicit Runge-Kutta solution at every point of ts (any direction)"
    sol = [x]
    for i in range(len(ts) - 1):
        sol.append(rk_step(name, f, ts[i], sol[-1], ts[i + 1] - ts[i]))
    return torch.stack(sol)


def fine_solve(f, x, ts, n=40):
    "differentiable reference: n rk4 steps between consecutive points of ts (or more: none longer than 1/30; or fewer, but at least 2, on intervals shorter than 1/10)"
    sol = [x]
    for i in range(len(ts) - 1):
        L = abs(float(ts[i + 1] - ts[i]))
        k = max(min(n, int(np.ceil(n * L / .1))), int(np.ceil(L * 30)), 2)
        h, y = (ts[i + 1] - ts[i]) / k, sol[-1]
        for j in range(k):
            y = rk_step("rk4", f, ts[i] + j * h, y, h)
        sol.append(y)
    return torch.stack(sol)


def scipy_solve(f, x, ts, rtol=1e-11, atol=1e-12):
    "high-accuracy float64 reference at the times ts (list of floats, any direction)"
    from scipy.integrate import solve_ivp
    x = torch.as_tensor(x, dtype=torch.float64)
    shape = x.shape

    def fun(t, y):
        with torch.no_grad():
            return f(torch.tensor(t, dtype=torch.float64), torch.from_numpy(y.copy()).reshape(shape)).reshape(-1).numpy()
    r = solve_ivp(fun, (ts[0], ts[-1]), x.detach().reshape(-1).numpy(), method="DOP853", t_eval=np.array(ts, dtype=float), rtol=rtol, atol=atol)
    if not r.success or r.y.shape[1] != len(ts):
        from .core import Inconclusive
        raise Inconclusive("reference integration failed")
    return torch.from_numpy(r.y.T.copy()).reshape(len(ts), *shape)


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)

"""C20 energy-based fields have the gradient structure of their energy"""
import torch
from torch import nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, T, rtol
from torchdyn.core import NeuralODE
from torchdyn.models.energy import GNF, HNN, LNN, ConservativeLinearSNF
from torchdyn.numerics.solvers.ode import DormandPrince45

F = core.Registry()
RULE = ("random energies (quadratic, neural, mixed; scalar outputs as (b,) or (b, 1)), random state-dependent interconnection matrices, random Lagrangians with position-"
        "dependent mass, gyroscopic and potential terms; 1-4 degrees, batches, both dtypes; closed-form fields as oracle; non-trivial = the field is not zero")
D = torch.float64


class Energy(nn.Module):
    "H(x) = x'Qx/2 + b.x + w.tanh(Cx + e)"
    def __init__(self, s, dtype=D):
        super().__init__()
        self.col = s["col"]
        for k in ("Q", "b", "w", "C", "e"):
            self.register_parameter(k, nn.Parameter(T(s[k], dtype)))

    def forward(self, x):
        h = ((x @ self.Q) * x).sum(-1) / 2 + x @ self.b + torch.tanh(x @ self.C.T + self.e) @ self.w
        return h[..., None] if self.col else h

    def grad(self, x):
        "closed form"
        s = 1 - torch.tanh(x @ self.C.T + self.e) ** 2
        return x @ (self.Q + self.Q.T) / 2 + self.b + (s * self.w) @ self.C


class Inter(nn.Module):
    "J(x) = (K0 + tanh(v.x) K1), flattened"
    def __init__(self, s, dtype=D):
        super().__init__()
        self.K0, self.K1, self.v = (nn.Parameter(T(s[k], dtype)) for k in ("K0", "K1", "v"))

    def forward(self, x):
        return (self.K0[None] + torch.tanh(x @ self.v)[:, None, None] * self.K1).reshape(len(x), -1)


@st.composite
def energy(draw, d):
    h = draw(st.integers(1, 2))
    return dict(Q=draw(gen.mat(d, d, -1, 1)), b=draw(gen.vec(d, -1, 1)), w=draw(gen.vec(h, -1, 1)), C=draw(gen.mat(h, d, -1, 1)), e=draw(gen.vec(h, -1, 1)), col=draw(st.booleans()))


@st.composite
def case_field(draw):
    kind = draw(st.sampled_from(["gnf", "hnn", "snf"]))
    d = draw(st.integers(1, 4)) if kind != "hnn" else 2 * draw(st.integers(1, 2))
    return dict(kind=kind, H=draw(energy(d)), J=dict(K0=draw(gen.mat(d, d, -1, 1)), K1=draw(gen.mat(d, d, -1, 1)), v=draw(gen.vec(d, -1, 1))), x=draw(gen.batch(d, bmax=4)),
                dtype=draw(gen.dtypes), w=draw(gen.vec(d, -1, 1)), train=draw(st.booleans()))


def model(case, dt=D):
    H = Energy(case["H"], dt)
    if case["kind"] == "gnf":
        return GNF(H), H, None
    if case["kind"] == "hnn":
        return HNN(H), H, None
    J = Inter(case["J"], dt)
    return ConservativeLinearSNF(H, J), H, J


def closed_form(kind, H, J, x):
    g, d = H.grad(x), x.shape[1]
    if kind == "gnf":
        return -g
    if kind == "hnn":
        return torch.cat([g[:, d // 2:], -g[:, :d // 2]], 1)
    M = J(x).reshape(len(x), d, d)
    S = (M - M.transpose(1, 2)) / 2
    return torch.einsum("bi,bij->bj", g, S)


@F.facet(case_field(), quick=700, thorough=12000)
def closed_form_field(case, ctx):
    "the field equals its closed form, also without gradient tracking and for each sample alone; parameter gradients equal those of the closed form"
    dt = DT[case["dtype"]]
    m, H, J = model(case, dt)
    m.train(case.get("train", True))
    _, H0, J0 = model(case)
    x, xd = T(case["x"], dt), T(case["x"])
    tol = rtol(dt, 10)
    out, want = m(x.clone()), closed_form(case["kind"], H0, J0, xd)
    if case["kind"] == "snf" and float((out.double() - want).abs().max()) > tol * (1 + float(want.abs().max())):
        want = -want        # the sign of the skew-symmetric matrix is a convention
    ctx.close(out, want, tol, tol, f"{case['kind']} field")
    ctx.check(out.dtype == dt, f"dtype {out.dtype}")
    with torch.no_grad():
        ctx.close(m(x.clone()), want, tol, tol, "field without gradient tracking")
    for i in range(len(x)):
        ctx.close(m(x[i:i + 1].clone())[0], want[i], tol, tol, f"sample {i} alone")
    if case["kind"] != "gnf":
        p = (out.double() * H0.grad(xd)).sum(1)
        ctx.close(p, torch.zeros_like(p), 0, tol * (1 + float((out.double().abs() * H0.grad(xd).abs()).max())), "rate of change of the energy")
    else:
        ctx.check(bool(((out.double() * H0.grad(xd)).sum(1) <= 1e-6).all()), "the energy increases along the gradient flow")
    if case["dtype"] == "f64":
        W = T(case["w"])
        xa, xb = x.clone().requires_grad_(True), xd.clone().requires_grad_(True)
        ps, qs = list(H.parameters()) + (list(J.parameters()) if J is not None else []), list(H0.parameters()) + (list(J0.parameters()) if J0 is not None else [])
        ref = closed_form(case["kind"], H0, J0, xb)
        sign = 1. if float((ref - want).abs().max()) <= float((ref + want).abs().max()) else -1.
        ga = torch.autograd.grad((m(xa) * W).sum(), [xa] + ps, allow_unused=True)
        gb = torch.autograd.grad((sign * ref * W).sum(), [xb] + qs, allow_unused=True)
        for k, (a, b, q) in enumerate(zip(ga, gb, [xb] + qs)):
            a, b = (torch.zeros_like(q) if v is None else v for v in (a, b))
            ctx.close(a, b, 1e-9, 1e-9, f"gradient of the field with respect to {'state' if k == 0 else 'parameter %d' % k}")
    ctx.nontrivial(float(want.abs().max()) > 1e-3)
    ctx.label(case["kind"], case["dtype"], f"d{x.shape[1]}", f"b{len(x)}")


@st.composite
def case_flow(draw):
    c = draw(case_field())
    c["t"] = draw(gen.grid(nmin=2, nmax=5, hmin=.1, hmax=.5, reverse=False))
    c["sens"] = draw(st.sampled_from(["autograd", "adjoint"]))
    return c


@F.facet(case_flow(), quick=200, thorough=3000)
def energy_along_flows(case, ctx):
    "energies decrease along gradient flows and are conserved along Hamiltonian and conservative ones"
    m, H, J = model(case)
    m.train(case.get("train", True))
    x, ts = T(case["x"]), T(case["t"])
    n = NeuralODE(m, solver=DormandPrince45(D), sensitivity=case["sens"], atol=1e-9, rtol=1e-9)
    sol = n(x.clone(), ts)[1].detach()
    E = H(sol.reshape(-1, x.shape[1])).reshape(len(ts), len(x)).detach()
    tol = 1e-6 * (1 + float(E.abs().max()))
    if case["kind"] == "gnf":
        ctx.check(bool((E[1:] <= E[:-1] + tol).all()), f"energies {E.tolist()} increase along the gradient flow")
        g2 = float((H.grad(x) ** 2).sum(1).min())
        if g2 > .1:
            ctx.check(bool((E[-1] < E[0]).all()), f"energies {E.tolist()} do not decrease")
    else:
        ctx.close(E, E[:1].expand_as(E), 0, tol * 10, f"energies along the {case['kind']} flow")
    ctx.nontrivial(float((sol[-1] - sol[0]).abs().max()) > 1e-3)
    ctx.label(case["kind"], case["sens"])


class Lagrangian(nn.Module):
    "L = qd'(M + s(q) N)qd/2 + q'G qd - V(q), s(q) = 1.5 + tanh(c.q), V = k.q + q'Pq/2 + sin(q) summed"
    def __init__(self, s):
        super().__init__()
        for k in ("RM", "RN", "G", "c", "k", "P"):
            self.register_parameter(k, nn.Parameter(T(s[k])))
        self.col, self.masses = s["col"], s.get("masses", [1.] * 3)

    def mass(self):
        n = len(self.c)
        unit = torch.tensor(self.masses[:n], dtype=D)
        return unit[:, None] * (self.RM @ self.RM.T + torch.eye(n, dtype=D)) * unit, unit[:, None] * (self.RN @ self.RN.T) * unit

    def forward(self, x):
        n = len(self.c)
        q, v = x[..., :n], x[..., n:]
        M, N = self.mass()
        s = 1.5 + torch.tanh(q @ self.c)
        L = ((v @ M) * v).sum(-1) / 2 + s * ((v @ N) * v).sum(-1) / 2 + ((q @ self.G) * v).sum(-1) - (q @ self.k + ((q @ self.P) * q).sum(-1) / 2 + torch.sin(q).sum(-1))
        return L[..., None] if self.col else L

    def acceleration(self, q, v):
        M, N = self.mass()
        th = torch.tanh(q @ self.c)
        s, ds = 1.5 + th, (1 - th ** 2)[:, None] * self.c
        A = M + s[:, None, None] * N
        dV = self.k + q @ (self.P + self.P.T) / 2 + torch.cos(q)
        dLdq = ((v @ N) * v).sum(1, keepdim=True) / 2 * ds + v @ self.G.T - dV
        dpdq_v = (v @ N) * (ds * v).sum(1, keepdim=True) + v @ self.G
        return torch.linalg.solve(A, (dLdq - dpdq_v)[..., None])[..., 0]

    def energy(self, q, v):
        M, N = self.mass()
        s = 1.5 + torch.tanh(q @ self.c)
        V = q @ self.k + ((q @ self.P) * q).sum(-1) / 2 + torch.sin(q).sum(-1)
        return ((v @ M) * v).sum(-1) / 2 + s * ((v @ N) * v).sum(-1) / 2 + V


@st.composite
def case_lag(draw):
    n = draw(st.integers(1, 3))
    L = {k: draw(gen.mat(n, n, -1, 1)) for k in ("RM", "RN", "G", "P")}
    return dict(L=dict(c=draw(gen.vec(n, -1, 1)), k=draw(gen.vec(n, -1, 1)), col=draw(st.booleans()), masses=draw(st.sampled_from([[1., 1., 1.], [1., 1., 1.], [1., .1, .5], [.25, 1., .03]])), **L), x=draw(gen.batch(2 * n, bmax=3)), w=draw(gen.vec(2 * n, -1, 1)), train=draw(st.booleans()),
                t=draw(gen.grid(nmin=2, nmax=3, hmin=.05, hmax=.2, reverse=False)))


@F.facet(case_lag(), quick=200, thorough=3000)
def euler_lagrange(case, ctx):
    "the Lagrangian field is velocity and acceleration of the Euler-Lagrange equations, per sample and differentiable"
    L, L0 = Lagrangian(case["L"]), Lagrangian(case["L"])
    m, x = LNN(L).train(case.get("train", True)), T(case["x"])
    n = x.shape[1] // 2
    xb = x.clone().requires_grad_(True)
    want = torch.cat([xb[:, n:], L0.acceleration(xb[:, :n], xb[:, n:])], 1)
    xa = x.clone().requires_grad_(True)
    out = m(xa)
    ctx.close(out, want, 1e-9, 1e-9, "Lagrangian field")
    for i in range(len(x)):
        ctx.close(m(x[i:i + 1].clone())[0], want[i], 1e-9, 1e-9, f"sample {i} alone")
    W = T(case["w"])
    ga = torch.autograd.grad((out * W).sum(), list(L.parameters()), allow_unused=True)
    gb = torch.autograd.grad((want * W).sum(), list(L0.parameters()), allow_unused=True)
    for (k, p), a, b in zip(L0.named_parameters(), ga, gb):
        a, b = (torch.zeros_like(p) if v is None else v for v in (a, b))
        ctx.close(a, b, 1e-7, 1e-7, f"gradient of the field with respect to {k}")
    ctx.nontrivial(float(want[:, n:].abs().max()) > 1e-3 and float(x[:, n:].abs().max()) > 1e-3)
    ctx.label(f"n{n}", f"b{len(x)}")


@F.facet(case_lag(), quick=24, thorough=300)
def lagrangian_energy(case, ctx):
    "the energy of the Lagrangian is conserved along its flow"
    L, x, ts = Lagrangian(case["L"]), T(case["x"])[:2], T(case["t"])
    n = x.shape[1] // 2
    sol = NeuralODE(LNN(L), solver=DormandPrince45(D), atol=1e-7, rtol=1e-7)(x.clone(), ts)[1].detach()
    E = L.energy(sol[..., :n], sol[..., n:]).detach()
    ctx.close(E, E[:1].expand_as(E), 1e-4, 1e-4, "energy along the Lagrangian flow")
    ctx.nontrivial(float((sol[-1] - sol[0]).abs().max()) > 1e-2)

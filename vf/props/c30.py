"""C30 Hybrid sequence models alternate jumps and flows over the sequence"""
import torch
import torch.nn as nn
from hypothesis import strategies as st
from vf import core, gen
from vf.fields import DT, FieldModule, T, rk_solve, rtol
from torchdyn.core import NeuralODE
from torchdyn.models.hybrid import HybridNeuralDE

F = core.Registry()
RULE = ("random sequences (length, batch, inputs), cells with randomly drawn weights (plain and relu recurrent, gated, with memory, custom), flows (linear maps, Neural ODEs of several "
        "solvers, identity), output maps, directions, output modes, dtypes; non-trivial = at least two elements and a flow or a cell that remembers")
ASSUMPTIONS = ["custom cells take (element, state) and have hidden_size, as documented"]


class Custom(nn.Module):
    "h' = tanh(U x + V h) + h / 2"
    def __init__(self, i, h):
        super().__init__()
        self.hidden_size = h
        self.U, self.V = nn.Linear(i, h), nn.Linear(h, h)

    def forward(self, x, h):
        return torch.tanh(self.U(x) + self.V(h)) + h / 2


class SubLSTM(nn.LSTMCell):
    pass


class Reshape(nn.Module):
    "last dimension into several (or none)"
    def __init__(self, *shape):
        super().__init__()
        self.shape = shape

    def forward(self, y):
        return y.reshape(*y.shape[:-1], *self.shape)


CELLS = {"rnn": lambda i, h: nn.RNNCell(i, h), "relu": lambda i, h: nn.RNNCell(i, h, nonlinearity="relu"), "gru": nn.GRUCell, "lstm": nn.LSTMCell, "lstm_nobias": lambda i, h: nn.LSTMCell(i, h, bias=False),
         "gru_nobias": lambda i, h: nn.GRUCell(i, h, bias=False), "custom": Custom}
FLOWS = ["id", "lin", "node", "node", "node_multi"]


@st.composite
def case_seq(draw):
    i, h, b, n = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 6))
    return dict(cell=draw(st.sampled_from(list(CELLS))), flow=draw(st.sampled_from(FLOWS)), f=draw(gen.field(d=h)), t=draw(gen.grid(nmin=2, nmax=4, reverse=None)),
                solver=draw(st.sampled_from(["euler", "midpoint", "rk4"])), out=draw(st.sampled_from(["id", "lin", "mlp", "grid", "scalar"])), i=i, h=h, x=[draw(gen.mat(b, i, -2, 2)) for _ in range(n)],
                reverse=draw(st.booleans()), last=draw(st.booleans()), seed=draw(st.integers(0, 9999)), dtype=draw(gen.dtypes))


def weights_(m, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.rand(p.shape, generator=g, dtype=torch.float64) * 2 - 1)
    return m


def build(case):
    "cell, flow module, flow as a function, output map"
    dt = DT[case["dtype"]]
    cell = weights_(CELLS[case["cell"]](case["i"], case["h"]), case["seed"]).to(dt)
    h = case["h"]
    if case["flow"] == "id":
        flow = nn.Identity()
        ref = flow
    elif case["flow"] == "lin":
        flow = weights_(nn.Linear(h, h), case["seed"] + 1).to(dt)
        ref = flow
    else:
        vf = FieldModule(case["f"], case["dtype"])
        ts = T(case["t"], case["dtype"])
        node = NeuralODE(vf, solver=case["solver"], sensitivity="autograd", return_t_eval=False)
        node.t_span = ts if case["flow"] == "node_multi" else ts[[0, -1]]

        class Last(nn.Module):
            def __init__(self):
                super().__init__()
                self.node = node

            def forward(self, y):
                return self.node(y)[-1]
        flow = Last()

        def ref(y):
            return rk_solve(case["solver"], vf, y, node.t_span)[-1]
    out = {"grid": nn.Sequential(nn.Linear(h, 6), Reshape(2, 3)), "scalar": nn.Sequential(nn.Linear(h, 1), Reshape()), "id": nn.Identity(), "lin": nn.Linear(h, 2), "mlp": nn.Sequential(nn.Linear(h, 3), nn.Tanh(), nn.Linear(3, 2))}[case["out"]]
    return cell, flow, ref, weights_(out, case["seed"] + 2).to(dt)


def loop(case, cell, flow, out, x):
    "the explicit loop"
    h = torch.zeros(x.shape[1], case["h"], dtype=x.dtype)
    c = torch.zeros(x.shape[1], case["h"], dtype=x.dtype)
    hs = []
    idx = range(x.shape[0])
    for k in (reversed(idx) if case["reverse"] else idx):
        if isinstance(cell, nn.LSTMCell):
            h, c = cell(x[k], (h, c))
        else:
            h = cell(x[k], h)
        h = flow(h)
        hs.append(h)
    y = torch.stack([out(v) for v in hs])
    return y[-1] if case["last"] else y


def labels(ctx, case):
    ctx.label(case["cell"], case["flow"], "reverse" if case["reverse"] else "forward", "last" if case["last"] else "all", case["dtype"], "batch of one" if len(case["x"][0]) == 1 else "batch")
    ctx.nontrivial(len(case["x"]) > 1)


@F.facet(case_seq(), quick=600, thorough=9000)
def explicit_loop(case, ctx):
    "outputs are those of the explicit loop, every call anew, and the sequence is left as it was"
    x = T(case["x"], case["dtype"])
    cell, flow, ref, out = build(case)
    model = HybridNeuralDE(flow, cell, out, case["last"], case["reverse"])
    keep = x.clone()
    got = model(x)
    want = loop(case, cell, ref, out, x)
    tol = 1e-3 if case["dtype"] == "f32" else 1e-6   # string solvers have float32 tableaus
    ctx.close(got, want, tol, tol, f"{case['cell']} with flow {case['flow']}")
    ctx.check(got.shape == want.shape and got.dtype == want.dtype, f"{got.shape} {got.dtype} instead of {want.shape} {want.dtype}")
    ctx.check(torch.equal(model(x), got), "a second call gives another result")
    ctx.check(torch.equal(x, keep), "the sequence was modified")
    labels(ctx, case)


@F.facet(case_seq(), quick=300, thorough=4500)
def gradients(case, ctx):
    "gradients w.r.t. the sequence and all parameters are those of the explicit loop"
    case = {**case, "dtype": "f64"}
    x = T(case["x"]).requires_grad_()
    cell, flow, ref, out = build(case)
    model = HybridNeuralDE(flow, cell, out, case["last"], case["reverse"])
    ids = {id(p) for p in model.parameters()}
    ps = [p for m in (cell, flow, out) for p in m.parameters()]
    ctx.check(all(id(p) in ids for p in ps), "parameters of flow, jump or output are not those of the model")
    got, want = model(x), loop(case, cell, ref, out, x)
    w = torch.linspace(-1, 1.4, want.numel(), dtype=torch.float64).reshape(want.shape)
    a = torch.autograd.grad((w * got).sum(), [x] + ps, allow_unused=True)
    b = torch.autograd.grad((w * want).sum(), [x] + ps, allow_unused=True)
    for i, (u, v, p) in enumerate(zip(a, b, [x] + ps)):
        z = torch.zeros_like(p)
        ctx.close(z if u is None else u, z if v is None else v, 1e-5, 1e-5, f"gradient {i}")
    labels(ctx, case)


@F.facet(case_seq(), quick=300, thorough=4500)
def structure(case, ctx):
    "last output = last of all outputs; reversed = flipped sequence; prefix; batch elements are independent; one latent state after another"
    case = {**case, "dtype": "f64"}
    x = T(case["x"])
    cell, flow, ref, out = build(case)

    def model(last, rev, s):
        return HybridNeuralDE(flow, cell, out, last, rev)(s)
    full = model(False, case["reverse"], x)
    ctx.check(full.shape[:2] == x.shape[:2], f"outputs {tuple(full.shape)} for a sequence {tuple(x.shape)}")
    ctx.close(model(True, case["reverse"], x), full[-1], 1e-9, 1e-9, "last output")
    ctx.close(model(False, not case["reverse"], x.flip(0)), full, 1e-9, 1e-9, "flipped sequence the other way round")
    for k in range(1, len(x)):
        part = x[-k:] if case["reverse"] else x[:k]
        ctx.close(model(False, case["reverse"], part), full[:k], 1e-9, 1e-9, f"first {k} elements")
    for j in range(x.shape[1]):
        ctx.close(model(False, case["reverse"], x[:, j:j + 1]), full[:, j:j + 1], 1e-9, 1e-9, f"batch element {j} alone")
    perm = torch.arange(x.shape[1]).flip(0)
    ctx.close(model(False, case["reverse"], x[:, perm]), full[:, perm], 1e-9, 1e-9, "permuted batch")
    labels(ctx, case)

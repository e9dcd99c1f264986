"""C08 results do not depend on the history of calls; inputs are never modified"""
import os, pickle
import torch
import torchsde
from hypothesis import strategies as st
from vf import core, gen
from vf.core import Violation
from vf.fields import Field, FieldModule, T
from vf.props import c28
from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE, MultipleShootingLayer
from torchdyn.core.defunc import SDEFunc
from torchdyn.numerics import odeint, odeint_symplectic, sdeint
from torchdyn.numerics.interpolators import FourthOrder
from torchdyn.numerics.odeint import odeint_hybrid, odeint_mshooting
from torchdyn.numerics.solvers.hyper import HyperEuler
from torchdyn.numerics.solvers.ode import (AsynchronousLeapfrog, DormandPrince45, Euler, Midpoint, MSBackward, MSZero, RungeKutta4, Tsitouras45)
from torchdyn.numerics.utils import EventCallback

F = core.Registry()
RULE = ("sequences of 2-8 operations (functional, symplectic, hybrid, parallel-in-time and stochastic integrations, model forward passes, delayed "
        "backward passes, trajectories, parameter changes, refused save points, fields that raise in the middle of an integration) on shared "
        "solver, interpolator and model objects; each result is compared bit by bit with the same call on fresh objects; non-trivial = at least "
        "three operations of at least two kinds after which a shared object is used again")
D = torch.float64


class Boom(Exception):
    pass


class Vf(FieldModule):
    "field with a fuse: raises after `fuse` further evaluations"
    fuse = None

    def forward(self, t, x, args=None):
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                raise Boom()
        return super().forward(t, x)


class Event(EventCallback):
    def __init__(self, level):
        super().__init__()
        self.level = level

    def check_event(self, t, x):
        return bool(x.mean() > self.level)

    def jump_map(self, t, x):
        return x - 1.


class Env:
    def __init__(self, case):
        self.f = Vf(case["f"], D)
        self.sol = dict(euler=Euler(D), midpoint=Midpoint(D), rk4=RungeKutta4(D), dopri5=DormandPrince45(D), tsit5=Tsitouras45(D),
                        alf=AsynchronousLeapfrog(dtype=D))
        net = torch.nn.Linear(2, 2).double()
        with torch.no_grad():
            net.weight.fill_(0.3), net.bias.fill_(-.2)
        self.sol["hyper"] = HyperEuler(lambda t, x: torch.tanh(net(x)), D)
        self.interp = FourthOrder(D)
        self.ms = dict(mszero=MSZero(self.sol["euler"], self.sol["rk4"]), msbackward=MSBackward(self.sol["midpoint"], self.sol["rk4"]))
        self.models = []
        for m in case["models"]:
            kw = dict(solver=self.sol[m["solver"]] if m["obj"] else m["solver"], sensitivity=m["sens"], atol=1e-4, rtol=1e-4,
                      solver_adjoint=self.sol["dopri5"] if m["obj"] else "dopri5", atol_adjoint=1e-4, rtol_adjoint=1e-4,
                      interpolator=self.interp if m["interp"] else None)
            self.models.append((NeuralODE if m["cls"] == "NeuralODE" else ODEProblem)(self.f, **kw))
        self.layer = MultipleShootingLayer(self.f, self.ms["mszero"], fine_steps=2, maxiter=2)
        g = Field(case["f"])
        self.sde = NeuralSDE(self.f, lambda t, y: .2 * y + .1, sde_type="ito")
        self.sdefunc = SDEFunc(lambda t, y: g(t, y), lambda t, y: .2 * y + .1, noise_type="diagonal", sde_type="ito")
        self.pending = {}


def bits(v):
    return None if v is None else v.detach().clone()


def run_op(env, op, i):
    "executes one operation; returns the list of result tensors (or an outcome word)"
    kind = op["op"]
    if kind == "param":
        with torch.no_grad():
            for p in env.f.parameters():
                p.add_(op["c"])
        return []
    if kind == "bwd":
        loss, ins = env.pending[op["of"]]
        return [bits(g) for g in torch.autograd.grad(loss, ins, allow_unused=True, retain_graph=True)]
    x, ts = T(op["x"]), T(op["t"])
    x.requires_grad_(bool(op.get("grad")))
    keep = x.detach().clone(), ts.clone(), [p.detach().clone() for p in env.f.parameters()], torch.is_grad_enabled(), torch.get_default_dtype()
    n0 = env.f.f.n
    counter, c0 = None, 0
    env.f.fuse = op.get("fuse")
    save, save0 = (), None
    if op.get("save"):
        save = ts[torch.tensor([k for k in op["save"] if k < len(ts)] or [0])]
        if op.get("badsave"):
            save = save + 0.0371
        save0 = save.clone()
    try:
        if kind == "odeint":
            r = odeint(env.f, x, ts, env.sol[op["solver"]], atol=1e-4, rtol=1e-4, save_at=save,
                       interpolator=env.interp if op["interp"] else None, return_all_eval=op["all"])
        elif kind == "model":
            m = env.models[op["m"] % len(env.models)]
            if isinstance(m, NeuralODE):
                counter, c0 = m.vf, m.vf.nfe
            r = m(x, ts, save_at=save) if not op["traj"] or not isinstance(m, NeuralODE) else (m.trajectory(x, ts),)
        elif kind == "symplectic":
            f = lambda t, q: env.f(t, q)
            f.order = 1
            r = odeint_symplectic(f, torch.cat([x, .5 * x], -1), ts, env.sol["alf"])
        elif kind == "ms":
            ts = torch.linspace(ts[0].item(), ts[0].item() + 1., len(ts)).double()
            keep = keep[:1] + (ts.clone(),) + keep[2:]
            B0 = None
            if op.get("guess"):
                B0 = torch.stack([x.detach()] + [x.detach() + c for c in torch.linspace(-.5, .5, len(ts) - 1).double()])
                g0 = B0.clone()
            r = odeint_mshooting(env.f, x, ts, env.ms[op["solver"]], B0=B0, fine_steps=2, maxiter=2) if op["solver"] != "layer" else env.layer(x, ts, B0)
            if B0 is not None and not torch.equal(B0.detach(), g0):
                raise Violation(f"operation {i} ({kind}, {op['solver']}) modified the initial guess")
            if r[1].requires_grad and not op.get("grad"):
                r = (r[0], r[1])
        elif kind == "hybrid":
            ts = ts if ts[1] > ts[0] else ts.flip(0)
            keep = keep[:1] + (ts.clone(),) + keep[2:]
            r = odeint_hybrid(env.f, x, ts, 2, env.sol[op["solver"]], [Event(op["level"])], atol=1e-4, rtol=1e-4)
        elif kind == "sde":
            ts = ts if ts[1] > ts[0] else ts.flip(0)
            keep = keep[:1] + (ts.clone(),) + keep[2:]
            bm = torchsde.BrownianInterval(float(ts[0]), float(ts[-1]), size=x.shape, dtype=D, entropy=5)
            if op["m"] % 2:
                env.sde.bm = bm
                r = env.sde(x, ts)
            else:
                r = sdeint(env.sdefunc, x, ts, "euler", bm)
        out = [bits(v) for v in r]
        if op.get("grad") and r[-1].requires_grad:
            env.pending[i] = ((r[-1] * r[-1]).sum() + r[-1].sum(), [x] + list(env.f.parameters()))
    except Boom:
        out = ["raised"]
    except AssertionError:
        if not op.get("badsave"):
            raise
        out = ["refused"]
    finally:
        env.f.fuse = None
    if not torch.equal(x.detach(), keep[0]):
        raise Violation(f"operation {i} ({kind}) modified the initial state: {core.short(x)} was {core.short(keep[0])}")
    if save0 is not None and not torch.equal(save, save0):
        raise Violation(f"operation {i} ({kind}) modified the save points")
    if not torch.equal(ts, keep[1]):
        raise Violation(f"operation {i} ({kind}) modified the time span")
    for a, b in zip(env.f.parameters(), keep[2]):
        if not torch.equal(a.detach(), b):
            raise Violation(f"operation {i} ({kind}) modified the parameters")
    if torch.is_grad_enabled() != keep[3] or torch.get_default_dtype() != keep[4]:
        raise Violation(f"operation {i} ({kind}) changed the global gradient mode or default dtype")
    if counter is not None and "raised" not in out and counter.nfe - c0 != env.f.f.n - n0:
        raise Violation(f"operation {i}: nfe counted {counter.nfe - c0} evaluations of the {env.f.f.n - n0} performed")
    return out


def shared_run(case):
    env, out = Env(case), []
    for i, op in enumerate(case["ops"]):
        if op["op"] == "bwd" and op["of"] not in env.pending:
            out.append(["skip"])
            continue
        if op["op"] == "param":
            env.pending.clear()
        out.append(run_op(env, op, i))
    return out


def fresh_run(case, i):
    "operation i alone on fresh objects (after the parameter changes that precede it)"
    env, ops = Env(case), case["ops"]
    op = ops[i]
    for o in ops[:i]:
        if o["op"] == "param":
            run_op(env, o, -1)
    if op["op"] == "bwd":
        run_op(env, ops[op["of"]], op["of"])
        if op["of"] not in env.pending:
            return ["skip"]
    return run_op(env, op, i)


def compare(ctx, i, op, a, b, how):
    if "skip" in a or "skip" in b:
        return
    ctx.check(len(a) == len(b), f"operation {i}: different outcomes")
    for k, (u, v) in enumerate(zip(a, b)):
        if isinstance(u, str) or isinstance(v, str) or u is None or v is None:
            ctx.check(type(u) == type(v) and (u is None or u == v), lambda: f"operation {i} ({op}): {u} on shared objects, {v} {how}")
        else:
            ctx.check(u.shape == v.shape and u.dtype == v.dtype, lambda: f"operation {i} ({op}): result {k} of shape {tuple(u.shape)} on shared "
                      f"objects, {tuple(v.shape)} {how}")
            ctx.check(torch.equal(u, v) or torch.equal(torch.nan_to_num(u), torch.nan_to_num(v)),
                      lambda: f"operation {i} ({op}): {core.short(u)} on shared objects, {core.short(v)} {how}")


@st.composite
def case_hist(draw, nmax=8):
    f = draw(gen.field(d=2))
    models = draw(st.lists(st.fixed_dictionaries(dict(
        cls=st.sampled_from(["NeuralODE", "NeuralODE", "ODEProblem"]), solver=st.sampled_from(["euler", "midpoint", "rk4", "dopri5", "tsit5"]),
        sens=st.sampled_from(["autograd", "adjoint", "interpolated_adjoint"]), obj=st.booleans(), interp=st.booleans())), min_size=1, max_size=3))
    n = draw(st.integers(2, nmax))
    ops, fwd = [], []
    for i in range(n):
        kind = draw(st.sampled_from(["odeint", "odeint", "model", "model", "model", "bwd", "symplectic", "ms", "hybrid", "sde", "param"]))
        if kind == "bwd":
            if not fwd:
                kind = "model"
            else:
                ops.append(dict(op="bwd", of=draw(st.sampled_from(fwd))))
                continue
        if kind == "param":
            ops.append(dict(op="param", c=draw(gen.num(-.2, .2))))
            fwd = []
            continue
        op = dict(op=kind, x=draw(gen.batch(2)), t=draw(gen.grid(nmin=2, nmax=5, hmax=0.4)), grad=draw(st.booleans()))
        if draw(st.integers(0, 7)) == 0:
            op["fuse"] = draw(st.integers(0, 12))
        if kind in ("odeint", "model"):
            if draw(st.integers(0, 3)) == 0:
                op["save"] = draw(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True))
                op["badsave"] = draw(st.integers(0, 2)) == 0
        if kind == "odeint":
            op["solver"] = draw(st.sampled_from(["euler", "midpoint", "rk4", "dopri5", "tsit5", "hyper"]))
            op["interp"], op["all"] = draw(st.booleans()), draw(st.booleans())
        elif kind == "model":
            op["m"], op["traj"] = draw(st.integers(0, 2)), draw(st.integers(0, 4)) == 0
        elif kind == "ms":
            op["solver"], op["guess"] = draw(st.sampled_from(["mszero", "msbackward", "layer"])), draw(st.booleans())
        elif kind == "hybrid":
            op["solver"], op["level"], op["grad"] = draw(st.sampled_from(["dopri5", "tsit5"])), draw(gen.num(-1, 2)), False
        elif kind == "sde":
            op["m"] = draw(st.integers(0, 1))
        if op["grad"] and "fuse" not in op:
            fwd.append(i)
        ops.append(op)
    return dict(f=f, models=models, ops=ops)


def labels(ctx, case):
    kinds = [o["op"] for o in case["ops"]]
    ctx.label(*set(kinds))
    if any("fuse" in o for o in case["ops"]):
        ctx.label("raising")
    if any(o.get("badsave") for o in case["ops"]):
        ctx.label("refused")
    ctx.nontrivial(len(kinds) >= 3 and len(set(kinds)) >= 2)


@F.facet(case_hist(), quick=400, thorough=8000, shards=4)
def histories(case, ctx):
    "shared objects in the order of the history against fresh objects, each operation again in reverse order"
    shared = shared_run(case)
    for i in reversed(range(len(case["ops"]))):
        compare(ctx, i, case["ops"][i], shared[i], fresh_run(case, i), "on fresh objects")
    again = shared_run(case)
    for i, op in enumerate(case["ops"]):
        compare(ctx, i, op, shared[i], again[i], "when the history is repeated")
    labels(ctx, case)


def in_child(fn):
    "runs fn in a forked process that shares nothing afterwards"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = ("ok", [v.numpy().tobytes() if torch.is_tensor(v) else v for v in fn()])
            except Violation as e:
                res = ("violation", str(e))
            except BaseException as e:  # noqa
                res = ("repo" if core.from_repo(e.__traceback__) else "error", repr(e))
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.HarnessError("child died")
    tag, res = pickle.loads(data)
    if tag == "error":
        raise core.HarnessError(res)
    if tag in ("violation", "repo"):
        raise Violation(res)
    return res


@F.facet(case_hist(nmax=5), quick=60, thorough=1500, shards=2)
def processes(case, ctx):
    "the same operation in a process where nothing else has been computed gives the same bytes (no module-level state)"
    flat = lambda out: [v for o in out for v in [len(o)] + o]
    shared = in_child(lambda: flat(shared_run(case)))
    outs, k = [], 0
    while k < len(shared):
        n = shared[k]
        outs.append(shared[k + 1:k + 1 + n]); k += 1 + n
    for i in range(len(case["ops"])):
        alone = in_child(lambda: fresh_run(case, i))
        if "skip" in alone or "skip" in outs[i]:
            continue
        ctx.check(outs[i] == alone, f"operation {i} ({case['ops'][i]}) gives other values after the preceding operations than in a process of its own")
    labels(ctx, case)


DEFAULT_SPAN = {"ode", "buffer", "adjoint", "interp", "adaptive", "controlled", "galerkin", "cnf", "energy", "callable", "hyper", "integral", "second"}


@st.composite
def case_models(draw):
    d = draw(st.integers(1, 2))
    op = st.fixed_dictionaries(dict(x=gen.batch(d, -1, 1), t=gen.grid(nmin=2, nmax=4, hmin=.05, hmax=.3), how=st.sampled_from(["values", "gradients", "no_grad", "eval"]),
                                    span=st.sampled_from(["given", "given", "default"]), repeat=st.booleans()))
    return dict(kind=draw(st.sampled_from(c28.KINDS)), d=d, f=draw(gen.field(d=d)), seed=draw(st.integers(0, 99)), ops=draw(st.lists(op, min_size=2, max_size=5)))


@F.facet(case_models(), quick=300, thorough=6000, shards=3)
def model_histories(case, ctx):
    "one model of each kind used with other inputs, batch sizes, spans and modes gives what a fresh model gives"
    kind = case["kind"]

    def fresh():
        return c28.build(kind, case["f"], case["d"], case["seed"])
    m, fn = fresh()

    def call(model, o, x):
        t = None if o["span"] == "default" and kind in DEFAULT_SPAN else T(o["t"])
        t0 = None if t is None else t.clone()
        model.train(o["how"] != "eval")
        with torch.set_grad_enabled(o["how"] != "no_grad"):
            y = c28.out_of(kind, fn, model, x, t)
        if t is not None:
            ctx.check(torch.equal(t, t0), f"{kind}: the time span was modified")
        if o["how"] != "gradients":
            return [y.detach()]
        ps = list(model.parameters())
        g = torch.autograd.grad(((y[-1] if kind == "interp" else y) ** 2).sum(), [x] + ps, allow_unused=True)
        return [y.detach()] + [torch.zeros_like(p) if v is None else v for v, p in zip(g, [x] + ps)]
    for i, o in enumerate(case["ops"]):
        x = T(o["x"])
        for rep in range(1 + o["repeat"]):
            xa, xb = x.clone().requires_grad_(o["how"] == "gradients"), x.clone().requires_grad_(o["how"] == "gradients")
            a, b = call(m, o, xa), call(fresh()[0], o, xb)
            ctx.check(torch.equal(xa.detach(), x), f"{kind}: operation {i} modified the input")
            for k, (u, v) in enumerate(zip(a, b)):
                ctx.check(u.shape == v.shape and u.dtype == v.dtype, lambda: f"{kind}: operation {i} gives shape {tuple(u.shape)}, a fresh model gives {tuple(v.shape)}")
                ctx.check(torch.equal(u, v), lambda: f"{kind}: operation {i} ({o['how']}, {'gradient' if k else 'output'}) gives {core.short(u)}, a fresh model gives {core.short(v)}")
    ctx.nontrivial(len(case["ops"]) > 2)
    ctx.label(kind, *{o["how"] for o in case["ops"]}, *{"span-" + o["span"] for o in case["ops"]})

"""User-defined solvers written against torchdyn's documented solver template, used as inputs to the integration routines."""
import torch
from torchdyn.numerics.solvers.templates import DiffEqSolver
from .fields import rk_step


class UserHeun3(DiffEqSolver):
    "a third order fixed-step method of the user"
    def __init__(self, dtype=torch.float32):
        super().__init__(order=3)
        self.dtype, self.stepping_class, self.calls = dtype, "fixed", []

    def step(self, f, x, t, dt, k1=None, args=None):
        self.calls.append((float(t), float(dt)))
        return None, rk_step("heun3", f, t, x, dt), None


class UserBS23(DiffEqSolver):
    "Bogacki-Shampine 3(2) pair as an adaptive method of the user"
    def __init__(self, dtype=torch.float32):
        super().__init__(order=3)
        self.dtype, self.stepping_class, self.log = dtype, "adaptive", []

    def step(self, f, x, t, dt, k1=None, args=None):
        given = None if k1 is None else k1.detach().clone()
        if k1 is None:
            k1 = f(t, x)
        k2 = f(t + .5 * dt, x + .5 * dt * k1)
        k3 = f(t + .75 * dt, x + .75 * dt * k2)
        xs = x + dt * (2 / 9 * k1 + 1 / 3 * k2 + 4 / 9 * k3)
        k4 = f(t + dt, xs)
        err = dt * ((2 / 9 - 7 / 24) * k1 + (1 / 3 - 1 / 4) * k2 + (4 / 9 - 1 / 3) * k3 - 1 / 8 * k4)
        self.log.append(dict(t=float(t), dt=float(dt), x=x.detach().clone(), xn=xs.detach().clone(), err=err.detach().clone(), k1=given))
        return k4, xs, err, (k1, k2, k3, k4)

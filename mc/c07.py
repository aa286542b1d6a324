"""C07: adaptive training stays connected to the optimizer"""
import itertools

import numpy as np
import torch

from . import ref
from .adaptive import active_chain, active_modules, contract_chain, gen, split
from .c05 import T, Sim as Base
from .core import Violation
from .mpsutil import expect, np64, put, tens

LEVEL = "model_checking"
RULE = (
    "Every history up to a depth of: training steps (call, backward, optimizer step) with "
    "gradients reset to None (B) or to zero (Z), plain calls (C), calls in eval mode without gradients (N), "
    "for several optimizers built once, threshold 2. The reference automaton gives the merge "
    "state and the function every call must compute from the parameters the optimizer owns; "
    "gradients are compared with the exact directional derivatives of that function. "
    "settled: models at the fixed point of repeated shifts (and models of tiny scale), steps of "
    "relative size 1e-3 to 1e-11, every call exact to rounding error. "
    "Non-trivial: at least one training step and one shift."
)
ASSUMPTIONS = [
    "the active cores are the parameters of linear_region.module_list (checked against every output)",
    "torch.optim applies its update rule (checked for plain SGD)",
]
OPS = ["B2", "B1", "Z3", "C3", "N2"]
OPTS = ["sgd", "momentum", "adam"]


def bounds(tier):
    q = tier == "quick"
    return {
        "input_dim": "1..%d, all label sites, open/periodic" % (4 if q else 6),
        "operations": OPS, "optimizers": OPTS,
        "depth": "4 up to input_dim 2, 3 above" if q else "5 up to input_dim 2, 4 above",
        "settled": "400 shifts, then 15 steps",
        "long runs": "%d training steps" % (16 if q else 60),
        "bond_dim, feature_dim, output_dim": "2,2,2 and 3,2,1; one of them up to 9 at depth 2",
    }


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 7):
        for label in range(n + 1):
            for periodic in [False, True]:
                for opt in OPTS:
                    depth = (4 if n <= 2 else 3) + (0 if q else 1)
                    for first in OPS:
                        out.append(["hist", n, label, periodic, 2, 2, 2, opt, first, depth])
                out.append(["hist", n, label, periodic, 3, 2, 1, "sgd", "B2", 3 if q else 4])
                for opt in OPTS:
                    out.append(["long", n, label, periodic, opt, 16 if q else 60])
                if n in (1, 3):
                    for D, d, o in [(4, 2, 2), (5, 2, 3), (8, 2, 2), (9, 2, 1), (2, 4, 2), (2, 5, 2), (2, 8, 1), (2, 2, 9)]:
                        out.append(["hist", n, label, periodic, D, d, o, "sgd", "B2", 2 if q else 3])
                for D, d, o in [(2, 2, 2), (3, 2, 1)]:
                    out.append(["settled", n, label, periodic, D, d, o, 400])
    return out


def weight(case):
    return 5 ** case[-1] * case[1] if case[0] == "hist" else 50 * case[1] * (4 if case[0] == "settled" else 1)


class Sim(Base):
    def __init__(self, n, label, periodic, D, d, o, opt, ctx, cutoff=1e-10):
        super().__init__(n, label, periodic, D, d, o, cutoff, torch.float64, ctx)
        for k, m in enumerate(active_modules(self.model)):
            put(m.tensor, np64(m.tensor) + 0.4 * gen(tuple(m.tensor.shape), "c07", k))
        params = list(self.model.parameters())
        self.params = params
        self.shapes = [tuple(p.shape) for p in params]
        self.lr = 0.05
        self.opt = {
            "sgd": lambda: torch.optim.SGD(params, lr=self.lr),
            "momentum": lambda: torch.optim.SGD(params, lr=self.lr, momentum=0.9),
            "adam": lambda: torch.optim.Adam(params, lr=0.02),
        }[opt]()
        self.opt_kind = opt
        self.trained = 0

    def check_identity(self):
        now = list(self.model.parameters())
        expect(
            {id(p) for p in now} == {id(p) for p in self.params} and len(now) == len(self.params),
            "parameters() are not the original tensors", count=len(now), want=len(self.params),
        )
        expect([tuple(p.shape) for p in self.params] == self.shapes, "parameter shapes changed")
        for p in self.params:
            expect(p.is_leaf and p.requires_grad, "parameter does not take part in training any more")
            expect(p.dtype == torch.float64, "parameter dtype changed")
        own = {id(p) for p in self.params}
        for m in active_modules(self.model):
            expect(id(m.tensor) in own, "a core in use is not a parameter the optimizer knows")

    def op(self, op, tag):
        """Returns False where the history leaves the claim"""
        kind, b = op[0], int(op[1:])
        pre = active_chain(self.model)
        ambiguous, want = False, pre
        if self.counter >= T:
            want, bonds, ambiguous = split(pre, self.label, self.D, self.cutoff, self.eps)
            if any(lo < 1 for _, lo, _ in bonds.values()):
                self.ctx.add("histories_left_claim")
                return False
            self.counter -= T
            self.shifts += 1
        self.counter += b
        x = gen([b, self.n, self.d], "x", tag)
        if kind in "BZ":
            self.opt.zero_grad(set_to_none=kind == "B")
        if kind == "N":
            self.model.eval()
            with torch.no_grad():
                out = self.model(tens(x))
            self.model.train()
        else:
            out = self.model(tens(x))
        self.check_identity()
        if not ambiguous:
            self.compare(np64(out), want, x, f"output of {op}")
        chain = active_chain(self.model)
        self.compare(np64(out), chain, x, f"output of {op} from the parameters in use")
        if kind not in "BZ":
            return True

        # weights that keep the parameters bounded over long runs
        w = gen(tuple(out.shape), "w", tag) / (1 + np.abs(np64(out)).max())
        (out * tens(w)).sum().backward()
        mods = active_modules(self.model)
        active = {id(m.tensor) for m in mods}
        for p in self.params:
            if id(p) not in active:
                expect(
                    p.grad is None or not p.grad.any(), "gradient on a core that is not in use",
                    shape=tuple(p.shape),
                )
        # directional derivatives: the output is linear in every core
        pos = 0
        nonzero = False
        for m in mods:
            t = np64(m.tensor)
            expect(m.tensor.grad is not None, "no gradient on a core in use", shape=t.shape)
            g = np64(m.tensor.grad)
            expect(g.shape == t.shape, "shape of gradient")
            count = len(t) if t.ndim == 5 else 1
            for k in range(count):
                v = gen(t.shape[1:] if t.ndim == 5 else t.shape, "v", tag, k)
                new = list(chain)
                new[pos] = (chain[pos][0], v)
                d_want = float((contract_chain(new, x, self.periodic) * w).sum())
                d_got = float(((g[k] if t.ndim == 5 else g) * v).sum())
                new = [(c, np.abs(a)) for c, a in new]
                size = (contract_chain(new, np.abs(x), self.periodic) * np.abs(w)).sum()
                expect(
                    abs(d_got - d_want) <= 1e-8 * max(size, 1e-300), "gradient of a core in use",
                    got=d_got, want=d_want, core=pos,
                )
                nonzero = nonzero or abs(d_want) > 1e-6 * size
                pos += 1
        expect(pos == len(chain), "reference chain")
        before = [np64(p).copy() for p in self.params]
        self.opt.step()
        self.trained += 1
        self.check_identity()
        if self.opt_kind == "sgd":
            for p, old in zip(self.params, before):
                want_p = old if p.grad is None else old - self.lr * np64(p.grad)
                expect(np.allclose(np64(p), want_p, rtol=1e-12, atol=1e-12), "parameter after the optimizer step")
        if nonzero:
            # the step shows in the function the next call computes
            old = contract_chain(chain, self.grid, self.periodic)
            new = contract_chain(active_chain(self.model), self.grid, self.periodic)
            expect(np.abs(new - old).max() > 1e-12 * np.abs(old).max(), "the optimizer step changes nothing")
        return True


def run_settled(ctx, n, label, periodic, D, d, o, warm):
    """
    Small steps of models at rest: after many shifts without updates both merge states
    hold values of a fixed point, so that only the small steps tell them apart
    """
    for scale in [1.0, 1e-10]:
        sim = Sim(n, label, periodic, D, d, o, "sgd", ctx, cutoff=0.0)
        for m in active_modules(sim.model):
            put(m.tensor, np64(m.tensor) * scale)
        with torch.no_grad():
            x = tens(gen([T, n, d], "warm"))
            for k in range(warm if scale == 1 else 4):
                sim.model(x)
        sim.counter = T
        for k, rel in enumerate([1e-3, 1e-5, 1e-7, 1e-9, 1e-11]):
            for rep in range(3):
                ctx.trace = {"scale": scale, "relative step": rel, "repetition": rep}
                # one gradient step of the given relative size in each merge state
                x = gen([T, n, d], "x", k, rep)
                pre = active_chain(sim.model)
                out = sim.model(tens(x))
                sim.counter = T
                want, bonds, _ = split(pre, label, D, 0.0, sim.eps)
                tight(out, want, x, periodic, "output after a small step")
                sim.opt.zero_grad()
                out.sum().backward()
                mods = active_modules(sim.model)
                big = max(float((m.tensor.grad.abs() / m.tensor.abs().max()).max()) for m in mods)
                for group in sim.opt.param_groups:
                    group["lr"] = rel / big
                old = [np64(m.tensor).copy() for m in mods]
                sim.opt.step()
                moved = max(np.abs(np64(m.tensor) - a).max() / np.abs(a).max() for m, a in zip(mods, old))
                expect(0.5 * rel <= moved <= 2 * rel, "the optimizer step is lost", moved=moved)
                ctx.transitions += 1
                ctx.eval((scale, rel, rep))
                ctx.outcome(round(float(np.log10(moved)), 3))
        sim.check_identity()
        ctx.traces += 1


def tight(out, chain, x, periodic, what):
    want = contract_chain(chain, x, periodic)
    size = contract_chain([(c, np.abs(a)) for c, a in chain], np.abs(x), periodic)
    e = np.abs(np64(out) - want) / np.maximum(size, 1e-300)
    expect(e.max() <= 1e-12, f"{what}: relative error {e.max():.3g}", got=np64(out), want=want)


def run_case(case, ctx):
    if case[0] == "hist":
        _, n, label, periodic, D, d, o, opt, first, depth = case
        for rest in itertools.product(OPS, repeat=depth - 1):
            hist = (first,) + rest
            sim = Sim(n, label, periodic, D, d, o, opt, ctx)
            ctx.trace = {"history": hist}
            for k, op in enumerate(hist):
                ctx.transitions += 1
                if not sim.op(op, k):
                    break
                ctx.outcome((sim.counter, sim.shifts, sim.trained, [float(a.sum().round(5)) for _, a in active_chain(sim.model)]))
            else:
                sim.probe()
            ctx.traces += 1
            ctx.eval(hist, nontrivial=sim.shifts > 0 and sim.trained > 0)
        ctx.sample({"history": hist, "shifts": sim.shifts, "trained": sim.trained})
    elif case[0] == "settled":
        run_settled(ctx, *case[1:])
    else:
        _, n, label, periodic, opt, steps = case
        sim = Sim(n, label, periodic, 3, 2, 2, opt, ctx)
        sim.lr = 0.05
        for k in range(steps):
            ctx.trace = {"step": k}
            ctx.transitions += 1
            if not sim.op(["B2", "Z1", "B3"][k % 3], k):
                break
        ctx.traces += 1
        ctx.eval("long", nontrivial=sim.shifts > 0)
        ctx.outcome((sim.counter, sim.shifts, sim.trained))
    ctx.states = len(ctx.outcomes)

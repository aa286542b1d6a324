"""C05: merge shifts of an adaptive MPS preserve the function up to truncation"""
import itertools

import numpy as np
import torch

from . import ref
from .adaptive import (
    active_chain, active_modules, build, contract_chain, fill_active, gen,
    inactive_params, split,
)
from .core import Violation
from .mpsutil import expect, np64, put, same, tens

LEVEL = "model_checking"
RULE = (
    "Every history of steps up to a depth, from a freshly built model: a step optionally "
    "updates the active cores (U generic, R low rank, Z a zero lone core, G values at very "
    "different scales) or overwrites the inactive ones (J), then calls the model with 1 or 3 "
    "inputs (threshold 2). The reference automaton knows whether the call shifts, and the "
    "function it must compute (chain with every merged core replaced by its truncated SVD). "
    "After every call the function is also compared on all one-hot inputs. Non-trivial: a "
    "history with at least one shift. A history ends where a split bond would keep nothing."
)
ASSUMPTIONS = [
    "the active cores are the parameters of linear_region.module_list, which each call is "
    "also checked to compute with",
    "outputs are not compared where rounding decides which singular values are dropped "
    "(counted as 'ambiguous')",
]
STEPS = ["1", "3", "U1", "U3", "R3", "J3"]
T = 2
WIDE = [(D, 2, 2) for D in [*range(4, 18), 20, 24, 32, 33]] + [(3, d, 2) for d in range(4, 13)] + [(3, 2, o) for o in [*range(4, 13), 20, 33]]


def bounds(tier):
    q = tier == "quick"
    return {
        "input_dim": "1..5 (all label sites)" if q else "1..7 (all label sites)",
        "boundary": "open, periodic",
        "bond_dim": "2, 3", "feature_dim, output_dim": "1..3",
        "cutoff": "1e-10, 0.5",
        "wide": f"(bond, feature, output) {WIDE[0]}..{WIDE[-1]}: one of them up to 33, 12, 33",
        "steps": STEPS + ["Z3", "G3 (some configurations)"],
        "depth": "3 for all, 4 for selected configurations" if q else "4 for all, 5 for selected",
        "long": "up to %d consecutive shifts, input_dim up to %d" % ((12, 12) if q else (60, 40)),
        "dtypes": "float64; float32 and .double() for selected configurations",
    }


def cases(tier):
    q = tier == "quick"
    out = []
    nmax = 5 if q else 7
    for n in range(1, nmax + 1):
        for label in range(n + 1):
            for periodic in [False, True]:
                for D, d, o in [(2, 2, 2), (3, 2, 1), (2, 3, 3)] + ([(3, 1, 2), (1, 2, 2)] if n <= 3 else []):
                    if q and n >= 4 and (D, d, o) != (2, 2, 2):
                        continue
                    for cutoff in [1e-10, 0.5]:
                        out.append(["hist", n, label, periodic, D, d, o, cutoff, 3 if q else 4, STEPS])
    for n, label in [(1, 0), (1, 1), (2, 1), (3, 0), (3, 2)] + ([] if q else [(2, 0), (2, 2), (3, 1), (3, 3), (4, 2), (5, 2)]):
        for periodic in [False, True]:
            out.append(["hist", n, label, periodic, 2, 2, 2, 0.3, 4 if q else 5, ["1", "3", "U3", "R3"]])
    for n in range(1, 5):
        for label in range(n + 1):
            for periodic in [False, True]:
                out.append(["hist", n, label, periodic, 2, 2, 2, 1e-10, 3, ["3", "Z3", "G3", "U3"]])
                for dt in ["float32", "double()"]:
                    out.append([dt, n, label, periodic])
    # sizes beyond those of the full grid: every bond dimension, feature and output dimensions
    for n, label in [(1, 1), (2, 1), (3, 0), (5, 2)]:
        for periodic in [False, True]:
            for D, d, o in WIDE if n <= 3 or not q else WIDE[::3]:
                for cutoff in [1e-10, 0.5]:
                    out.append(["hist", n, label, periodic, D, d, o, cutoff, 2 if q else 3, ["3", "U3", "R3"]])
    for n in range(1, 13 if q else 41):
        for label in sorted({0, 1, n // 2, n - 1, n}):
            for periodic in [False, True]:
                out.append(["long", n, label, periodic, 12 if q else 60])
    return out


def weight(case):
    if case[0] == "hist":
        return len(case[9]) ** case[8] * case[1]
    return case[1]


class Sim:
    """One model together with the reference automaton of the schedule"""

    def __init__(self, n, label, periodic, D, d, o, cutoff, dtype, ctx, double=False):
        torch.set_default_dtype(torch.float32 if double else dtype)
        self.n, self.label, self.periodic, self.D, self.d = n, label, periodic, D, d
        self.cutoff = cutoff
        self.model = build(n, label, D, d, o, periodic, T, cutoff)
        if double:
            self.model = self.model.double()
            dtype = torch.float64
        self.dtype = dtype
        self.eps = 1e-13 if dtype == torch.float64 else 1e-5
        self.tol = 1e-8 if dtype == torch.float64 else 2e-3
        self.counter = 0
        self.shifts = 0
        self.ctx = ctx
        self.grid = np.eye(d)[ref.grid(range(d), n)] if d**n <= 81 else gen([12, n, d], "grid")

    def update(self, kind, *tag):
        m = self.model
        if kind == "U":
            fill_active(m, "U", *tag)
        elif kind == "R":
            fill_active(m, "R", *tag, rank=1)
        elif kind == "J":
            for p in inactive_params(m):
                put(p, np.full(tuple(p.shape), 7.7))
        elif kind == "G":
            for k, core in enumerate(active_modules(m)):
                put(core.tensor, gen(tuple(core.tensor.shape), "G", *tag, k) * [1e5, 1e-4, 1.0][k % 3])
        elif kind == "Z":
            lone = [c for c in active_modules(m) if c.tensor.ndim == 3]
            for c in lone[:1]:
                put(c.tensor, np.zeros(tuple(c.tensor.shape)))
        else:
            raise AssertionError(kind)

    def call(self, b, *tag):
        """One call; returns False where the history leaves the claim"""
        pre = active_chain(self.model)
        shift = self.counter >= T
        ambiguous = False
        if shift:
            want_chain, bonds, ambiguous = split(pre, self.label, self.D, self.cutoff, self.eps)
            if any(lo < 1 for _, lo, _ in bonds.values()):
                self.ctx.add("histories_left_claim")
                return False
            self.counter -= T
            self.shifts += 1
        else:
            want_chain = pre
        self.counter += b
        x = gen([b, self.n, self.d], "x", *tag)
        got = self.model(tens(x, self.dtype))
        info = dict(shift=shift, counter=self.counter)
        if not torch.all(torch.isfinite(got)):
            raise Violation("output is not finite", **info)
        if ambiguous:
            self.ctx.add("ambiguous")
        else:
            self.compare(np64(got), want_chain, x, "output" + " after a shift" * shift, **info)
        # the parameters of the new state represent the same function
        post = active_chain(self.model)
        if not ambiguous:
            want = contract_chain(want_chain, self.grid, self.periodic)
            if np.any(want):
                self.compare(contract_chain(post, self.grid, self.periodic), want_chain, self.grid, "cores", **info)
        return True

    def compare(self, got, chain, x, what, **info):
        want = contract_chain(chain, x, self.periodic)
        # rounding errors are relative to the size of the terms
        size = np.abs(contract_chain([(k, np.abs(a)) for k, a in chain], np.abs(x), self.periodic)).max()
        expect(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
        bad = np.abs(got - want).max()
        if not bad <= self.tol * max(size, 1e-300):
            raise Violation(f"{what}: error {bad:.3g} (terms of size {size:.3g})", got=got, want=want, **info)

    def probe(self):
        """Next call on all one-hot inputs (may shift once more)"""
        pre = active_chain(self.model)
        chain, ambiguous = pre, False
        if self.counter >= T:
            chain, bonds, ambiguous = split(pre, self.label, self.D, self.cutoff, self.eps)
            if any(lo < 1 for _, lo, _ in bonds.values()):
                return
            self.shifts += 1
        got = np64(self.model(tens(self.grid, self.dtype)))
        if not ambiguous:
            self.compare(got, chain, self.grid, "one-hot outputs")


def run_history(sim, hist, ctx, start):
    ctx.trace = {"history": list(hist), "start": start}
    if start == "generic":
        sim.update("U", "start")
    for k, step in enumerate(hist):
        if len(step) > 1:
            sim.update(step[0], k)
        ctx.transitions += 1
        if not sim.call(int(step[-1]), k):
            return
        ctx.outcome([round(float(v), 6) for _, a in active_chain(sim.model) for v in a.reshape(-1)[:3]])
    sim.probe()


def run_case(case, ctx):
    kind = case[0]
    if kind == "hist":
        _, n, label, periodic, D, d, o, cutoff, depth, steps = case
        for i, hist in enumerate(itertools.product(steps, repeat=depth)):
            start = "initial" if hist[0] == steps[0] else "generic"
            # every other history without gradients
            with torch.set_grad_enabled((i // len(steps) + i) % 2 == 0):
                sim = Sim(n, label, periodic, D, d, o, cutoff, torch.float64, ctx)
                run_history(sim, hist, ctx, start)
            ctx.traces += 1
            ctx.eval((hist, start), nontrivial=sim.shifts > 0)
        ctx.states = len(ctx.outcomes)
        ctx.sample({"history": hist, "shifts": sim.shifts})
    elif kind in ("float32", "double()"):
        _, n, label, periodic = case
        for hist in itertools.product(["1", "3", "U3"], repeat=3):
            sim = Sim(n, label, periodic, 2, 2, 2, 1e-10, torch.float32, ctx, double=kind != "float32")
            run_history(sim, hist, ctx, "generic")
            ctx.traces += 1
            ctx.eval(hist, nontrivial=sim.shifts > 0)
        ctx.states = len(ctx.outcomes)
    elif kind == "long":
        _, n, label, periodic, shifts = case
        for D, d, upd in itertools.product([2, 3], [2], [0, 1, 3]):
            sim = Sim(n, label, periodic, D, d, 2, 1e-12, torch.float64, ctx)
            sim.grid = gen([6, n, d], "lgrid")
            ctx.trace = {"D": D, "update every": upd}
            for k, core in enumerate(active_modules(sim.model)):
                # keep long products of moderate size
                put(core.tensor, np64(core.tensor) + 0.3 * gen(tuple(core.tensor.shape), "L", k))
            for step in range(shifts):
                if upd and step % upd == upd - 1:
                    for k, core in enumerate(active_modules(sim.model)):
                        put(core.tensor, np64(core.tensor) + 0.2 * gen(tuple(core.tensor.shape), "LU", k, step))
                ctx.transitions += 1
                sim.call(2, step)
            ctx.traces += 1
            expect(sim.shifts == shifts - 1, "reference schedule")
            ctx.eval((D, upd), n=shifts)
            ctx.outcome(active_chain(sim.model)[0][1].tobytes())
        ctx.states = len(ctx.outcomes)
    else:
        raise AssertionError(kind)

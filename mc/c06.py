"""C06: adaptive shifts happen on schedule and report true bond data"""
import itertools

import numpy as np
import torch

from . import ref
from .adaptive import active_chain, build, fill_active, gen, merged_bonds, split
from .core import Violation
from .mpsutil import expect, np64, put, tens

LEVEL = "model_checking"
RULE = (
    "Every history of calls (batch sizes 1, 2, 5, under no_grad, in eval mode, with scalar "
    "inputs, on a second model) and parameter updates up to a depth, for every threshold; the "
    "reference automaton has the counter, the merge state and bond_list/sv_list. Before each "
    "call of the 'mark' runs the reported lists are overwritten by marks, so that the entries "
    "set by the call show. Non-trivial: at least one shift."
)
ASSUMPTIONS = [
    "merge state 0 (pairs of cores 0-1, 2-3, ...) comes first",
    "the number of kept singular values may differ by those within rounding error of the cutoff",
]
OPS = ["1", "2", "5", "N2", "U"]


def bounds(tier):
    q = tier == "quick"
    return {
        "merge_threshold": "1..7 and 0",
        "operations": OPS + ["E1", "S2", "B3"],
        "schedule depth": 5 if q else 7,
        "input_dim": "1..5, all label sites, open/periodic" if q else "1..8, all label sites, open/periodic",
        "spectra depth": 4 if q else 5,
        "wide": "bond_dim 4..33, feature_dim 4..12, output_dim 1..33, batches up to 2500, thresholds up to 1000",
        "cutoffs": "0, 1e-10, 0.4, 1.0",
        "counter graph": "all automaton states with counter <= %d" % (15 if q else 40),
    }


def cases(tier):
    q = tier == "quick"
    out = []
    for T in [1, 2, 3, 4, 5, 7, 0]:
        for first in OPS:
            out.append(["sched", T, first, 5 if q else 7])
        out.append(["graph", T, 15 if q else 40])
    for n in range(1, 6 if q else 9):
        for label in range(n + 1):
            for periodic in [False, True]:
                for cutoff in [0.0, 1e-10, 0.4, 1.0]:
                    out.append(["spectra", n, label, periodic, cutoff, 4 if q else 5])
    for D in [*range(4, 18), 20, 24, 32, 33]:
        out.append(["wide", D, 2, 2])
    for d in range(4, 13):
        out.append(["wide", 3, d, 2])
    for o in [1, *range(3, 13), 20, 33]:
        out.append(["wide", 3, 2, o])
    for n in range(6, 14 if q else 34):
        for periodic in [False, True]:
            out.append(["long", n, periodic])
    for dt in ["float32", "double()"]:
        for n in range(1, 4):
            out.append([dt, n])
    return out


def weight(case):
    return {"sched": 1000 * (case[1] or 1), "spectra": 100, "long": 50}.get(case[0], 10)


class Sim:
    def __init__(self, n, label, periodic, D, d, T, cutoff, ctx, mark, dtype=torch.float64, double=False, o=2):
        torch.set_default_dtype(torch.float32 if double else dtype)
        self.n, self.label, self.D, self.d, self.T, self.cutoff = n, label, D, d, T, cutoff
        self.model = build(n, label, D, d, o, periodic, T, cutoff)
        if double:
            self.model, dtype = self.model.double(), torch.float64
        self.dtype = dtype
        self.eps = 1e-13 if dtype == torch.float64 and not double else 1e-5
        self.counter, self.shifts, self.ctx, self.mark = 0, 0, ctx, mark
        self.bonds = np.full(n + 2, D)
        if not periodic:
            self.bonds[[0, -1]] = 1
        self.svs = np.full([n + 2, D], -1.0)
        self.lo = self.hi = None
        self.lists("at construction", {})

    def lists(self, when, new, **info):
        """Compare bond_list / sv_list; new: {bond: (svs, lo, hi)}"""
        m = self.model
        bl, sv = np.asarray(m.bond_list), np.asarray(m.sv_list)
        expect(bl.shape == self.bonds.shape, f"{when}: bond_list has shape {bl.shape}")
        expect(sv.shape == self.svs.shape, f"{when}: sv_list has shape {sv.shape}")
        for i in range(self.n + 2):
            if i in new:
                svs, lo, hi = new[i]
                expect(
                    lo <= bl[i] <= hi, f"{when}: bond_list[{i}] = {bl[i]}, kept singular values: {lo}..{hi}",
                    bond_list=bl, **info,
                )
                scale = max(svs[0], 1e-12)
                tol = max(self.eps * 100, 1e-6 if m.sv_list.dtype == torch.float32 else 1e-10)
                expect(
                    np.abs(sv[i] - svs).max() <= tol * scale, f"{when}: sv_list[{i}]",
                    got=sv[i], want=svs, **info,
                )
                expect(np.all(np.diff(sv[i]) <= 0), f"{when}: sv_list[{i}] not descending", got=sv[i])
                expect(1 <= bl[i] <= self.D, f"{when}: bond_list[{i}] out of range", bond_list=bl)
            else:
                expect(
                    bl[i] == self.bonds[i] and np.array_equal(sv[i], self.svs[i]),
                    f"{when}: entry {i} of bond_list/sv_list changed", got=[bl[i], sv[i]],
                    want=[self.bonds[i], self.svs[i]], **info,
                )
        self.bonds, self.svs = np.array(bl), np.array(sv)

    def call(self, b, how="", tag=0):
        m, T = self.model, self.T
        new = {}
        shift = self.counter >= T
        if shift:
            _, new, _ = split(active_chain(m), self.label, self.D, self.cutoff, self.eps)
            if any(lo < 1 for _, lo, _ in new.values()):
                self.ctx.add("histories_left_claim")
                return False
            expect(
                sorted(new) == merged_bonds(self.n, self.shifts % 2),
                "merged cores before the shift", got=sorted(new), shifts=self.shifts,
            )
            self.counter -= T
            self.shifts += 1
        self.counter += b
        if self.mark:
            m.bond_list[:] = -7
            m.sv_list[:] = -5.0
            self.bonds, self.svs = np.array(m.bond_list), np.array(m.sv_list)
        x = gen([b, self.n] if how == "S" else [b, self.n, self.d], "x", tag)
        xt = tens(x, self.dtype)
        m.train(how != "E")
        if how == "N":
            with torch.no_grad():
                m(xt)
        else:
            m(xt)
        self.lists(f"call of {b} inputs, {'shift' if shift else 'no shift'}", new, counter=self.counter, shifts=self.shifts)
        self.ctx.outcome((self.counter, self.shifts % 2, T))
        # which pairs are merged now
        _, bonds, _ = split(active_chain(m), self.label, self.D, 0.0, self.eps)
        expect(sorted(bonds) == merged_bonds(self.n, self.shifts % 2), "merged cores after the call", got=sorted(bonds))
        sizes = (len(m), m.core_len(), len(m.linear_region), m.linear_region.core_len())
        expect(sizes == (self.n, self.n + 1, self.n, self.n + 1), "input sites and cores after the call", got=sizes)
        return True


def run_history(hist, sim, other, ctx):
    ctx.trace = {"history": list(hist), "mark": sim.mark}
    fill_active(sim.model, "s0")
    for k, op in enumerate(hist):
        ctx.transitions += 1
        if op == "U":
            fill_active(sim.model, "s", k)
        elif op[0] == "B":
            if not other.call(int(op[1:]), tag=k):
                return
            sim.lists("call of another model", {})
        else:
            how, b = ("", op) if op.isdigit() else (op[0], op[1:])
            if not sim.call(int(b), how, k):
                return
    ctx.traces += 1


def run_case(case, ctx):
    kind = case[0]
    if kind == "sched":
        _, T, first, depth = case
        for rest in itertools.product(OPS, repeat=depth - 1):
            hist = (first,) + rest
            if any(a == b == "U" for a, b in zip(hist, hist[1:])):
                continue
            sim = Sim(2, 1, False, 2, 2, T, 1e-10, ctx, mark=len(hist) % 2 == 0)
            run_history(hist, sim, None, ctx)
            ctx.eval(hist, nontrivial=sim.shifts > 0)
        # interleaved with a second model, other call modes
        for rest in itertools.product(["1", "E1", "S2", "B3"], repeat=3):
            hist = (first,) + rest
            sim = Sim(2, 0, True, 2, 2, T, 1e-10, ctx, mark=True)
            other = Sim(2, 0, True, 2, 2, T, 1e-10, ctx, mark=True)
            fill_active(other.model, "other")
            run_history(hist, sim, other, ctx)
            ctx.eval(hist, nontrivial=sim.shifts > 0)
        ctx.sample({"history": hist, "counter": sim.counter, "shifts": sim.shifts})
    elif kind == "graph":
        # explicit-state search of the automaton; every edge replayed by a shortest trace
        _, T, cmax = case
        batches = [1, 2, 3, 7]
        seen, todo = {(0, 0): ()}, [(0, 0)]
        while todo:
            c, par = todo.pop(0)
            for b in batches:
                c2, p2 = c, par
                if c >= T:
                    c2, p2 = c - T, 1 - par
                c2 += b
                hist = seen[(c, par)] + (b,)
                sim = Sim(1, 1, False, 2, 2, T, 1e-12, ctx, mark=True)
                fill_active(sim.model, "g")
                ctx.trace = {"calls": hist}
                for k, bb in enumerate(hist):
                    sim.call(bb, tag=k)
                expect((sim.counter, sim.shifts % 2) == (c2, p2), "reference automaton")
                ctx.transitions += 1
                ctx.traces += 1
                ctx.eval(hist, nontrivial=sim.shifts > 0)
                if (c2, p2) not in seen and c2 <= cmax:
                    seen[(c2, p2)] = hist
                    todo.append((c2, p2))
        ctx.states = len(seen)
        ctx.sample({"states": sorted(seen)[:6], "deepest trace": hist})
    elif kind == "spectra":
        _, n, label, periodic, cutoff, depth = case
        T = 2
        for D, d in [(2, 2), (3, 2)] + ([(3, 1), (1, 2)] if n <= 2 else []):
            for upd in itertools.product([False, True], repeat=depth):
                for mark in [False, True]:
                    sim = Sim(n, label, periodic, D, d, T, cutoff, ctx, mark)
                    ctx.trace = {"D": D, "d": d, "updates": upd, "mark": mark}
                    for k, u in enumerate(upd):
                        if u:
                            if k % 3 == 1:
                                fill_active(sim.model, "sp", k, D, rank=1, scale=1.0)
                            else:
                                fill_active(sim.model, "sp", k, D)
                        ctx.transitions += 1
                        if not sim.call(2, tag=k):
                            break
                    ctx.traces += 1
                    ctx.eval((D, d, upd, mark), nontrivial=sim.shifts > 0)
        ctx.sample({"bond_list": sim.bonds, "sv_list": sim.svs.round(3)})
    elif kind == "wide":
        # larger dimensions and large batches; thresholds that several batches reach
        _, D, d, o = case
        for (n, label), periodic, cutoff in itertools.product([(1, 0), (2, 1), (3, 3), (4, 1)], [False, True], [1e-10, 0.4]):
            for T, calls in [(2, [2, 2, 2, 2]), (64, [63, 1, 64, 65, 1]), (100, [1000, 1, 1, 300]), (1000, [1000, 999, 1, 1, 2500, 1, 1])]:
                sim = Sim(n, label, periodic, D, d, T, cutoff, ctx, mark=bool(n % 2), o=o)
                ctx.trace = {"n": n, "label": label, "periodic": periodic, "cutoff": cutoff, "threshold": T, "calls": calls}
                for k, b in enumerate(calls):
                    if k % 2 == 0:
                        fill_active(sim.model, "wd", k, D, rank=1 if k == 4 else None)
                    ctx.transitions += 1
                    if not sim.call(b, tag=k):
                        break
                ctx.traces += 1
                ctx.eval((n, label, periodic, cutoff, T), nontrivial=sim.shifts > 0)
        ctx.sample({"bond_list": sim.bonds})
    elif kind == "long":
        _, n, periodic = case
        for label in [0, 1, n // 2, n - 1, n]:
            sim = Sim(n, label, periodic, 2, 2, 3, 1e-3, ctx, mark=False)
            for k in range(12):
                ctx.transitions += 1
                if k % 5 == 4:
                    fill_active(sim.model, "lg", k)
                if not sim.call(1 + k % 4, tag=k):
                    break
            ctx.traces += 1
            ctx.eval(label)
    elif kind in ("float32", "double()"):
        n = case[1]
        for label in range(n + 1):
            for periodic in [False, True]:
                sim = Sim(n, label, periodic, 2, 2, 2, 1e-10, ctx, False, torch.float32, kind != "float32")
                fill_active(sim.model, "dt")
                for k in range(6):
                    ctx.transitions += 1
                    if k == 3:
                        fill_active(sim.model, "dt", 2)
                    sim.call(2, tag=k)
                ctx.traces += 1
                ctx.eval((label, periodic))
    if kind != "graph":
        ctx.states = len(ctx.outcomes)

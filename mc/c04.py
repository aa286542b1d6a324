"""C04: concurrent evaluations do not disturb each other"""
import copy
import itertools
import sys
import types

import numpy as np
import torch

from . import adaptive, ref
from .core import Violation
from .kinds import KINDS
from .mpsutil import expect, np64, put, tens
from .sched import Run, instrument

LEVEL = "model_checking"
RULE = (
    "Two (three) threads evaluate models, running the real code under a cooperative scheduler "
    "with a scheduling point before every source line of torchmps. For every pair of model "
    "kinds: all schedules with one preemption; with two preemptions all those where the first "
    "or second preemption directly follows (thorough: or precedes) a line that writes state other "
    "threads can see (found by comparing all such state before and after every line), and for selected "
    "pairs all without that reduction. A line is in a schedule's trace at most once per "
    "execution, so no two schedules are equal. Non-trivial: a preempted thread had more to run."
)
ASSUMPTIONS = [
    "scheduling points at source lines of torchmps: a torch operation is atomic (it releases "
    "the interpreter lock only over tensors no other thread writes)",
    "state that threads share is reachable from torchmps' modules, classes, functions, the "
    "models, or torch's global defaults (used only to reduce schedules with two preemptions)",
]
ADAPT = ["adaptive", "adaptive shift", "adaptive right shift"]
NAMES = list(KINDS)


def bounds(tier):
    q = tier == "quick"
    return {
        "model kinds": NAMES + ADAPT,
        "pairs": "every kind with itself on one shared model; "
        + ("every kind with a model of another family" if q else "all pairs of kinds") + " on separate models",
        "batch sizes": "different (2 and 3)" + ("" if q else ", equal (2 and 2)"),
        "modes": "every kind: gradients in one thread, no_grad in the other; single against double precision",
        "preemptions": "1 (all); 2 (around shared writes) for "
        + ("shared models" if q else "all pairs") + "; 2 (all) for " + ("2" if q else "12") + " pairs",
        "threads": "2; 3 for selected kinds",
    }


def cases(tier):
    q = tier == "quick"
    out = []
    for a in NAMES:
        out.append(["same", a, a, 2, 3, 2])
        if not q:
            out.append(["same", a, a, 2, 2, 2])
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        if not q:
            out.append(["diff", a, b, 2, 3, 2])
    if q:
        for a in NAMES:
            out.append(["diff", a, "prob" if a.startswith("ti") else "ti", 2, 3, 1])
        out.append(["diff", "mps", "mps", 2, 3, 2])
    for a in ADAPT:
        for b in ["prob"] + ADAPT[:1] + ([] if q else ["mps", "ti", "unif", "adaptive shift"]):
            out.append(["diff", a, b, 2, 3, 1 if q else 2])
    for a in NAMES:
        out.append(["same", a + "@grad", a + "@nograd", 2, 3, 1 if q else 2])
        out.append(["diff", a, a + "@single", 2, 3, 1 if q else 2])
        if not q:
            out.append(["same", a + "@grad", a + "@grad", 2, 3, 2])
    for a in ADAPT:
        out.append(["diff", a + "@grad", "mps@nograd", 2, 3, 1])
    full = [("prob slim", "prob slim", "same"), ("prob vec slim", "unif slim vec", "diff")]
    if not q:
        full += [(a, a, "same") for a in ["mps", "ti", "ti list", "prob", "prob train", "unif"]]
        full += [("mps", "ti", "diff"), ("mps", "prob", "diff"), ("prob", "unif", "diff"), ("ti list", "prob cont", "diff")]
    for a, b, how in full:
        for part in range(24):
            out.append(["full2", how, a, b, 1, 2, part, 24])
    for a in ["mps", "mps periodic", "ti list", "prob", "prob train"] + ([] if q else NAMES[1:]):
        if ["three", a] not in out:
            out.append(["three", a])
    return out


def weight(case):
    return {"full2": 150, "three": 20}.get(case[0], 200 if "shift" in case[1] else 9 if "@" in case[1] else 10)


# -- harnesses ---------------------------------------------------------------


class Harness:
    """Models and calls of the threads; fresh() gives the bodies of one execution"""

    def __init__(self, how, names, batches):
        self.names = names
        self.models, self.calls = [], []
        for t, (name, b) in enumerate(zip(names, batches)):
            name, _, flavour = name.partition("@")
            rows = [(3 * t + 2 * k + 1) % 8 for k in range(b)]
            if name in KINDS:
                kind = KINDS[name]
                if how == "same" and t:
                    model = self.models[0]
                else:
                    model = kind.build()
                dtype = None
                if flavour == "single":
                    dtype = torch.float32
                    cplx = any(p.is_complex() for p in model.parameters())
                    model = model.to(torch.complex64) if cplx else model.float()
                x = kind.inputs(rows, dtype)
                self.models.append(model)
                self.calls.append((kind, x, flavour))
            else:
                label = 3 if "right" in name else 1
                model = adaptive.build(3, label, T=2, periodic="right" in name)
                adaptive.fill_active(model, "c04", name)
                if "shift" in name:
                    model(tens(ref.gen([2, 3, 2], "prime")))
                self.models.append(model)
                self.calls.append((None, tens(ref.gen([b, 3, 2], "ad", t)), flavour))

    def bodies(self):
        out = []
        for model, (kind, x, flavour) in zip(self.models, self.calls):
            if kind is None:
                model = copy.deepcopy(model)
            out.append(self.body(model, kind, x, flavour))
        return out

    @staticmethod
    def body(model, kind, x, flavour):
        def run():
            with torch.set_grad_enabled(flavour != "nograd"):
                res = model(x) if kind is None else kind.call(model, x)
            if flavour != "grad":
                return np64(res)
            # output and gradients, in one vector
            params = [p for p in model.parameters() if p.requires_grad and p.numel()]
            weights = torch.arange(1.0, res.numel() + 1, dtype=res.dtype).view(res.shape)
            grads = torch.autograd.grad((res * weights).sum(), params, allow_unused=True)
            out = [np64(res)] + [np.zeros(1) if g is None else np64(g) for g in grads]
            return np.concatenate([a.reshape(-1) for a in out])

        return run


# -- state that other threads can see ----------------------------------------

SIMPLE = (int, float, complex, str, bytes, bool, type(None), torch.dtype, torch.Size)


def value_of(x, depth=2):
    if isinstance(x, SIMPLE):
        return x
    if isinstance(x, torch.Tensor):
        return (id(x), x._version)
    if depth and isinstance(x, (list, tuple)) and len(x) < 50:
        return (id(x) if isinstance(x, list) else 0, tuple(value_of(v, depth - 1) for v in x))
    if depth and isinstance(x, dict) and len(x) < 50:
        return (id(x), tuple((k if isinstance(k, SIMPLE) else id(k), value_of(v, depth - 1)) for k, v in x.items()))
    return id(x)


def shared_state(models):
    out = []
    for name, mod in list(sys.modules.items()):
        if name == "torchmps" or name.startswith("torchmps."):
            for k, v in vars(mod).items():
                if k.startswith("__"):
                    continue
                out.append((name, k, value_of(v)))
                if isinstance(v, type) and v.__module__.startswith("torchmps"):
                    out += [(name, k, a, value_of(b)) for a, b in vars(v).items() if not a.startswith("__")]
                elif isinstance(v, types.FunctionType) and v.__module__.startswith("torchmps"):
                    out.append((name, k, value_of(v.__defaults__), value_of(vars(v))))
    for i, m in enumerate(models):
        for path, sub in m.named_modules():
            for k, v in vars(sub).items():
                if k == "_modules":
                    out.append((i, path, k, tuple((a, id(b)) for a, b in v.items())))
                else:
                    out.append((i, path, k, value_of(v)))
    out.append(torch.get_default_dtype())
    return out


def process_state():
    """Settings of the process that code in any other thread depends on"""
    return torch.get_default_dtype(), torch.get_num_threads(), torch.is_anomaly_enabled(), torch.are_deterministic_algorithms_enabled()


def profile(h, before=False):
    """Run every thread alone: (results, points per thread, points around writes)"""
    results, counts, writes = [], [], []
    start, changed = process_state(), []
    bodies = h.bodies()
    for t, body in enumerate(bodies):
        around, last = set(), [None]

        def watch(k, around=around, last=last):
            now = shared_state(h.models)
            if process_state() != start:
                changed.append(t)
            # k: index (from 1) of the point before the next line
            if last[0] is not None and now != last[0]:
                # the line of point k-1 wrote: preempt (before and) after it
                around.update({k - 2, k - 1} if before else {k - 1})
            last[0] = now

        run = Run([body], [(0, None)], watch)
        expect(run.go() == "controlled", "a call alone waits for another thread", kind=h.names[t])
        status, res = run.results[0]
        if status != "ok":
            raise Violation(f"call alone raised {type(res).__name__}: {res}", kind=h.names[t])
        if changed:
            raise Violation("a process-wide setting is changed during the call", kind=h.names[t])
        results.append(res)
        counts.append(run.points[0])
        writes.append(sorted(k for k in around if k >= 0))
    return results, counts, writes


def check(h, segments, want, ctx, key):
    ctx.trace = {"threads": h.names, "schedule (thread, lines)": segments}
    run = Run(h.bodies(), segments)
    mode = run.go()
    if mode == "deadlock":
        raise Violation("threads wait for each other", schedule=segments)
    if mode == "free":
        ctx.add("uncontrolled_executions")
    for t, (res, w) in enumerate(zip(run.results, want)):
        if res[0] != "ok":
            raise Violation(
                f"call of thread {t} ({h.names[t]}) raised {type(res[1]).__name__}: {res[1]}", schedule=segments
            )
        if not same_value(res[1], w):
            raise Violation(
                f"call of thread {t} ({h.names[t]}) differs from the same call alone",
                got=res[1], want=w, schedule=segments,
            )
    ctx.transitions += sum(run.points)
    ctx.traces += 1
    # a schedule is non-trivial when the preempted segments were really cut off
    ctx.eval(key, nontrivial=sum(n is not None for _, n in segments) > 0)
    return run


def same_value(a, b):
    if a.shape != b.shape:
        return False
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return False
    return bool(np.all(np.abs(a[fin] - b[fin]) <= 1e-12 * max(1e-300, np.abs(b[fin]).max(initial=0.0))))


def after(h, want):
    """The models still give the same when called alone afterwards"""
    expect(torch.get_default_dtype() == torch.float64, "the default precision is another after the calls")
    for t, (body, w) in enumerate(zip(h.bodies(), want)):
        got = body()
        if not same_value(got, w):
            raise Violation(f"call {t} ({h.names[t]}) differs after the concurrent calls", got=got, want=w)


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    kind = case[0]
    if kind in ("same", "diff"):
        _, a, b, ba, bb, bound = case
        h = Harness(kind, [a, b], [ba, bb])
        warm(h)
        want, counts, writes = profile(h, before=ctx.tier == "thorough")
        scheds = set()
        for x, y in [(0, 1), (1, 0)]:
            for k in range(counts[x]):
                scheds.add(((x, k), (y, None), (x, None)))
            # two preemptions, one of them at a write
            for k in range(1, counts[x]):
                for w in writes[y]:
                    if w > 0 and bound > 1:
                        scheds.add(((x, k), (y, w), (x, None), (y, None)))
            for w in writes[x]:
                for k in range(1, counts[y]):
                    if w > 0 and bound > 1 and k not in writes[y]:
                        scheds.add(((x, w), (y, k), (x, None), (y, None)))
        if len(scheds) > 6000:
            # long executions (merge shifts): both preemptions at writes
            scheds = {s for s in scheds if len(s) == 3 or (s[0][1] in writes[s[0][0]] and s[1][1] in writes[s[1][0]])}
        for s in sorted(scheds, key=lambda s: (len(s), s)):
            run = check(h, list(s), want, ctx, s)
        after(h, want)
        ctx.states += sum(counts)
        ctx.add("points_at_shared_writes", sum(map(len, writes)))
        ctx.outcome((counts, want[0].tobytes()))
        ctx.sample({"threads": h.names, "lines": counts, "lines that write shared state": writes, "schedules": len(scheds)})
        # the same schedule gives the same execution
        again = check(h, list(s), want, ctx, s)
        expect(again.points == run.points or again.free, "replay of a schedule differs", a=again.points, b=run.points)
    elif kind == "full2":
        _, how, a, b, ba, bb, part, parts = case
        h = Harness(how, [a, b], [ba, bb])
        warm(h)
        want, counts, writes = profile(h)
        i = 0
        for x, y in [(0, 1), (1, 0)]:
            for k in range(1, counts[x]):
                i += 1
                if i % parts != part:
                    continue
                for w in range(1, counts[y]):
                    check(h, [(x, k), (y, w), (x, None), (y, None)], want, ctx, (x, k, w))
        after(h, want)
        ctx.states += sum(counts)
        ctx.outcome((a, b, want[0].tobytes()))
    elif kind == "three":
        name = case[1]
        for how in ["same", "diff"]:
            h = Harness(how, [name] * 3, [1, 2, 3])
            warm(h)
            want, counts, writes = profile(h)
            for order in itertools.permutations(range(3)):
                x, y, z = order
                for k in range(1, counts[x], 3):
                    for w in (writes[y] or [counts[y] // 2]):
                        if w:
                            check(h, [(x, k), (y, w), (z, None), (x, None), (y, None)], want, ctx, (how, order, k, w))
            after(h, want)
            ctx.states += sum(counts)
            ctx.outcome((how, want[0].tobytes()))
    else:
        raise AssertionError(kind)


def warm(h):
    found = instrument()
    expect(found > 50, "no functions to instrument", found=found)
    for body in h.bodies():
        body()

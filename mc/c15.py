"""C15: checkpoints and copies reproduce the model at any point of its life"""
import copy
import io
import itertools
import pickle

import numpy as np
import torch

from . import ref
from .adaptive import active_chain, build, contract_chain, fill_active, split
from .core import Violation
from .kinds import KINDS, MPSKind
from .mpsutil import expect, np64, put, tens
from .ref import gen

LEVEL = "model_checking"
RULE = (
    "adaptive: every history up to a depth of calls, training steps and parameter updates; at "
    "every node the model is deep-copied, pickled and saved, and its state dict (direct, "
    "copied, through a file) is loaded into models with every one of several histories "
    "(both merge states, trained, counter at the threshold). Copies must continue exactly "
    "like the original (outputs, gradients, bond_list, sv_list over further calls and "
    "shifts), loaded models must compute the function of the original, now and after further "
    "shifts (reference automaton), and updates of one must not show in any other. fixed: the "
    "same for every fixed-structure kind. Non-trivial: a history with at least one operation."
)
ASSUMPTIONS = ["adaptive shift reference of mc/adaptive.py; the active cores are those of linear_region.module_list"]
T = 3
OPS = ["C1", "C3", "B2", "U", "R"]
TARGETS = [[], ["C3", "C1"], ["U", "C3", "C1", "C3", "C1"], ["B2", "C1"], ["C3", "B2", "U"]]
CONT = ["C1", "B2", "C3", "C1", "B2"]
FIXED_OPS = ["eval", "step", "edit", "convert"]


class ParamMap(torch.nn.Module):
    """Feature map of dimension 3 with parameters"""

    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.randn(3))

    def forward(self, x):
        return torch.stack([x * 0 + 1, x, x * x]) * self.w


class ModMap(MPSKind):
    def make(self):
        model = super().make()
        model.register_feature_map(ParamMap())
        return model

    def ref(self, model, rows):
        from .mpsutil import FixedMPS

        x = self.raw(rows)
        w = np64(model.feature_map.w)
        return ref.mps_output_fast(x=np.stack([np.ones_like(x), x, x * x], 2) * w, **FixedMPS(model).arrays())


ALL = dict(KINDS)
ALL["mps module map"] = ModMap("mps module map", mode="map")
# embedding functions that are local cannot be pickled
LOCAL = {"prob table", "prob complex table", "prob cont", "unif onehot"}


def bounds(tier):
    q = tier == "quick"
    return {
        "adaptive": f"input_dim 1..{3 if q else 5}, all label sites, open/periodic, bond 2 (3; 3..9 at depth 2), threshold {T}",
        "operations": OPS,
        "depth": 3 if q else 4,
        "targets of load_state_dict": TARGETS,
        "continuation": CONT,
        "fixed kinds": list(ALL),
        "fixed operations": FIXED_OPS,
        "fixed depth": 3 if q else 4,
    }


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 4 if q else 6):
        for label in range(n + 1):
            for periodic in [False, True]:
                for first in OPS:
                    out.append(["adaptive", n, label, periodic, 2, first, 3 if q or n > 3 else 4])
                if not q:
                    out.append(["adaptive", n, label, periodic, 3, "U", 3])
    for n, label in [(1, 1), (2, 1), (3, 0)]:
        for D in [3, 4, 5, 8, 9]:
            for first in OPS:
                out.append(["adaptive", n, label, bool(D % 2), D, first, 2])
    for k in ALL:
        out.append(["fixed", k, 3 if q else 4])
    return out


def weight(case):
    return case[1] * 10 * 5 ** (case[-1] - 3) if case[0] == "adaptive" else 5


def through_file(obj):
    buf = io.BytesIO()
    torch.save(obj, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


COPIES = {
    "deepcopy": copy.deepcopy,
    "pickle": lambda m: pickle.loads(pickle.dumps(m)),
    "save": through_file,
}
STATES = {
    "direct": lambda m: m.state_dict(),
    "deepcopy": lambda m: copy.deepcopy(m.state_dict()),
    "file": lambda m: through_file(m.state_dict()),
}


class Ad:
    """Adaptive model with its optimizer and the schedule automaton"""

    def __init__(self, cfg, model=None, counter=0):
        self.cfg = cfg
        n, label, periodic, D = cfg
        if model is None:
            torch.manual_seed(1)
            model = build(n, label, D, 2, 2, periodic, T, 1e-10)
            fill_active(model, "c15 start", rank=1)
        self.model = model
        self.counter = counter
        self.opt = torch.optim.SGD(list(model.parameters()), lr=0.03)

    def copied(self, how):
        other = COPIES[how](self.model)
        expect(type(other) is type(self.model), f"{how}: type of the copy")
        return Ad(self.cfg, other, self.counter)

    def chain(self):
        return active_chain(self.model)

    def function(self, chain):
        n, _, periodic, _ = self.cfg
        return contract_chain(chain, np.eye(2)[ref.grid(range(2), n)], periodic)

    def op(self, op, tag):
        """Returns (output, claim) where claim is false when it left the claim"""
        n, label, periodic, D = self.cfg
        m = self.model
        if op == "U":
            fill_active(m, "u", tag)
            return None, True
        if op == "R":
            fill_active(m, "r", tag, rank=1)
            return None, True
        b = int(op[1:])
        want, ambiguous = self.chain(), False
        if self.counter >= T:
            want, bonds, ambiguous = split(want, label, D, 1e-10, 1e-13)
            if any(lo < 1 for _, lo, _ in bonds.values()):
                return None, False
            self.counter -= T
        self.counter += b
        x = gen([b, n, 2], "x", tag)
        if op[0] == "B":
            self.opt.zero_grad()
            out = m(tens(x))
            (out * out).mean().backward()
            torch.nn.utils.clip_grad_norm_([p for p in m.parameters() if p.grad is not None], 1.0)
            self.opt.step()
        else:
            out = m(tens(x))
        out = np64(out)
        if not ambiguous:
            w = contract_chain(want, x, periodic)
            size = np.abs(contract_chain([(k, np.abs(a)) for k, a in want], np.abs(x), periodic)).max()
            e = np.abs(out - w).max()
            expect(e <= 1e-8 * max(size, 1e-300), f"{op}: output differs from the reference by {e:.3g}", got=out, want=w)
        return out, True

    def record(self):
        m = self.model
        return (
            [p.detach().clone() for p in m.parameters()], m.bond_list.clone(), m.sv_list.clone(),
            self.function(self.chain()),
        )


def same_record(a, b, what):
    expect(len(a[0]) == len(b[0]), f"{what}: number of parameters")
    for p, q in zip(a[0], b[0]):
        expect(p.dtype == q.dtype and torch.equal(p, q), f"{what}: parameters differ")
    expect(torch.equal(a[1], b[1]), f"{what}: bond_list differs", got=a[1], want=b[1])
    expect(torch.equal(a[2], b[2]), f"{what}: sv_list differs", got=a[2], want=b[2])
    expect(ref.err(a[3], b[3]) <= 1e-12, f"{what}: function differs")


def near_record(a, b, what):
    """Equal up to the rounding of a shift (which depends on memory alignment)"""
    expect(torch.equal(a[1], b[1]), f"{what}: bond_list differs", got=a[1], want=b[1])
    size = max(1.0, float(b[2].abs().max()))
    expect(float((a[2] - b[2]).abs().max()) <= 1e-6 * size, f"{what}: sv_list differs", got=a[2], want=b[2])
    e = np.abs(a[3] - b[3]).max() / max(1.0, np.abs(b[3]).max())
    expect(e <= 1e-8, f"{what}: function differs by {e:.3g}")


def replay(cfg, hist, tag):
    """Model with a given history; None where the history leaves the claim"""
    sim = Ad(cfg)
    for k, op in enumerate(hist):
        if not sim.op(op, (tag, k))[1]:
            return None
    return sim


def node(cfg, hist, ctx):
    make = lambda: replay(cfg, hist, "h")  # noqa: E731
    orig = make()
    if orig is None:
        ctx.add("histories_left_claim")
        return False
    here = orig.record()
    # copies continue exactly like the original
    for how in COPIES:
        ctx.trace = {"history": hist, "copy": how}
        other = orig.copied(how)
        same_record(other.record(), here, f"{how}")
        twin = make()
        for k, op in enumerate(CONT):
            a, ok = twin.op(op, ("c", k))
            b, ok2 = other.op(op, ("c", k))
            ctx.transitions += 2
            if not ok:
                break
            expect(np.array_equal(a, b), f"{how}: output of step {k} ({op}) of the continuation differs", got=b, want=a)
            near_record(other.record(), twin.record(), f"{how}: after step {k} ({op}) of the continuation")
        # none of this shows in the original
        same_record(orig.record(), here, f"{how}: original after the copy was used")
        ctx.eval((hist, how), nontrivial=bool(hist))
    # updates of the original do not show in the copies
    for how in COPIES:
        ctx.trace = {"history": hist, "updates of the original": how}
        victim = make()
        other = victim.copied(how)
        there = victim.record()
        for k, op in enumerate(["B2", "C3", "U", "C1"]):
            if not victim.op(op, ("v", k))[1]:
                break
            same_record(other.record(), there, f"{how}: copy after {op} on the original")
        with torch.no_grad():
            for p in victim.model.parameters():
                p.fill_(3.0)
        victim.model.bond_list[:] = -1
        victim.model.sv_list[:] = -1
        same_record(other.record(), there, f"{how}: copy after edits of the original")
        ctx.eval((hist, how, "indep"), nontrivial=bool(hist))
    # state dicts
    f = here[3]
    for k, target in enumerate(TARGETS):
        for s, (how, state) in enumerate(STATES.items()):
            if (k + s) % 3 and ctx.tier == "quick" and k:
                continue
            ctx.trace = {"history": hist, "state": how, "target": target}
            other = replay(cfg, target, "t")
            if other is None:
                continue
            ids = {id(p) for p in other.model.parameters()}
            res = other.model.load_state_dict(state(orig.model))
            expect(not res.missing_keys and not res.unexpected_keys, "keys of the state dict")
            expect(ids == {id(p) for p in other.model.parameters()}, "load_state_dict replaced parameters")
            got = other.function(other.chain())
            e = ref.err(got, f) if np.abs(f).max() > 1e-200 else 0.0
            expect(e <= 1e-12, f"loaded state represents another function (error {e:.3g})", got=got, want=f)
            # the loaded model works with this function, also over its later shifts
            for j, op in enumerate(CONT + ["C3", "C1"]):
                ctx.transitions += 1
                if not other.op(op, ("l", j))[1]:
                    break
            same_record(orig.record(), here, "original after the loaded model was used")
            ctx.traces += 1
            ctx.eval((hist, how, k), nontrivial=bool(hist))
    ctx.outcome(f.round(8).tobytes())
    return True


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    if case[0] == "fixed":
        return run_fixed(case, ctx)
    _, n, label, periodic, D, first, depth = case
    cfg = (n, label, periodic, D)
    if first == OPS[0]:
        node(cfg, [], ctx)
    dead = set()
    for d in range(1, depth + 1):
        for rest in itertools.product(OPS, repeat=d - 1):
            hist = [first] + list(rest)
            if any(a in "UR" and b in "UR" for a, b in zip(hist, hist[1:])):
                continue
            if any(tuple(hist[:k]) in dead for k in range(1, d)):
                continue
            if not node(cfg, hist, ctx):
                dead.add(tuple(hist))
            ctx.traces += 1
    ctx.states = len(ctx.outcomes)
    ctx.sample({"history": hist, "evaluations": ctx.evaluations})


# -- fixed-structure models -------------------------------------------------


def fixed_op(kind, model, op, tag, dtype):
    if op == "eval":
        kind.call(model, kind.inputs([1, 2], dtype))
    elif op == "step":
        opt = torch.optim.SGD(model.parameters(), lr=0.05)
        opt.zero_grad()
        out = kind.call(model, kind.inputs([5, 2], dtype))
        w = tens(gen(tuple(out.shape), "w"), out.dtype)
        (out * w).sum().backward()
        opt.step()
    elif op == "edit":
        kind.fill(model, "edit", tag)
    elif op == "convert":
        if not any(p.is_complex() for p in model.parameters()):
            dtype = torch.float32 if dtype == torch.float64 else torch.float64
            model.to(dtype)
    return dtype


def outputs(kind, model, dtype):
    with torch.no_grad():
        return np64(kind.call(model, kind.inputs([0, 3, 5], dtype)))


def params(model):
    return [p.detach().clone() for p in model.parameters()]


def run_fixed(case, ctx):
    _, name, depth = case
    kind = ALL[name]
    for d in range(depth + 1):
        for hist in itertools.product(FIXED_OPS, repeat=d):
            def make():
                model, dtype = kind.build(), torch.float64
                for k, op in enumerate(hist):
                    dtype = fixed_op(kind, model, op, k, dtype)
                return model, dtype

            model, dtype = make()
            tol = 1e-11 if dtype == torch.float64 and "convert" not in hist else 2e-4
            want, values = outputs(kind, model, dtype), params(model)
            r = kind.ref(model, [0, 3, 5])
            expect(ref.err(want, r) <= tol, "original differs from the reference")

            def unchanged(m, what):
                expect(all(torch.equal(a, b) for a, b in zip(params(m), values)), f"{what}: parameters")
                expect(ref.err(outputs(kind, m, dtype), want) <= (1e-12 if dtype == torch.float64 else 1e-5), f"{what}: outputs")

            for how, f in COPIES.items():
                if name in LOCAL and how != "deepcopy":
                    continue
                ctx.trace = {"history": hist, "copy": how}
                other = f(model)
                expect(
                    [n for n, _ in other.named_parameters()] == [n for n, _ in model.named_parameters()],
                    f"{how}: parameters of the copy",
                )
                unchanged(other, how)
                # independent in both directions, and the copy can be trained
                kind.fill(other, "other")
                unchanged(model, f"{how}: original after an edit of the copy")
                got = outputs(kind, other, dtype)
                e = ref.err(got, kind.ref(other, [0, 3, 5]))
                expect(e <= max(tol, 1e-11), f"{how}: copy after an edit differs from the reference by {e:.3g}")
                fixed_op(kind, other, "step", 0, dtype)
                unchanged(model, f"{how}: original after training the copy")
                victim, vd = make()
                other = f(victim)
                kind.fill(victim, "victim")
                fixed_op(kind, victim, "step", 0, vd)
                unchanged(other, f"{how}: copy after updates of the original")
                ctx.transitions += 4
                ctx.eval((hist, how), nontrivial=d > 0)
            for how, f in STATES.items():
                for target in [[], ["step", "eval"], ["edit"]]:
                    ctx.trace = {"history": hist, "state": how, "target": target}
                    other = kind.make()
                    kind.fill(other, "target")
                    for k, op in enumerate(target):
                        fixed_op(kind, other, op, k, torch.float64)
                    if dtype != torch.float64:
                        other.to(dtype)
                    res = other.load_state_dict(f(model))
                    expect(not res.missing_keys and not res.unexpected_keys, "keys of the state dict")
                    unchanged(other, "loaded model")
                    kind.fill(other, "other")
                    unchanged(model, "original after an edit of the loaded model")
                    ctx.transitions += 2
                    ctx.traces += 1
                    ctx.eval((hist, how, tuple(target)), nontrivial=d > 0)
            ctx.outcome(want.tobytes())
    ctx.states = len(ctx.outcomes)
    ctx.sample({"history": hist, "outputs": want})

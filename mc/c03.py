"""C03: evaluation is a pure row-wise function of parameters and input"""
import itertools
import random

import numpy as np
import torch

from . import ref
from .core import Violation
from .kinds import KINDS
from .mpsutil import expect, np64, put, tens
from .ref import gen

LEVEL = "model_checking"
RULE = (
    "hist: every sequence of operations up to a depth on a model and a companion model "
    "(evaluations of different batch sizes, rejected calls, evaluation without gradients or in "
    "inference mode, evaluation with substituted parameters (functional_call), "
    "changes of mode, in-place edits, rebinding and loading of parameters, optimizer steps, "
    "dtype conversion, edits of an earlier input or output tensor), followed by evaluations of "
    "the latest input object with and without new content; every evaluation is "
    "compared with the reference value for the current parameters, and must leave inputs, "
    "parameters, gradients, random states and modes as they were. rows: every sequence of up "
    "to 3 rows out of 4 and every memory layout. close: small changes of parameters and inputs. poison: rows of extreme"
    " values beside ordinary ones. Non-trivial: all (outputs are generic)."
)
ASSUMPTIONS = ["references of mc/kinds.py (numpy chains)"]
OPS = [
    "eval 1", "eval 3", "companion 2", "reject", "nograd 2", "mode", "edit", "step", "load",
    "convert", "rebind", "mutate output", "mutate input",
    "infer 2", "functional",
]
COMPANION = {"mps": "ti list", "ti": "mps periodic", "prob": "mps", "unif": "prob train"}


def bounds(tier):
    return {
        "model kinds": list(KINDS),
        "operations": OPS,
        "depth": 3 if tier == "quick" else 4,
        "rows": "all row sequences of length 1..3 over 4 rows, batch sizes up to 4097",
        "close": "every parameter changed by relative 1e-8 between calls, inputs of a batch and of successive calls that differ by 1e-8",
        "poison": "rows of nan, inf, -inf (not for Born machines, which reject them), 1e200, 1e-200, 0 (all or one element) at every position of batches of 2, 3, 5 and selected ones of 17, 64",
        "layouts": "contiguous, transposed, strided, expanded, offset, batch of views, requiring gradients",
    }


def cases(tier):
    out = []
    for k in KINDS:
        out.append(["rows", k])
        out.append(["close", k])
        if floats(k):
            out.append(["poison", k])
        for op in OPS:
            if tier == "quick":
                out.append(["hist", k, [op], 3])
            else:
                for op2 in OPS:
                    out.append(["hist", k, [op, op2], 4])
    return out


def floats(name):
    """Kinds whose inputs are real vectors or numbers without a domain"""
    kind = KINDS[name]
    return name.split()[0] in ("mps", "ti") or kind.kw.get("mode") == "vec"


def weight(case):
    return 1 if case[0] == "hist" else 5


def snapshot(models):
    return [
        [(n, t.detach().clone(), t.requires_grad) for n, t in list(m.named_parameters()) + list(m.named_buffers())]
        for m in models
    ]


def check_snapshot(models, snap, what):
    for m, old in zip(models, snap):
        now = list(m.named_parameters()) + list(m.named_buffers())
        expect([n for n, _ in now] == [n for n, _, _ in old], f"{what}: parameter names changed")
        for (n, t), (_, t0, rg) in zip(now, old):
            expect(t.dtype == t0.dtype and torch.equal(t, t0), f"{what}: parameter {n} changed")
            expect(t.requires_grad == rg, f"{what}: requires_grad of {n} changed")


def world():
    py, np_state = random.getstate()[1], np.random.get_state()
    return (
        torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(),
        torch.get_rng_state().numpy().tobytes(), np_state[1].tobytes(), np_state[2], py,
    )


def pieces(x):
    return x if isinstance(x, list) else [x]


class Sim:
    def __init__(self, name, ctx):
        torch.set_default_dtype(torch.float64)
        self.ctx = ctx
        self.kind = KINDS[name]
        self.model = self.kind.build()
        other = COMPANION[name.split()[0]]
        self.okind = KINDS[other]
        self.omodel = self.okind.build()
        self.dtype = torch.float64
        self.mode = True
        self.last_in = self.last_out = self.last_rows = None
        self.donor = self.kind.make()
        self.kind.fill(self.donor, "donor")
        self.donor_state = self.donor.state_dict()
        # complex parameters are not touched by float() / double()
        self.convertible = not any(p.is_complex() for p in self.model.parameters())
        self.count = 0

    def evaluate(self, kind, model, rows, dtype, grad=True, inputs=None, keep=False):
        x = kind.inputs(rows, dtype) if inputs is None else inputs
        before_x = [p.clone() for p in pieces(x)]
        versions = [p._version for p in pieces(x)]
        models = [self.model, self.omodel]
        snap, w = snapshot(models), world()
        modes = [m.training for m in model.modules()]
        grads = [None if p.grad is None else p.grad.clone() for p in model.parameters()]
        if grad:
            got = kind.call(model, x)
            expect(got.requires_grad, "output does not require gradients")
        else:
            with torch.inference_mode() if grad is None else torch.no_grad():
                got = kind.call(model, x)
            expect(not got.requires_grad, "output requires gradients in no_grad mode")
        expect(world() == w, "evaluation changes global state (random state, default dtype or modes)")
        expect(modes == [m.training for m in model.modules()], "evaluation changes train/eval mode")
        check_snapshot(models, snap, "evaluation")
        for p, g in zip(model.parameters(), grads):
            expect((p.grad is None) == (g is None) and (g is None or torch.equal(p.grad, g)), "evaluation changes gradients")
        for p, q, v in zip(pieces(x), before_x, versions):
            expect(torch.equal(p, q) and p._version == v, "evaluation changes its input")
        want = kind.ref(model, rows)
        tol = 1e-11 if dtype == torch.float64 else 2e-4
        e = err(np64(got), want)
        if not e <= tol:
            raise Violation(f"evaluation: error {e:.3g}", got=np64(got), want=want, rows=rows)
        self.ctx.eval((kind.name, self.count, tuple(rows)))
        if keep:
            self.last_in, self.last_out, self.last_rows = x, got, rows
        return got

    def own(self, rows, **kw):
        return self.evaluate(self.kind, self.model, rows, self.dtype, keep=True, **kw)

    def op(self, op, k):
        self.count += 1
        self.ctx.transitions += 1
        name = op.split()[0]
        if name == "eval":
            b = int(op.split()[1])
            self.own([(k + 2 * i) % 8 for i in range(b)])
        elif name == "companion":
            self.evaluate(self.okind, self.omodel, [k % 8, 3], torch.float64)
        elif name == "nograd":
            self.own([1, (k + 4) % 8], grad=False)
        elif name == "infer":
            self.own([1, (k + 4) % 8], grad=None)
        elif name == "functional":
            # the parameters of another model substituted for one call
            if self.dtype == torch.float64:
                params = {n: p.detach().clone().requires_grad_() for n, p in self.donor.named_parameters()}
                snap = snapshot([self.model])
                grads = [p.grad for p in self.model.parameters()]
                rows = [2, (k + 1) % 8]
                x = self.kind.inputs(rows, self.dtype)
                got = torch.func.functional_call(self.model, params, (x,), getattr(self.kind, "flags", {}))
                e = err(np64(got), self.kind.ref(self.donor, rows))
                expect(e <= 1e-11, f"functional_call with other parameters: error {e:.3g}")
                got.sum().backward()
                for n, p in params.items():
                    expect(p.grad is not None or p.numel() == 0, f"functional_call: no gradient for {n}")
                check_snapshot([self.model], snap, "functional_call")
                expect(all(a is p.grad for a, p in zip(grads, self.model.parameters())), "functional_call changes gradients of the model's own parameters")
        elif name == "reject":
            w, snap = world(), snapshot([self.model])
            try:
                self.kind.call(self.model, self.kind.bad(self.dtype))
            except Exception:
                pass
            else:
                raise Violation("malformed input was answered")
            check_snapshot([self.model], snap, "rejected call")
            expect(world() == w, "rejected call changes global state")
        elif name == "mode":
            self.mode = not self.mode
            self.model.train(self.mode)
        elif name == "edit":
            self.kind.fill(self.model, "edit", k)
        elif name == "step":
            params = list(self.model.parameters())
            opt = torch.optim.SGD(params, lr=0.05)
            opt.zero_grad()
            got = self.own([5, 2])
            (got * tens(gen(tuple(got.shape), "w"), got.dtype)).sum().backward()
            old = [np64(p).copy() for p in params]
            opt.step()
            moved = any(np.abs(np64(p) - o).max() > 1e-9 for p, o in zip(params, old))
            expect(moved, "optimizer step changes no parameter")
            opt.zero_grad()
        elif name == "load":
            self.model.load_state_dict(self.donor_state)
        elif name == "convert":
            if self.convertible:
                self.dtype = torch.float32 if self.dtype == torch.float64 else torch.float64
                self.model.to(self.dtype)
                self.last_in = self.last_out = None
        elif name == "rebind":
            for i, p in enumerate(self.model.parameters()):
                arr = gen(tuple(p.shape), "rebind", k, i) * 0.8
                if p.is_complex():
                    arr = arr + 0.5j
                p.data = tens(arr, p.dtype)
        elif name == "mutate":
            if self.last_out is None:
                return
            if op.endswith("output"):
                self.last_out.detach().fill_(77.0)
                self.own(self.last_rows, inputs=self.last_in)
            else:
                # the same tensor object with the content of other rows
                rows = [(r + 3) % 8 for r in self.last_rows]
                new = self.kind.inputs(rows, self.dtype)
                if all(a.shape == b.shape and a.dtype == b.dtype for a, b in zip(pieces(self.last_in), pieces(new))):
                    for a, b in zip(pieces(self.last_in), pieces(new)):
                        a.copy_(b)
                    self.own(rows, inputs=self.last_in, grad=False)
                    self.own(rows, inputs=self.last_in)
        else:
            raise AssertionError(op)


def err(got, want):
    if got.shape != want.shape:
        return np.inf
    if not np.array_equal(np.isfinite(got), np.isfinite(want)):
        return np.inf
    fin = np.isfinite(want)
    if not fin.any():
        return 0.0
    return float(np.abs(got[fin] - want[fin]).max() / max(1.0, np.abs(want[fin]).max()))


def run_case(case, ctx):
    if case[0] == "hist":
        _, name, first, depth = case
        for rest in itertools.product(OPS, repeat=depth - len(first)):
            hist = list(first) + list(rest)
            sim = Sim(name, ctx)
            ctx.trace = {"history": hist}
            for k, op in enumerate(hist):
                sim.op(op, k)
            # the latest input object again, with its own and other contents
            if sim.last_in is not None:
                sim.own(sim.last_rows, inputs=sim.last_in, grad=False)
                sim.op("mutate input", depth)
            got = sim.own([0, 6])
            ctx.outcome(np64(got).round(8).tobytes())
            ctx.traces += 1
        ctx.states = len(ctx.outcomes)
        ctx.sample({"history": hist, "output": np64(got)})
    else:
        globals()["run_" + case[0]](case[1], ctx)


def tiny(shape, *tag):
    return 1e-8 * (1 + np.abs(gen(shape, *tag)))


def run_close(name, ctx):
    """Neither parameters nor inputs that are nearly equal are taken for equal"""
    torch.set_default_dtype(torch.float64)
    kind = KINDS[name]
    model = kind.build()
    tol = 3e-12

    def check(what, k, rows):
        got = np64(k.call(model, k.inputs(rows)))
        want = k.ref(model, rows)
        e = err(got, want)
        expect(e <= tol, f"{what}: error {e:.3g}", got=got, want=want)
        ctx.eval((what, tuple(rows)))
        ctx.transitions += 1
        return want

    for train in [True, False]:
        model.train(train)
        for step in range(3):
            for pname, p in model.named_parameters():
                ctx.trace = {"training": train, "step": step, "changed": pname}
                before = check("before", kind, [0, 3])
                with torch.no_grad():
                    for how in range(2):
                        d = tens(tiny(tuple(p.shape), pname, step, how), p.dtype)
                        if how:
                            p.data = p.data + d
                        else:
                            p += d
                        after = check("after a small change", kind, [0, 3])
                check("after a small change", kind, [0, 3, 5])
                ctx.add("small changes seen", int(np.abs(after - before).max() > 100 * tol))
    if floats(name):
        import copy

        near = copy.copy(kind)
        # row r of every batch: row 0 plus a change of 1e-8 that depends on r
        clean = kind.raw([0])[0]
        near.raw = lambda rows: (lambda a: a if isinstance(kind.raw([0]), list) else np.stack(a))(
            [clean + (tiny(clean.shape, "row", r) if r else 0.0) for r in rows]
        )
        for rows in [[0, 1], [1, 0], [0, 1, 2, 3], [2], [0], [1], [3, 0, 3, 1], list(range(16)), list(range(15, -1, -1))]:
            ctx.trace = {"rows": rows}
            check("nearly equal rows", near, rows)
    ctx.outcome(after.tobytes())
    ctx.states, ctx.traces = 1, ctx.evaluations


def run_poison(name, ctx):
    """A row of extreme values does not touch the other rows"""
    torch.set_default_dtype(torch.float64)
    kind = KINDS[name]
    model = kind.build()
    one = {r: np64(kind.call(model, kind.inputs([r])))[0] for r in range(8)}
    sizes = [(B, range(B)) for B in (2, 3, 5)] + [(17, [0, 8, 16]), (64, [0, 31, 63])]
    for value, part in itertools.product([np.nan, np.inf, -np.inf, 1e200, -1e200, 1e-200, 0.0], ["all", "first", "last"]):
        if kind.prob and not np.isfinite(value):
            continue  # rejected by an assertion, with the whole batch
        for B, places in sizes:
            rows = [(3 * i + 1) % 8 for i in range(B)]
            for at in places:
                raw = [a.copy() for a in kind.raw(rows)]
                flat = raw[at].reshape(-1)
                flat[slice(None) if part == "all" else 0 if part == "first" else -1] = value
                x = [tens(a) for a in raw]
                x = x if isinstance(kind.raw([0]), list) else torch.stack(x)
                ctx.trace = {"value": value, "part": part, "batch": B, "row": at}
                got = np64(kind.call(model, x))
                for i, r in enumerate(rows):
                    if i != at:
                        e = err(got[i : i + 1], one[r][None])
                        expect(e <= 1e-11, f"row {i} differs by {e:.3g}", got=got[i], want=one[r])
                ctx.eval((value, part, B, at))
                ctx.transitions += 1
    # and the calls after it
    e = err(np64(kind.call(model, kind.inputs([0, 1]))), np.stack([one[0], one[1]]))
    expect(e <= 1e-11, f"a later call differs by {e:.3g}")
    ctx.outcome(name)
    ctx.states, ctx.traces = 1, ctx.evaluations


def layouts(x):
    """Tensors with the same values and other memory layouts"""
    yield "contiguous", x.clone()
    yield "transposed", x.transpose(0, 1).contiguous().transpose(0, 1)
    if x.ndim == 3:
        yield "feature first", x.permute(2, 0, 1).contiguous().permute(1, 2, 0)
    big = torch.full([2 * x.shape[0]] + list(x.shape[1:]), 9, dtype=x.dtype)
    big[::2] = x
    yield "strided", big[::2]
    big = torch.full([x.shape[0] + 1] + [k + 2 for k in x.shape[1:]], 9, dtype=x.dtype)
    view = big[1:, 1:-1]
    if x.ndim == 3:
        view = view[..., 1:-1]
    view.copy_(x)
    yield "offset", view
    yield "flipped twice", x.flip(0).flip(0)
    if x.is_floating_point():
        yield "requires grad", x.clone().requires_grad_()
        yield "non-leaf", x.clone().requires_grad_() * 1.0


def run_rows(name, ctx):
    torch.set_default_dtype(torch.float64)
    kind = KINDS[name]
    model = kind.build()
    base = [0, 3, 5, 6]
    for n in [1, 2, 3]:
        for rows in itertools.product(base, repeat=n):
            got = np64(kind.call(model, kind.inputs(rows)))
            want = kind.ref(model, rows)
            ctx.trace = {"rows": rows}
            e = err(got, want)
            expect(e <= 1e-11, f"batch of rows {rows}: error {e:.3g}", got=got, want=want)
            ctx.eval(rows)
            ctx.transitions += 1
    one = {r: np64(kind.call(model, kind.inputs([r])))[0] for r in range(8)}
    for B in [4, 5, 7, 8, 16, 17, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2049, 4097]:
        rows = [(3 * i + i * i) % 8 for i in range(B)]
        got = np64(kind.call(model, kind.inputs(rows)))
        want = np.stack([one[r] for r in rows])
        e = err(got, want)
        expect(e <= 1e-11, f"batch size {B}: error {e:.3g}")
        ctx.eval(("size", B))
    for rows in [[0, 3, 5], [6], [2, 2]]:
        x = kind.inputs(rows)
        want = kind.ref(model, rows)
        if isinstance(x, list):
            for nm, parts in [("views", [torch.stack([a, a])[1] for a in x]), ("same object", None)]:
                if parts is None:
                    rows2 = [rows[0]] * 3
                    a = kind.inputs(rows2[:1])[0]
                    parts, want2 = [a, a, a], kind.ref(model, rows2)
                else:
                    want2 = want
                e = err(np64(kind.call(model, parts)), want2)
                expect(e <= 1e-11, f"list of {nm}: error {e:.3g}")
                ctx.eval((nm, tuple(rows)))
            continue
        for nm, y in layouts(x):
            expect(torch.equal(y, x), "harness layout")
            e = err(np64(kind.call(model, y)), want)
            expect(e <= 1e-11, f"{nm} input: error {e:.3g}", rows=rows)
            ctx.eval((nm, tuple(rows)))
        y = x[:1].expand([3] + list(x.shape[1:]))
        e = err(np64(kind.call(model, y)), kind.ref(model, [rows[0]] * 3))
        expect(e <= 1e-11, f"expanded input: error {e:.3g}")
        ctx.eval(("expanded", tuple(rows)))
    ctx.outcome(want.tobytes())
    ctx.states = 1
    ctx.traces = ctx.evaluations
    ctx.sample({"kind": name, "row outputs": {r: one[r].tolist() for r in list(one)[:2]}})

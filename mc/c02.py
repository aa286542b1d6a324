"""C02: routing paths and feature maps act exactly as documented"""
import copy
import itertools

import numpy as np
import torch

from . import adaptive, ref
from .core import Violation
from .mpsutil import FixedMPS, expect, np64, put, tens
from .ref import gen

LEVEL = "model_checking"
RULE = (
    "maps: every sequence, up to a depth, of registering plain functions, modules, None and "
    "malformed maps and of updating the modules, evaluating (scalar and embedded inputs, "
    "compared with the reference embedding) and inspecting the parameters after every "
    "operation (eager; steady: always the same inputs, without gradients) or only at the end (lazy). paths: every path of the given length into "
    "inputs of every sufficient width, as a list and as a tensor, for scalar, mapped and "
    "embedded inputs, against the path-free model on the gathered inputs and the reference. "
    "Non-trivial: all (generic cores and inputs)."
)
ASSUMPTIONS = ["numpy chain references of mc/ref.py and mc/adaptive.py"]
N = 3


def f1(x, d):
    # accepts tensors, but is then not what it is element by element
    vec = torch.stack([torch.cos(x * (k + 1.0)) + k for k in range(d)])
    return vec * (0.5 + 1 / vec.abs().sum())


def f1_ref(x, d):
    vec = np.cos(x * (np.arange(d) + 1)) + np.arange(d)
    return vec * (0.5 + 1 / np.abs(vec).sum(-1, keepdims=True))


def f2(x, d):
    # only defined for single scalars
    v = float(x)
    w = -v if v < 0 else 2 * v
    return torch.tensor([w + k * k for k in range(d)], dtype=torch.get_default_dtype())


class M(torch.nn.Module):
    """Module map with parameters: x -> w * x + b"""

    def __init__(self, d, tag):
        super().__init__()
        self.w = torch.nn.Parameter(tens(gen([d], "w", tag)))
        self.b = torch.nn.Parameter(tens(gen([d], "b", tag)))

    def forward(self, x):
        return self.w * x + self.b


class Fixed(torch.nn.Module):
    """Module map without parameters, in a nested module"""

    def __init__(self, d):
        super().__init__()
        self.d = d
        self.inner = torch.nn.Tanh()

    def forward(self, x):
        x = x.to(torch.get_default_dtype())
        return torch.stack([self.inner(x * (k + 1)) - k for k in range(self.d)])


BAD = {
    "bad long": lambda d: lambda x: torch.ones(d + 1),
    "bad short": lambda d: lambda x: torch.ones(d - 1),
    "bad matrix": lambda d: lambda x: torch.ones(1, d),
    "bad scalar": lambda d: lambda x: torch.ones(()),
    "bad module": lambda d: torch.nn.Sequential(M(d + 1, "bad")),
    "bad type": lambda d: lambda x: [1.0] * d,
}
OPS = ["none", "f1", "f2", "M1", "M2", "fixed", "bad short", "bad module", "update M1", "update M2"]
MODELS = {
    "mps": dict(),
    "mps par": dict(parallel_eval=True, label_site=0),
    "mps periodic nobias": dict(periodic_bc=True, use_bias=False, label_site=3),
    "mps path": dict(path=[2, 2, 0]),
    "adaptive": dict(adaptive_mode=True, merge_threshold=5),
    "adaptive periodic": dict(adaptive_mode=True, merge_threshold=3, periodic_bc=True, label_site=0),
    "ti": dict(),
    "ti par": dict(parallel_eval=True, fixed_bias=False),
    "ti list": dict(),
    "ti list nobias": dict(use_bias=False),
}
PATH_KINDS = {
    "serial 0": dict(label_site=0),
    "serial mid": dict(),
    "periodic par": dict(periodic_bc=True, parallel_eval=True),
    "nobias end": dict(use_bias=False, label_site="n"),
    "adaptive": dict(adaptive_mode=True, merge_threshold=3),
}


def bounds(tier):
    return {
        "map models": list(MODELS),
        "map operations": OPS + ["(all malformed maps at depth 1-2)"],
        "map depth": 3 if tier == "quick" else 4,
        "feature dimensions": [2, 3],
        "path lengths": [1, 2, 3] if tier == "quick" else [1, 2, 3, 4],
        "path widths": "1..4",
        "wide": "identity, reversed, rotated, strided, constant and repeating paths of length 5..33, 100 into widths up to 300; batches up to 257",
        "path models": list(PATH_KINDS),
    }


def cases(tier):
    out = []
    for m in MODELS:
        for d in [2, 3]:
            out.append(["bad", m, d])
            for op in OPS:
                if tier == "quick":
                    out.append(["maps", m, d, [op], 3])
                else:
                    for op2 in OPS:
                        out.append(["maps", m, d, [op, op2], 4])
    for k in PATH_KINDS:
        out.append(["wide", k])
        for n in [1, 2, 3] + ([4] if tier != "quick" else []):
            for width in [1, 2, 3, 4]:
                out.append(["paths", k, n, width])
    return out


def weight(case):
    if case[0] == "maps":
        return len(OPS) ** (case[4] - len(case[3]))
    return case[3] ** case[2] if case[0] == "paths" else 30 if case[0] == "wide" else 1


class Sim:
    def __init__(self, name, d, ctx):
        from torchmps import MPS, TI_MPS

        torch.set_default_dtype(torch.float64)
        self.ctx, self.name, self.d = ctx, name, d
        self.ti = name.startswith("ti")
        self.list = "list" in name
        self.path = MODELS[name].get("path")
        self.adaptive = name.startswith("adaptive")
        if self.ti:
            self.model = TI_MPS(2, 2, feature_dim=d, **MODELS[name])
        else:
            self.model = MPS(N, 2, 2, feature_dim=d, **MODELS[name])
        if self.adaptive:
            adaptive.fill_active(self.model, "c02")
        else:
            for k, p in enumerate(self.model.parameters()):
                put(p, gen(tuple(p.shape), "c02", k))
        self.own = {id(p) for p in self.model.parameters()}
        self.mods = {"M1": M(d, 1), "M2": M(d, 2), "fixed": Fixed(d)}
        self.values = {k: [np64(m.w), np64(m.b)] for k, m in self.mods.items() if k != "fixed"}
        self.fs = {"f1": lambda x: f1(x, d), "f2": lambda x: f2(x, d)}
        self.current = "none"
        self.count = 0

    def embed(self, x):
        """Reference embedding of an array, in a new last axis"""
        d, c = self.d, self.current
        k = np.arange(d)
        x = x[..., None]
        if c == "none":
            return np.concatenate([x, 1 - x], -1)
        if c == "f1":
            return f1_ref(x, d)
        if c == "f2":
            return np.where(x < 0, -x, 2 * x) + k * k
        if c == "fixed":
            return np.tanh(x * (k + 1)) - k
        w, b = self.values[c]
        return w * x + b

    def op(self, op):
        self.ctx.transitions += 1
        if op.startswith("bad"):
            try:
                self.model.register_feature_map(BAD[op](self.d))
            except Exception:
                return
            raise Violation(f"map accepted: {op}")
        if op.startswith("update"):
            m = op.split()[1]
            for i, (nm, p) in enumerate([("w", self.mods[m].w), ("b", self.mods[m].b)]):
                self.values[m][i] = -self.values[m][i] + 0.25
                put(p, self.values[m][i])
            return
        self.model.register_feature_map(
            None if op == "none" else self.mods.get(op) or self.fs[op]
        )
        self.current = op

    def ref(self, xs):
        """xs: list of embedded sequences"""
        m = self.model
        if self.ti:
            bias = np64(m.bias_mat) if m.bias_mat is not None else None
            args = np64(m.core_tensor), np64(m.init_vector.vec), np64(m.terminal_mat.mat)
            return np.stack([ref.ti_output(*args, x, bias) for x in xs])
        x = np.stack(xs)
        if self.path is not None:
            x = x[:, self.path]
        if self.adaptive:
            return adaptive.contract_chain(adaptive.active_chain(m), x, m.periodic_bc)
        return ref.mps_output_fast(x=x, **FixedMPS(m).arrays())

    def check(self, steady=False):
        # a steady check always has the same inputs, and no gradients
        self.count += 0 if steady else 1
        lens = [1, 3, 2] if self.name == "ti list" else [3, 3]
        raw = [gen([n], "x", self.count % 3, i) for i, n in enumerate(lens)]
        want_ids = set(self.own)
        if self.current in ("M1", "M2"):
            want_ids |= {id(p) for p in self.mods[self.current].parameters()}
        got_ids = [id(p) for p in self.model.parameters()]
        expect(
            set(got_ids) == want_ids and len(got_ids) == len(want_ids),
            "parameters of the model are not its own and those of the current map",
        )
        pre = [gen([n, self.d], "e", self.count % 3, i) for i, n in enumerate(lens)]
        for xs, scalar in [(raw, True), (pre, False)]:
            arg = [tens(x) for x in xs]
            if not self.list:
                arg = torch.stack(arg)
            self.ctx.eval((self.current, scalar, self.count))
            if scalar and self.current == "none" and self.d != 2:
                try:
                    self.model(arg)
                except Exception:
                    continue
                raise Violation("scalar input answered without an embedding of its dimension")
            with torch.set_grad_enabled(not steady):
                got = np64(self.model(arg))
            want = self.ref([self.embed(x) for x in xs] if scalar else xs)
            e = ref.err(got, want)
            expect(
                e <= 1e-11,
                f"{'scalar' if scalar else 'embedded'} input with map {self.current}: error {e:.3g}",
                got=got, want=want,
            )
            self.ctx.outcome(got.round(8).tobytes())


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    if case[0] == "paths":
        return run_paths(case, ctx)
    if case[0] == "wide":
        return run_wide(case[1], ctx)
    if case[0] == "bad":
        _, name, d = case
        for op in ["none", "f1", "M1"]:
            for bad in BAD:
                for end in [[], ["none"], ["M2"]]:
                    sim = Sim(name, d, ctx)
                    ctx.trace = {"history": [op, bad] + end}
                    for o in [op, bad] + end:
                        sim.op(o)
                        sim.check()
                    ctx.traces += 1
        ctx.states = len(ctx.outcomes)
        return
    _, name, d, first, depth = case
    for rest in itertools.product(OPS, repeat=depth - len(first)):
        hist = list(first) + list(rest)
        for style in ["eager", "lazy", "steady"]:
            sim = Sim(name, d, ctx)
            ctx.trace = {"history": hist, "style": style}
            if style != "lazy":
                sim.check(style == "steady")
            for op in hist:
                sim.op(op)
                if style != "lazy":
                    sim.check(style == "steady")
            if style == "lazy":
                sim.check()
            ctx.traces += 1
    ctx.states = len(ctx.outcomes)
    ctx.sample({"history": hist, "evaluations": ctx.evaluations})


def run_wide(kind, ctx):
    """Long paths into wide inputs, many scalars, large batches"""
    from torchmps import MPS

    shapes = [(n, B) for n in [*range(4, 18), 31, 32, 33, 64, 100] for B in [2]] + [(5, B) for B in [*range(3, 20), 33, 64, 65, 128, 129, 256, 257]]
    for n, B in shapes:
        kw = dict(PATH_KINDS[kind])
        if kw.get("label_site") == "n":
            kw["label_site"] = n
        ad = kw.get("adaptive_mode", False)
        paths = {
            "none": (n, None), "identity": (n, list(range(n))), "reversed": (n, list(range(n))[::-1]),
            "rotated": (n, [(k + 2) % n for k in range(n)]), "strided": (3 * n, [3 * k + 1 for k in range(n)]),
            "constant": (n + 2, [n] * n), "repeating": (n, [(k * k) % n for k in range(n)]),
        }
        for pname, (width, path) in paths.items():
            for mode, d in [("scalar", 2), ("map", 3), ("embedded", 2)]:
                model = MPS(n, 2, 2, feature_dim=d, path=path, **kw)
                if ad:
                    for k, m in enumerate(adaptive.active_modules(model)):
                        put(m.tensor, 0.6 * gen(tuple(m.tensor.shape), "wide", n, k))
                else:
                    FixedMPS(model).fill("wide", n, d, div=3.0)
                if mode == "map":
                    model.register_feature_map(lambda x: f1(x, 3))
                x = gen([B, width] + ([d] if mode == "embedded" else []), "wx", n, mode)
                xg = x if path is None else x[:, path]
                if mode == "scalar":
                    xg = np.stack([xg, 1 - xg], 2)
                elif mode == "map":
                    xg = f1_ref(xg[..., None], 3)
                got = np64(model(tens(x)))
                if ad:
                    want = adaptive.contract_chain(adaptive.active_chain(model), xg, False)
                else:
                    want = ref.mps_output_fast(x=xg, **FixedMPS(model).arrays())
                e = ref.err(got, want)
                expect(e <= 1e-8, f"length {n}, batch {B}, path {pname}, {mode} input: error {e:.3g}", got=got, want=want)
                ctx.eval((n, B, pname, mode))
                ctx.transitions += 1
                ctx.outcome(got.round(8).tobytes())
                ctx.traces += 1
    ctx.states = len(ctx.outcomes)
    ctx.sample({"kind": kind})


def run_paths(case, ctx):
    from torchmps import MPS

    _, kind, n, width = case
    kw = dict(PATH_KINDS[kind])
    if kw.get("label_site") == "n":
        kw["label_site"] = n
    ad = kw.get("adaptive_mode", False)
    for mode, d in [("scalar", 2), ("map", 3), ("embedded", 2), ("embedded", 3)]:
        def make(**more):
            m = MPS(n, 2, 2, feature_dim=d, **kw, **more)
            if ad:
                adaptive.fill_active(m, "paths", n, d)
            else:
                FixedMPS(m).fill("paths", n, d, div=2.0)
            if mode == "map":
                m.register_feature_map(lambda x: f1(x, 3))
            return m

        for path in itertools.product(range(width), repeat=n):
            for form in ["list", "tensor"]:
                ctx.trace = {"mode": mode, "path": path, "form": form}
                p = list(path) if form == "list" else torch.tensor(path)
                model, plain = make(path=p), make()
                # several calls, so that adaptive models shift in between
                for c in range(3 if ad else 1):
                    x = gen([2, width] + ([d] if mode == "embedded" else []), "px", c, mode, d)
                    t = tens(x)
                    got = np64(model(t))
                    expect(np.array_equal(np64(t), x), "input was changed")
                    xg = x[:, list(path)]
                    want = np64(plain(tens(xg)))
                    expect(
                        ref.err(got, want) <= 1e-12, "differs from the path-free model on gathered inputs",
                        got=got, want=want,
                    )
                    if mode == "scalar":
                        xg = np.stack([xg, 1 - xg], 2)
                    elif mode == "map":
                        xg = f1_ref(xg[..., None], 3)
                    if ad:
                        rf = adaptive.contract_chain(adaptive.active_chain(model), xg, False)
                        expect(torch.equal(model.bond_list, plain.bond_list), "bond_list differs")
                    else:
                        rf = ref.mps_output_fast(x=xg, **FixedMPS(model).arrays())
                    e = ref.err(got, rf)
                    expect(e <= 1e-11, f"differs from the reference by {e:.3g}", got=got, want=rf)
                    ctx.transitions += 1
                    ctx.eval((mode, d, path, form, c))
                    ctx.outcome(got.round(8).tobytes())
                ctx.traces += 1
    ctx.states = len(ctx.outcomes)
    ctx.sample({"path": path, "output": got})

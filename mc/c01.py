"""C01: output of a fixed-bond MPS is the exact chain contraction"""
import itertools

import numpy as np
import torch

from . import ref
from .kinds import fmap
from .mpsutil import FixedMPS, expect, put, same, tens

LEVEL = "exploration"
RULE = (
    "Every configuration in the bounds x every batch of all one-hot (and all "
    "integer-alphabet) inputs; for tiny shapes every assignment of one unit entry "
    "per core (which decides equality of multilinear maps), otherwise integer "
    "cores. Non-trivial: the reference output is not identically zero."
)
ASSUMPTIONS = [
    "output is multi-affine in each core, bias and input vector, so that unit and "
    "integer assignments represent the values outside the alphabet",
    "numpy matrix products",
]


def bounds(tier):
    n, k = (6, 3) if tier == "quick" else (9, 4)
    return {
        "input_dim": f"1..{n} (all label sites), selected up to 784",
        "bond_dim, feature_dim, output_dim": f"1..{k}",
        "modes": "open/periodic x bias/no bias x serial/parallel x float64/float32/.double()",
        "precision": "double, double(), float(), default changed after construction x non-representable values, input_dim 1..%d" % (4 if tier == "quick" else 6),
        "wide": "one of bond_dim 4..65, feature_dim 4..257, output_dim 4..1000, batch size 4..4097 large, input_dim 2, 5, 6",
        "values": "every site, every core and the output core times 2^e, |e| in 7, 27, 100 (bias: -7, -27); equal, symmetric, diagonal, permutation and nearly equal cores; rows that differ by 1e-9",
        "unit-entry cores": "all, input_dim <= %d, D=d=o=2" % (2 if tier == "quick" else 3),
    }


def cases(tier):
    nmax, k = (6, 3) if tier == "quick" else (9, 4)
    out = []
    for n in range(1, nmax + 1):
        for label in range(n + 1):
            for D in range(1, k + 1):
                out.append(["grid", n, label, D, k])
    lens = [8, 13, 16, 17, 31, 32, 33, 64, 100]
    if tier == "thorough":
        lens = list(range(10, 72)) + [99, 100, 127, 128, 129, 130]
    for n in lens + [257, 784]:
        out.append(["long", n])
    for n in range(1, 3 if tier == "quick" else 4):
        for label in range(n + 1):
            for periodic in [False, True]:
                for par in [False, True]:
                    if n < 3:
                        out.append(["unit", n, label, periodic, par, None])
                    else:
                        for first in range(8):
                            out.append(["unit", n, label, periodic, par, first])
    for dtype in ["float32", "double()"]:
        for n in range(1, 5):
            out.append(["dtype", n, dtype])
    for n in range(1, 5 if tier == "quick" else 7):
        for mode in PREC:
            out.append(["prec", n, mode])
    for n in range(1, 6 if tier == "quick" else 8):
        for periodic, par, bias in itertools.product([False, True], repeat=3):
            out.append(["values", n, periodic, par, bias])
    for n in [2, 5, 6]:
        for periodic in [False, True]:
            for what in ["bond", "alphabet", "outputs", "batch"]:
                out.append(["wide", n, periodic, what])
    return out


def wide(what, tier):
    """Sizes (D, d, o, batch) in which one of them is large: every small value, then selected"""
    t = tier == "thorough"
    if what == "bond":
        return [(k, 2, 2, 3) for k in list(range(4, 36)) + [63, 64, 65] + ([100, 128, 129] if t else [])]
    if what == "alphabet":
        return [(2, k, 2, 3) for k in list(range(4, 18)) + [28, 32, 33, 64, 100, 256, 257]]
    if what == "outputs":
        return [(2, 2, k, 3) for k in list(range(4, 18)) + [32, 33, 64, 65, 100, 256, 257, 1000]]
    sizes = list(range(4, 72)) + [99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 2049]
    return [(D, 2, 2, k) for D in [2, 5] for k in sizes + ([4096, 4097, 10000, 16385, 65537] if t else [4097])]


# default dtype at construction, conversion, dtype of the model
PREC = {
    "double default": ("float64", None, "float64"),
    "double()": ("float32", "double", "float64"),
    "float()": ("float64", "float", "float32"),
    "default changed later": ("float64", None, "float64"),
}


def weight(case):
    return {"unit": 1000, "grid": case[1], "long": 500, "dtype": 10, "prec": 10, "wide": 400, "values": 30}[case[0]]


def build(n, o, D, d, periodic, par, label, bias):
    from torchmps import MPS

    return MPS(
        input_dim=n, output_dim=o, bond_dim=D, feature_dim=d, periodic_bc=periodic,
        parallel_eval=par, label_site=label, use_bias=bias,
    )


def batches(n, d, tag):
    """All one-hot inputs, all inputs over small integers where few, mixed ones"""
    idx = ref.grid(range(d), n) if d**n <= 64 else None
    if idx is not None:
        yield "onehot", np.eye(d)[idx]
    else:
        yield "onehot64", np.eye(d)[ref.vals([64, n], "oh", tag, lo=0, hi=d - 1).astype(int)]
    yield "integers", ref.vals([3, n, d], "in", tag, nonzero=True)
    yield "single", ref.vals([1, n, d], "one", tag, nonzero=True)
    # batches whose rows all have zero vectors, or equal vectors, at the same sites
    if n <= 4:
        x = ref.vals([2, n, d], "in", tag, nonzero=True)
        for sites in itertools.product([0, 1], repeat=n):
            mask = np.array(sites)[None, :, None]
            if any(sites):
                yield f"zero at {sites}", x * (1 - mask)
                yield f"equal at {sites}", np.where(mask, x[:1], x)
    if idx is not None and len(idx) <= 9:
        for row in idx:
            yield f"row {row}", np.eye(d)[row][None]


def check(model, n, d, ctx, tag, tol):
    fm = FixedMPS(model)
    a = fm.arrays()
    for name, x in batches(n, d, tag):
        want = ref.mps_output_fast(x=x, **a)
        dtype = fm.output.tensor.dtype
        xt = tens(x, dtype)
        got = model(xt)
        expect(isinstance(got, torch.Tensor), "output is not a tensor")
        same(got, want, tol, f"output for {name} inputs", tag=tag)
        ctx.eval((tag, name), nontrivial=bool(np.any(want)))
        ctx.outcome(want.tobytes())
        if d == 2:
            # scalar inputs, embedded by the default map
            s = x[:, :, 0]
            want = ref.mps_output_fast(x=np.stack([s, 1 - s], 2), **a)
            same(model(tens(s, dtype)), want, tol, f"output for scalar {name} inputs", tag=tag)
            ctx.eval((tag, name, "scalar"), nontrivial=bool(np.any(want)))
    ctx.sample({"config": repr(tag), "inputs": x[0].tolist(), "output": want[0].tolist()})


def run_case(case, ctx):
    # edits between evaluations without gradients, too
    for quiet in [True, False]:
        with torch.set_grad_enabled(not quiet):
            run_mode(case, ctx)


def run_mode(case, ctx):
    kind = case[0]
    if kind not in ("dtype", "prec"):
        torch.set_default_dtype(torch.float64)
    if kind == "grid":
        _, n, label, D, k = case
        for d, o in itertools.product(range(1, k + 1), repeat=2):
            for periodic, par, bias in itertools.product([False, True], repeat=3):
                tag = [n, label, D, d, o, periodic, par, bias]
                model = build(n, o, D, d, periodic, par, label, bias)
                fm = FixedMPS(model)
                expect(fm.label == label, "output core is not at the label site", tag=tag)
                fm.fill("c01", n, label, D, d, o, nonzero=(D == 1))
                check(model, n, d, ctx, tag, 1e-12)
                if n == 1:
                    # the plain reference validates the vectorized one
                    x = ref.vals([2, n, d], "slow", nonzero=True)
                    a = fm.arrays()
                    same(ref.mps_output_fast(x=x, **a), ref.mps_output(x=x, **a), 1e-13, "reference")
    elif kind == "long":
        n = case[1]
        labels = {0, 1, 2, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, n}
        for label in sorted(labels if n < 200 else {0, n // 2, n}):
            for D, periodic, par, bias in itertools.product(
                [2, 3], [False, True], [False, True], [False, True]
            ):
                tag = [n, label, D, 2, 2, periodic, par, bias]
                model = build(n, 2, D, 2, periodic, par, label, bias)
                fm = FixedMPS(model)
                for i, p in enumerate(fm.params()):
                    # near-orthogonal noncommuting cores keep long products O(1)
                    shape = tuple(p.shape)
                    arr = ref.vals(shape, "long", tag, i, div=8.0)
                    if len(shape) == 4:
                        rot = np.roll(np.eye(D), 1, axis=0)
                        for s in range(shape[0]):
                            arr[s, :, :, s % 2] += rot if s % 3 else np.eye(D)
                        arr *= 0.6
                    put(p, arr)
                check(model, n, 2, ctx, tag, 1e-9)
    elif kind == "wide":
        _, n, periodic, what = case
        for D, d, o, B in wide(what, ctx.tier):
            for par, bias in itertools.product([False, True], repeat=2):
                for label in [0, n // 2, n]:
                    if what == "batch" and label != (n // 2 if B % 2 else n):
                        continue
                    tag = [n, label, D, d, o, B, periodic, par, bias]
                    model = build(n, o, D, d, periodic, par, label, bias)
                    fm = FixedMPS(model)
                    # random cores of this scale keep products of order one
                    fm.fill("wide", *tag, div=3.0 * np.sqrt(D * d))
                    x = ref.vals([B, n, d], "wide in", *tag, nonzero=True)
                    want = ref.mps_output_fast(x=x, **fm.arrays())
                    same(model(tens(x)), want, 1e-9, "output", tag=tag)
                    ctx.eval(tag, nontrivial=bool(np.any(want)), n=B)
                    ctx.outcome(want.tobytes())
        ctx.sample({"config": repr(tag), "output": want[0][:4].tolist()})
    elif kind == "values":
        run_values(ctx, *case[1:])
    elif kind == "unit":
        # every assignment of one unit entry per core, D = d = o = 2
        _, n, label, periodic, par, first = case
        model = build(n, 2, 2, 2, periodic, par, label, False)
        fm = FixedMPS(model)
        x = np.eye(2)[ref.grid(range(2), n)]
        xt = tens(x)
        per_core = 8
        choices = [range(per_core)] * (n + 1)
        if first is not None:
            choices[0] = [first]
        for pick in itertools.product(*choices):
            cores = np.zeros([n, 2, 2, 2])
            for s in range(n):
                cores[s].reshape(-1)[pick[s]] = 1
            oc = np.zeros([2, 2, 2])
            oc.reshape(-1)[pick[n]] = 1
            pos = 0
            for m in fm.inputs:
                put(m.tensor, cores[pos : pos + len(m.tensor)])
                pos += len(m.tensor)
            put(fm.output.tensor, oc)
            want = ref.mps_output_fast(cores, oc, label, x, periodic)
            same(model(xt), want, 0.0, "output", unit_entries=pick)
            ctx.eval(pick, nontrivial=bool(np.any(want)))
            ctx.outcome(want.tobytes())
        ctx.sample({"unit entries": list(pick), "output": want.tolist()})
    elif kind == "dtype":
        _, n, dtype = case
        for label, periodic, par, bias in itertools.product(
            range(n + 1), [False, True], [False, True], [False, True]
        ):
            tag = [n, label, dtype, periodic, par, bias]
            model = build(n, 2, 3, 2, periodic, par, label, bias)
            if dtype == "double()":
                model = model.double()
            FixedMPS(model).fill("dt", n, label)
            # integers below 2**24 are exact in single precision as well
            check(model, n, 2, ctx, tag, 1e-6 if dtype == "float32" else 1e-12)
    elif kind == "prec":
        # values that are no single-precision numbers, in every way to get a model
        # of a precision: nothing is rounded to another precision on the way
        _, n, mode = case
        default, convert, dtype = PREC[mode]
        tol = 1e-12 if dtype == "float64" else 2e-5
        for label, D, d, periodic, par, bias in itertools.product(
            range(n + 1), [2, 3], [2, 3], [False, True], [False, True], [False, True]
        ):
            tag = [n, label, D, d, mode, periodic, par, bias]
            torch.set_default_dtype(getattr(torch, default))
            model = build(n, 2, D, d, periodic, par, label, bias)
            if convert:
                model = getattr(model, convert)()
            if mode == "default changed later":
                torch.set_default_dtype(torch.float32)
            fm = FixedMPS(model)
            fm.fill("prec", n, label, div=7.0)
            a = fm.arrays()
            dt = getattr(torch, dtype)
            expect(all(p.dtype == dt for p in model.parameters()), "dtype of the parameters", tag=tag)
            x = ref.vals([3, n, d], "prec", n, nonzero=True, div=3.0)
            if d == 2:
                s = x[:, :, 0]
                forms = {"embedded": x, "scalar": s}
            else:
                model.register_feature_map(fmap)
                forms = {"embedded": x, "mapped": x[:, :, 0]}
            for form, raw in forms.items():
                t = tens(raw, dt)
                emb = v = t.double().numpy()
                if form == "scalar":
                    emb = np.stack([v, 1 - v], 2)
                elif form == "mapped":
                    emb = np.stack([np.ones_like(v), v, v * v], 2)
                got = model(t)
                expect(got.dtype == dt, "dtype of the output", tag=tag)
                want = ref.mps_output_fast(x=emb, **a)
                same(got, want, tol, f"output for {form} inputs", tag=tag)
                ctx.eval((tag, form), nontrivial=bool(np.any(want)))
                ctx.outcome(want.tobytes())
        ctx.sample({"config": repr(tag), "output": want[0].tolist()})


def run_values(ctx, n, periodic, par, bias):
    """Values of special size or structure, compared relative to the size of the result"""
    D, d, o, B = 3, 2, 2, 3
    for label in range(n + 1):
        model = build(n, o, D, d, periodic, par, label, bias)
        fm = FixedMPS(model)
        shapes = [tuple(p.shape) for p in fm.params()]
        generic = [ref.gen(s, "values", n, label, k) for k, s in enumerate(shapes)]
        x0 = ref.gen([B, n, d], "values in", n, label)

        def compare(what, arrs, x, tol=1e-11):
            for p, a in zip(fm.params(), arrs):
                put(p, a)
            ctx.trace = {"label": label, "what": what}
            a = fm.arrays()
            want = ref.mps_output_fast(x=x, **a)
            # size of the terms of which the output is the sum
            b = dict(a, cores=np.abs(a["cores"]), out_core=np.abs(a["out_core"]), bias=None if a["bias"] is None else np.abs(a["bias"]))
            size = ref.mps_output_fast(x=np.abs(x), **b)
            got = model(tens(x)).detach().numpy()
            expect(got.shape == want.shape, "shape of the output")
            bad = ~(np.abs(got - want) <= tol * size)
            expect(not bad.any(), f"{what}: output differs", got=got, want=want, label=label)
            ctx.eval((label, what), nontrivial=bool(np.any(want)))
            ctx.outcome(want.tobytes())

        for e in [-7, -27] if bias else [7, 27, 100, -7, -27, -100]:
            for at in [*range(n), "all"]:
                x = x0.copy()
                x[:, slice(None) if at == "all" else at] *= 2.0**e
                compare(f"inputs {at} times 2^{e}", generic, x)
                x = x0.copy()
                x[1, slice(None) if at == "all" else at] *= 2.0**e
                compare(f"row 1, inputs {at} times 2^{e}", generic, x)
            cores = [k for k, s in enumerate(shapes) if len(s) == 4]
            flat = [(k, i) for k in cores for i in range(shapes[k][0])]
            for k, i in flat + [("out", 0), ("all", 0)]:
                arrs = [a.copy() for a in generic]
                if k == "out":
                    arrs[len(fm.inputs)] *= 2.0**e
                elif k == "all":
                    for j in cores:
                        arrs[j] *= 2.0**e
                else:
                    arrs[k][i] *= 2.0**e
                compare(f"core {k}, {i} times 2^{e}", arrs, x0)
        # structure
        one = ref.gen([D, D, d], "equal", n)
        perm = np.stack([np.roll(np.eye(D), 1, 0), np.roll(np.eye(D), -1, 0)], -1)
        kinds = {
            "equal": one, "symmetric": one + one.transpose(1, 0, 2), "diagonal": np.eye(D)[..., None] * one,
            "permutation": perm, "identity": np.repeat(np.eye(D)[..., None], d, -1), "upper": np.triu(one.T).T if D != d else one,
            "rank one": np.ones([D, D, d]), "antisymmetric": one - one.transpose(1, 0, 2), "minus": -np.abs(one),
        }
        for name, core in kinds.items():
            arrs = [np.broadcast_to(core, s).copy() if len(s) == 4 and s[1:] == core.shape else a for s, a in zip(shapes, generic)]
            compare(name, arrs, x0)
            near = [a + 1e-9 * ref.gen(a.shape, "near", name, k) for k, a in enumerate(arrs)]
            compare(f"nearly {name}", near, x0, 1e-12)
        # rows and sites that are equal, or nearly so
        for name, x in [
            ("equal rows", np.repeat(x0[:1], B, 0)), ("equal sites", np.repeat(x0[:, :1], n, 1)),
            ("all equal", np.broadcast_to(x0[:1, :1], x0.shape).copy()), ("ones", np.ones_like(x0)),
        ]:
            compare(name, generic, x)
            compare(f"nearly {name}", generic, x + 1e-9 * ref.gen(x.shape, "near in", name), 1e-12)
    ctx.sample({"n": n, "periodic": periodic, "bias": bias})

"""C12: TI_MPS output is the sequence recurrence, independent of padding"""
import itertools

import numpy as np
import torch

from . import ref
from .kinds import fmap
from .mpsutil import expect, np64, put, tens
from .ref import gen, grid, vals

LEVEL = "exploration"
RULE = (
    "seq: every configuration, small integer parameters, every sequence of unit and zero "
    "vectors up to a length, in one batch, alone, and in batches with common zeros (the output is affine in each element, so these determine it), "
    "exact comparison. lists: every tuple of lengths up to a batch size, for embedded, scalar "
    "and mapped sequences, each compared with the sequence alone and with the reference; "
    "unequal lengths must raise ValueError unless the bias is the fixed identity. long: "
    "lengths up to 200. Non-trivial: all but the zero outputs."
)
ASSUMPTIONS = ["plain loop reference ref.ti_output; integer values keep float64 exact"]
BIAS = ["none", "fixed", "trainable"]


def bounds(tier):
    t = tier == "thorough"
    return {
        "configurations": "bond 1..3, feature 1..3, output 1..3, bias none/fixed/trainable, ends fixed/trainable, serial/parallel",
        "sequences": f"all over unit vectors and zero, length 1..{6 if t else 5} (feature 3: 1..{5 if t else 4})",
        "length tuples": f"all of up to 3 sequences with lengths 1..6, of 4 with lengths 1..{6 if t else 4}, "
        + f"of 5 with lengths 1..{4 if t else 3}",
        "precision": "double(), float(), default changed after construction; embedded, scalar, mapped; tensors and lists of lengths 1..4",
        "wide": "one of bond_dim 4..65, feature_dim 4..257, output_dim 4..257, batch size (tensor and list) 4..1025 large, lengths 1, 2, 5",
        "values": "every position, the core and the ends times 2^e, |e| in 7, 27, 100 (bias: -7, -27); special and nearly equal cores, sequences and elements; one tensor object several times in a list",
        "long": "5..40, 63..65, 100, 200",
    }


def configs():
    for D, d, o, bias, fixed, par in itertools.product(
        [1, 2, 3], [1, 2, 3], [1, 2, 3], BIAS, [False, True], [False, True]
    ):
        if fixed and o > D:
            continue
        yield [D, d, o, bias, fixed, par]


def cases(tier):
    out = []
    for c in configs():
        out.append(["seq"] + c)
    for D, o in [(1, 1), (2, 2), (3, 2), (2, 3)]:
        for bias, fixed, par in itertools.product(BIAS, [False, True], [False, True]):
            if fixed and o > D:
                continue
            for mode in ["scalar", "vec2", "vec3", "map3"]:
                out.append(["lists", D, o, bias, fixed, par, mode])
    for bias, par in itertools.product(BIAS, [False, True]):
        out.append(["long", bias, par])
    for fixed, bias, par in itertools.product([False, True], BIAS, [False, True]):
        for mode in ["double()", "float()", "default changed later"]:
            out.append(["prec", fixed, bias, par, mode])
        out.append(["values", fixed, bias, par])
        for what in ["bond", "feature", "output", "batch"]:
            out.append(["wide", fixed, bias, par, what])
    return out


def weight(case):
    return {"seq": 1, "lists": 4, "long": 2, "prec": 1, "wide": 6, "values": 2}[case[0]]


def make(D, d, o, bias, fixed, par):
    from torchmps import TI_MPS

    return TI_MPS(
        o, D, feature_dim=d, parallel_eval=par, fixed_ends=fixed, use_bias=bias != "none",
        fixed_bias=bias != "trainable",
    )


def fill(model, *tag, exact=True, scale=1.0):
    for name, p in sorted(model.named_parameters()):
        shape = tuple(p.shape)
        put(p, vals(shape, name, *tag, lo=-2, hi=2) if exact else scale * gen(shape, name, *tag))


class Ref:
    def __init__(self, model, D, o, bias, fixed):
        self.core = np64(model.core_tensor)
        # what is fixed has its documented value: ones, the identity, the identity
        params = dict(model.named_parameters())
        vecs = [np64(p) for p in params.values() if tuple(p.shape) == (D,)]
        self.vec = np.ones(D) if fixed else vecs[0]
        expect(len(vecs) == (0 if fixed else 1), "parameters of a model with the given ends")
        self.mat = np.eye(D, o) if fixed else np64(model.terminal_mat.mat)
        self.bias = {"none": None, "fixed": np.eye(D), "trainable": None}[bias]
        if bias == "trainable":
            self.bias = np64(params["bias_mat"])
        n = 1 + (0 if fixed else 2) + (bias == "trainable")
        expect(len(params) == n, f"{len(params)} parameters, expected {n}")

    def __call__(self, x):
        return ref.ti_output(self.core, self.vec, self.mat, x, self.bias)


def run_case(case, ctx):
    # edits between evaluations without gradients, too
    for quiet in [True, False]:
        torch.set_default_dtype(torch.float64)
        with torch.set_grad_enabled(not quiet):
            globals()["run_" + case[0]](ctx, *case[1:])


def run_seq(ctx, D, d, o, bias, fixed, par):
    model = make(D, d, o, bias, fixed, par)
    fill(model, "seq", D, d, o)
    rf = Ref(model, D, o, bias, fixed)
    elems = np.concatenate([np.eye(d), np.zeros([1, d])])
    top = (6 if d < 3 else 5) if ctx.tier == "thorough" else (5 if d < 3 else 4)
    for L in range(1, top + 1):
        x = elems[grid(range(d + 1), L)]
        want = np.stack([rf(s) for s in x])
        got = np64(model(tens(x)))
        ctx.trace = {"length": L}
        expect(np.array_equal(got, want), "output differs from the recurrence", got=got, want=want)
        # batches that share the positions of their zero vectors, and single sequences
        zero = (x == 0).all(2) @ (2 ** np.arange(L))
        for z in range(2**L):
            got = np64(model(tens(x[zero == z])))
            expect(np.array_equal(got, want[zero == z]), "batch with common zeros", got=got, want=want[zero == z])
        if L <= top - 2:
            for s, w in zip(x, want):
                got = np64(model(tens(s[None])))
                expect(np.array_equal(got[0], w), "single sequence", got=got, want=w)
                got = np64(model([tens(s)]))
                expect(np.array_equal(got[0], w), "single sequence in a list", got=got, want=w)
        alone = np64(model([tens(x[0])]))
        expect(np.array_equal(alone, want[:1]), "list of one sequence", got=alone, want=want[:1])
        # the same sequences as a list, and non-unit elements
        got = np64(model([tens(s) for s in x[-20:]]))
        expect(np.array_equal(got, want[-20:]), "list of equally long sequences", got=got, want=want[-20:])
        y = vals([3, L, d], "y", L, d, lo=-3, hi=3)
        got, want2 = np64(model(tens(y))), np.stack([rf(s) for s in y])
        expect(np.array_equal(got, want2), "integer vectors", got=got, want=want2)
        if d == 2:
            got = np64(model(tens(y[:, :, 0])))
            want2 = np.stack([rf(np.stack([s, 1 - s], 1)) for s in y[:, :, 0]])
            expect(np.array_equal(got, want2), "scalar input", got=got, want=want2)
        for b in range(len(x)):
            ctx.eval((L, b), nontrivial=bool(want[b].any()))
        ctx.outcome(want.tobytes())
    ctx.sample({"length": L, "last": want[-1]})


def run_lists(ctx, D, o, bias, fixed, par, mode):
    d = 3 if mode.endswith("3") else 2
    model = make(D, d, o, bias, fixed, par)
    fill(model, "lists", D, d, o, exact=False)
    if mode == "map3":
        model.register_feature_map(fmap)
    rf = Ref(model, D, o, bias, fixed)
    t = ctx.tier == "thorough"
    tuples = []
    for B in [1, 2, 3]:
        tuples += list(itertools.product(range(1, 7), repeat=B))
    tuples += list(itertools.product(range(1, 7 if t else 5), repeat=4))
    tuples += list(itertools.product(range(1, 5 if t else 4), repeat=5))

    def raw(k, L):
        return gen([L] + ([] if mode in ("scalar", "map3") else [d]), "list", mode, k, L)

    def emb(x):
        if mode == "scalar":
            return np.stack([x, 1 - x], 1)
        if mode == "map3":
            return np.stack([np.ones_like(x), x, x * x], 1)
        return x

    alone = {}
    for k in range(5):
        for L in range(1, 7):
            x = raw(k, L)
            alone[k, L] = np64(model([tens(x)]))[0]
            e = ref.err(alone[k, L], rf(emb(x)))
            expect(e <= 1e-11, f"single sequence of length {L}: error {e:.3g}")
    for lens in tuples:
        seqs = [tens(raw(k, L)) for k, L in enumerate(lens)]
        ctx.trace = {"lengths": lens}
        ctx.transitions += 1
        if bias != "fixed" and len(set(lens)) > 1:
            try:
                model(seqs)
            except ValueError:
                ctx.eval(lens)
                ctx.outcome("ValueError")
                continue
            expect(False, "unequal lengths accepted by a model that cannot pad")
        got = np64(model(seqs))
        want = np.stack([alone[k, L] for k, L in enumerate(lens)])
        e = ref.err(got, want)
        expect(e <= 1e-11, f"error {e:.3g} against the sequences alone", got=got, want=want)
        for k, L in enumerate(lens):
            expect(np.array_equal(np64(seqs[k]), raw(k, L)), "sequence was modified")
        ctx.eval(lens)
        ctx.outcome(want.round(8).tobytes())
    ctx.sample({"lengths": lens, "output": want if bias == "fixed" else "ValueError"})


def run_long(ctx, bias, par):
    model = make(3, 2, 2, bias, False, par)
    fill(model, "long", exact=False, scale=0.4)
    rf = Ref(model, 3, 2, bias, False)
    lens = list(range(1, 41)) + [63, 64, 65, 100, 200]
    seqs = [gen([L, 2], "long", L) * 0.5 for L in lens]
    want = np.stack([rf(s) for s in seqs])
    for L, s, w in zip(lens, seqs, want):
        ctx.trace = {"length": L}
        e = ref.err(np64(model(tens(s[None])))[0], w)
        expect(e <= 1e-9, f"error {e:.3g}")
        ctx.eval(L)
    if bias == "fixed":
        for order in [range(len(lens)), range(len(lens) - 1, -1, -1)]:
            got = np64(model([tens(seqs[k]) for k in order]))
            for row, k in zip(got, order):
                e = ref.err(row, want[k])
                expect(e <= 1e-9, f"length {lens[k]} in a list of all lengths: error {e:.3g}")
            ctx.eval(("all", order[0]))
    ctx.outcome(want.tobytes())


def run_wide(ctx, fixed, bias, par, what):
    """One of bond dimension, feature dimension, outputs and batch size large"""
    sizes = {
        "bond": [(D, 2, 2, 3) for D in [*range(4, 34), 48, 63, 64, 65]],
        "feature": [(2, d, 2, 3) for d in [*range(4, 34), 63, 64, 65, 100, 256, 257]],
        "output": [(D, 2, o, 3) for o in [*range(4, 34), 63, 64, 65, 100, 256, 257] for D in ([o, o + 1] if fixed else [2]) if D < 70],
        "batch": [(D, 2, 2, B) for D in [2, 3] for B in [*range(4, 41), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025]],
    }[what]
    for D, d, o, B in sizes:
        model = make(D, d, o, bias, fixed, par)
        fill(model, "wide", D, d, o, exact=False, scale=1 / np.sqrt(D * d))
        rf = Ref(model, D, o, bias, fixed)
        for L in [1, 2, 5] if B < 100 else [5]:
            x = gen([B, L, d], "wide in", D, d, o, B)
            k = min(B, 40)
            rows = sorted({*range(k // 2), *range(B - k // 2, B), B // 2})
            want = np.stack([rf(x[b]) for b in rows])
            ctx.trace = {"bond": D, "feature": d, "output": o, "batch": B, "length": L}
            for kind, arg in [("tensor", tens(x)), ("list", [tens(s) for s in x])]:
                got = np64(model(arg))
                expect(got.shape == (B, o), f"output of shape {got.shape}")
                e = ref.err(got[rows], want)
                expect(e <= 1e-9, f"{kind}: error {e:.3g}", got=got[rows], want=want)
                ctx.eval((D, d, o, B, L, kind), nontrivial=bool(want.any()))
            if bias == "fixed" and L == 5:
                # unequal lengths 1..5
                seqs = [x[b][: 1 + (3 * b) % 5] for b in range(B)]
                got = np64(model([tens(s) for s in seqs]))[rows]
                want = np.stack([rf(seqs[b]) for b in rows])
                e = ref.err(got, want)
                expect(e <= 1e-9, f"unequal lengths: error {e:.3g}", got=got, want=want)
            ctx.outcome(want.round(8).tobytes())


def run_values(ctx, fixed, bias, par):
    """Values of special size or structure, compared relative to the size of the terms"""
    D, d, o = 3, 2, 2
    model = make(D, d, o, bias, fixed, par)
    params = sorted(model.named_parameters())
    generic = {name: gen(tuple(p.shape), "values", name) for name, p in params}

    def compare(what, arrs, seqs, tol=1e-11, forms=("tensor", "list")):
        for name, p in params:
            put(p, arrs[name])
        rf = Ref(model, D, o, bias, fixed)
        want = np.stack([rf(x) for x in seqs])
        big = Ref(model, D, o, bias, fixed)
        big.core, big.vec, big.mat = np.abs(big.core), np.abs(big.vec), np.abs(big.mat)
        big.bias = None if big.bias is None else np.abs(big.bias)
        size = np.stack([big(np.abs(x)) for x in seqs])
        for form in forms:
            ctx.trace = {"what": what, "form": form}
            arg = [tens(x) for x in seqs]
            if form == "same":
                arg = [arg[0]] * len(seqs)
            got = np64(model(torch.stack(arg) if form == "tensor" else arg))
            expect(got.shape == want.shape, "shape of the output")
            bad = ~(np.abs(got - want) <= tol * size)
            expect(not bad.any(), f"{what}: output differs", got=got, want=want)
            ctx.eval((what, form), nontrivial=bool(want.any()))
        ctx.outcome(want.tobytes())

    for L in [1, 2, 3, 4]:
        x0 = gen([3, L, d], "values in", L)
        for e in [7, 27, 100, -7, -27, -100] if bias == "none" else [-7, -27]:
            for at in [*range(L), slice(None)]:
                x = x0.copy()
                x[:, at] *= 2.0**e
                compare(f"length {L}, elements {at} times 2^{e}", generic, x)
                x = x0.copy()
                x[1, at] *= 2.0**e
                compare(f"length {L}, sequence 1, elements {at} times 2^{e}", generic, x)
            if L in (1, 3):
                for name, _ in params:
                    compare(f"{name} times 2^{e}", {**generic, name: generic[name] * 2.0**e}, x0)
        core_name = [name for name, p in params if p.ndim == 3][0]
        one = generic[core_name]
        for name, core in {
            "symmetric": one + one.transpose(1, 0, 2), "diagonal": np.eye(D)[..., None] * one, "zero": 0 * one,
            "permutation": np.stack([np.roll(np.eye(D), 1, 0), np.roll(np.eye(D), -1, 0)], -1),
            "identity": np.repeat(np.eye(D)[..., None], d, -1), "minus": -np.abs(one), "rank one": np.ones([D, D, d]),
        }.items():
            arrs = {**generic, core_name: core}
            compare(name, arrs, x0)
            near = {k: a + 1e-9 * gen(a.shape, "near", name, k) for k, a in arrs.items()}
            compare(f"nearly {name}", near, x0, 1e-12)
        for name, x in [
            ("equal sequences", np.repeat(x0[:1], 3, 0)), ("equal elements", np.repeat(x0[:, :1], L, 1)), ("ones", np.ones_like(x0)),
            ("last element zero", np.concatenate([x0[:, :-1], 0 * x0[:, -1:]], 1)), ("first element zero", np.concatenate([0 * x0[:, :1], x0[:, 1:]], 1)),
        ]:
            compare(name, generic, x, forms=["tensor", "list"] + ["same"] * (name == "equal sequences"))
            compare(f"nearly {name}", generic, x + 1e-9 * gen(x.shape, "near in", name), 1e-12)
        if bias == "fixed":
            # other lengths beside them
            seqs = [x0[0], x0[1][:1], 1e-9 * x0[2], np.concatenate([x0[1], x0[0], x0[2]]), 1e-9 * x0[0][:1], x0[0] + 1e-9, x0[0]]
            compare("unequal lengths", generic, seqs, forms=["list"])
            compare("unequal lengths, reversed", generic, seqs[::-1], forms=["list"])


def run_prec(ctx, fixed, bias, par, mode):
    """Nothing is rounded to another precision than that of the model"""
    for d, form in [(2, "vec"), (3, "vec"), (2, "scalar"), (3, "map")]:
        torch.set_default_dtype(torch.float32 if mode == "double()" else torch.float64)
        model = make(3, d, 2, bias, fixed, par)
        if mode == "double()":
            model = model.double()
        elif mode == "float()":
            model = model.float()
        else:
            torch.set_default_dtype(torch.float32)
        dt = torch.float32 if mode == "float()" else torch.float64
        tol = 1e-12 if dt == torch.float64 else 2e-5
        expect(all(p.dtype == dt for p in model.parameters()), "dtype of the parameters")
        for name, p in sorted(model.named_parameters()):
            put(p, vals(tuple(p.shape), name, "prec", div=7.0))
        if form == "map":
            model.register_feature_map(fmap)
        rf = Ref(model, 3, 2, bias, fixed)

        def emb(t):
            x = t.double().numpy()
            if form == "scalar":
                return np.stack([x, 1 - x], 1)
            if form == "map":
                return np.stack([np.ones_like(x), x, x * x], 1)
            return x

        seqs = [
            tens(vals([L] + ([d] if form == "vec" else []), "x", L, k, div=3.0), dt)
            for L in range(1, 5) for k in range(2)
        ]
        want = np.stack([rf(emb(s)) for s in seqs])
        batches = [("tensor", [k]) for k in range(8)] + [("tensor", [k, k + 1]) for k in range(0, 8, 2)]
        batches += [("list", b) for _, b in batches]
        if bias == "fixed":
            batches += [("list", list(range(8))), ("list", list(range(7, -1, -1)))]
        for kind, b in batches:
            arg = [seqs[k] for k in b]
            ctx.trace = {"form": form, "kind": kind, "sequences": b}
            got = model(torch.stack(arg) if kind == "tensor" else arg)
            expect(got.dtype == dt, f"output of dtype {got.dtype} for a model of {dt}")
            e = ref.err(np64(got), want[b])
            expect(e <= tol, f"error {e:.3g} > {tol}", got=got, want=want[b])
            ctx.eval((form, kind, b), nontrivial=bool(want[b].any()))
            ctx.transitions += 1
        ctx.outcome(want.round(8).tobytes())

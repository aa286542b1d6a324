"""C16: broadcasting over batch axes"""
import itertools

import numpy as np
import torch

from . import ref
from .core import Violation
from .mpsutil import expect, fresh

LEVEL = "exploration"
RULE = (
    "Every tuple of shapes in the bounds with every split into batch and trailing "
    "axes, accepted or not. Non-trivial: at least two tensors whose batch shapes "
    "differ. Oracle: numpy.broadcast_shapes / numpy.broadcast_to on batch axes."
)
ASSUMPTIONS = ["numpy's broadcasting rules are PyTorch's (documented)"]


def shapes(sizes, ndim):
    return [s for k in range(ndim + 1) for s in itertools.product(sizes, repeat=k)]


def space(tier):
    big = tier == "thorough"
    return {
        "pairs": shapes([0, 1, 2, 3], 3),
        "triples": shapes([0, 1, 2, 3], 2) if big else shapes([0, 1, 2], 2) + [(3,), (2, 1, 1), (1, 2, 1)],
        "fours": shapes([1, 2], 2) if not big else shapes([0, 1, 2], 2),
        "shape_triples": shapes([0, 1, 2, 3], 3) if big else shapes([0, 1, 2], 3) + [(3,), (3, 1)],
    }


KINDS = ["float32", "float16", "int64", "uint8", "bool", "complex64", "complex128", "leaf", "non-leaf", "strided", "expanded", "mixed"]
WIDE = [*range(4, 20), 31, 32, 33, 64, 65, 100, 128, 255, 256, 257, 1000, 1025]


def bounds(tier):
    sp = space(tier)
    return {
        "pairs": f"all pairs of {len(sp['pairs'])} shapes (<= 3 axes of size 0..3), all splits",
        "triples": f"all triples of {len(sp['triples'])} shapes, all splits up to 2 trailing axes",
        "quadruples": f"all quadruples of {len(sp['fours'])} batch shapes",
        "wide": "sizes up to 1025 beside axes of size 1, 2; up to 9 axes; up to 12 tensors",
        "kinds": f"{KINDS}: all pairs of shapes of <= 2 axes of size 1, 2, 3 with all splits",
        "shape_broadcast": f"all tuples of up to 3 of {len(sp['shape_triples'])} shapes",
    }


def cases(tier):
    sp = space(tier)
    out = [["single"]] + [["kinds", k] for k in KINDS] + [["wide", k] for k in WIDE]
    out += [["pair", list(s), tier] for s in sp["pairs"]]
    out += [["triple", list(s), tier] for s in sp["triples"]]
    out += [["four", list(s), tier] for s in sp["fours"]]
    out += [["shape", list(s), tier] for s in sp["shape_triples"]]
    out += [["bundle", list(s), tier] for s in sp["pairs"]]
    return out


def np_shape(bs):
    try:
        return np.broadcast_shapes(*bs)
    except ValueError:
        return None


_tensors = {}


def tensor(shape, k):
    key = (shape, k)
    if key not in _tensors:
        n = int(np.prod(shape))
        _tensors[key] = (torch.arange(n).double().view(shape) + 100 * k)
    return _tensors[key]


def check_broadcast(shps, nnbs, ctx, how):
    from torchmps.utils2 import batch_broadcast
    batch_broadcast = fresh(batch_broadcast)

    tens = [tensor(s, k) for k, s in enumerate(shps)]
    orig = [t.clone() for t in tens]
    bs = [s[: len(s) - m] for s, m in zip(shps, nnbs)]
    want = np_shape(bs)
    arg = how(tens)
    ctx.eval((shps, nnbs), nontrivial=len(set(bs)) > 1)
    ctx.outcome(want)
    info = dict(shapes=shps, num_nonbatch=nnbs)
    try:
        out = batch_broadcast(arg, how(list(nnbs)))
    except ValueError:
        expect(want is None, "rejected broadcastable batch shapes", **info)
        return
    expect(want is not None, "accepted batch shapes that do not broadcast", **info)
    expect(len(out) == len(tens), "wrong number of outputs", **info)
    for t, o, s, m in zip(orig, out, shps, nnbs):
        full = tuple(want) + s[len(s) - m :]
        expect(tuple(o.shape) == full, f"output shape {tuple(o.shape)}, want {full}", **info)
        pad = t.numpy().reshape((1,) * (len(full) - t.ndim) + s)
        expect(np.array_equal(o.numpy(), np.broadcast_to(pad, full)), "values changed", **info)
    for t, o in zip(tens, orig):
        expect(t.shape == o.shape and torch.equal(t, o), "input modified", **info)


def splits(shps, most=3):
    return itertools.product(*[range(min(len(s), most) + 1) for s in shps])


def run_case(case, ctx):
    from torchmps.utils2 import batch_broadcast, batch_to, bundle_tensors, shape_broadcast
    batch_broadcast, batch_to, bundle_tensors = fresh(batch_broadcast), fresh(batch_to), fresh(bundle_tensors)

    if case[0] == "single":
        for kind in (list, tuple):
            out = batch_broadcast(kind([]), kind([]))
            expect(len(out) == 0, "empty collection")
            for s in shapes([0, 1, 2], 2):
                t = tensor(s, 0)
                for m in range(len(s) + 1):
                    out = batch_broadcast(kind([t]), kind([m]))
                    expect(len(out) == 1 and torch.equal(out[0], t), "single tensor changed", shape=s)
                    ctx.eval((s, m), nontrivial=False)
        ctx.sample("single tensors are returned unchanged")
        return
    if case[0] == "wide":
        k = case[1]
        # one long axis among short ones, in two and three tensors
        some = [(), (1,), (k,), (2, k), (k, 2), (k, 1), (1, k), (2, 1), (k + 1,), (k, k), (2, 1, k)]
        some = [s for s in some if np.prod(s) <= max(400, 3 * k)]
        for a, b in itertools.product(some, repeat=2):
            for nnbs in splits([a, b]):
                check_broadcast((a, b), nnbs, ctx, list)
            for c in [(), (1,), (k,), (2, 1)]:
                check_broadcast((a, b, c), (0, 0, 0), ctx, tuple)
                want = np_shape([a, b, c])
                try:
                    got = shape_broadcast([a, b, c])
                except ValueError:
                    got = None
                expect(got == want or (got is not None and tuple(got) == want), "shape_broadcast result", shapes=[a, b, c], got=got)
                ctx.eval(("shape", a, b, c))
        # many tensors, many axes
        if k <= 12:
            for big in range(k):
                shps = tuple((3, 2) if j == big else [(), (1,), (1, 1), (3, 1), (2,)][j % 5] for j in range(k))
                check_broadcast(shps, (0,) * k, ctx, list)
                check_broadcast(tuple(s + (5,) * (j % 3) for j, s in enumerate(shps)), tuple(j % 3 for j in range(k)), ctx, tuple)
                if k <= 9:
                    axes = tuple(3 if j == big else 1 for j in range(k))
                    other = tuple(1 if j == big else 2 for j in range(k))
                    for m in range(k + 1):
                        check_broadcast((axes, other), (m, m), ctx, list)
            for dim in range(-2, 2):
                out = bundle_tensors([tensor((3,), j) for j in range(k)], dim)
                expect(np.array_equal(out.numpy(), np.stack([tensor((3,), j).numpy() for j in range(k)], dim)), "bundle of many tensors", num=k)
        ctx.sample({"size": k})
        return
    if case[0] == "kinds":
        run_kinds(case[1], ctx)
        return
    kind, first, tier = case
    first = tuple(first)
    sp = space(tier)
    if kind == "pair":
        for other in sp["pairs"]:
            for nnbs in splits([first, other]):
                check_broadcast((first, other), nnbs, ctx, list if sum(nnbs) % 2 else tuple)
        # batch_to: expand the batch axes to exactly a given batch shape
        for batch in sp["pairs"]:
            for m in range(len(first) + 1):
                t = tensor(first, 0)
                b = first[: len(first) - m]
                want = np_shape([b, batch])
                ctx.eval(("to", batch, m), nontrivial=b != batch)
                try:
                    out = batch_to(t, batch, m)
                except ValueError:
                    expect(want is None, "batch_to rejected", shape=first, batch=batch, m=m)
                    continue
                expect(want is not None, "batch_to accepted", shape=first, batch=batch, m=m)
                full = tuple(want) + first[len(first) - m :]
                pad = t.numpy().reshape((1,) * (len(full) - t.ndim) + first)
                expect(
                    tuple(out.shape) == full and np.array_equal(out.numpy(), np.broadcast_to(pad, full)),
                    "batch_to result", shape=first, batch=batch, m=m,
                )
        ctx.sample({"shapes": [first, other], "nonbatch": nnbs})
    elif kind == "triple":
        most = 1 if tier == "quick" else 2
        for b, c in itertools.product(sp["triples"], repeat=2):
            for nnbs in splits([first, b, c], most):
                check_broadcast((first, b, c), nnbs, ctx, list if sum(nnbs) % 2 else tuple)
        ctx.sample({"shapes": [first, b, c], "nonbatch": nnbs})
    elif kind == "four":
        for rest in itertools.product(sp["fours"], repeat=3):
            shps = (first,) + rest
            check_broadcast(shps, (0,) * 4, ctx, list)
            # the same batch shapes, in front of trailing axes of different number
            tail = [(), (2,), (3, 2), (1,)]
            check_broadcast(
                tuple(s + t for s, t in zip(shps, tail)), tuple(len(t) for t in tail), ctx, tuple
            )
        ctx.sample({"shapes": shps})
    elif kind == "shape":
        sp3 = sp["shape_triples"]
        for shps in itertools.chain(
            [(first,)], itertools.product([first], sp3), itertools.product([first], sp3, sp3)
        ):
            want = np_shape(shps)
            ctx.eval(shps, nontrivial=len(set(shps)) > 1)
            ctx.outcome(want)
            orig = list(shps)
            arg = list(shps) if len(first) % 2 else shps
            try:
                out = shape_broadcast(arg)
            except ValueError:
                expect(want is None, "shape_broadcast rejected", shapes=shps)
                continue
            expect(want is not None, "shape_broadcast accepted", shapes=shps, got=out)
            expect(tuple(out) == tuple(want), "shape_broadcast result", shapes=shps, got=out, want=want)
            expect(list(arg) == orig, "shape_broadcast modified its input")
        ctx.sample({"shapes": shps, "result": want})
    elif kind == "bundle":
        for num in range(0, 5):
            for dim in range(-len(first) - 1, len(first) + 1):
                tens = [tensor(first, k) for k in range(num)]
                for coll in (list(tens), tuple(tens)):
                    out = bundle_tensors(coll, dim)
                    ctx.eval((num, dim, type(coll).__name__), nontrivial=num > 1)
                    if num == 0:
                        expect(out is coll or (type(out) == type(coll) and len(out) == 0), "empty bundle")
                        continue
                    want = np.stack([t.numpy() for t in tens], axis=dim)
                    expect(
                        isinstance(out, torch.Tensor) and tuple(out.shape) == want.shape
                        and np.array_equal(out.numpy(), want),
                        "bundle_tensors does not stack along the axis", shape=first, num=num, dim=dim,
                    )
                    if dim == 0 and num > 1:
                        expect(torch.equal(bundle_tensors(coll), out), "default axis")
        t = tensor(first, 0)
        out = bundle_tensors(t, 0)
        expect(torch.equal(out, t) and out.shape == t.shape, "tensor is returned unchanged")
        for other in sp["pairs"]:
            if other == first:
                continue
            for coll in ([t, tensor(other, 1)], [t, t, tensor(other, 1)], [t, tensor(other, 1), t]):
                out = bundle_tensors(coll, 0)
                ctx.eval((other, len(coll)))
                expect(
                    not isinstance(out, torch.Tensor) and len(out) == len(coll)
                    and all(a is b or torch.equal(a, b) for a, b in zip(out, coll)),
                    "collection of different shapes is not returned unchanged", shapes=[first, other],
                )
        ctx.sample({"shape": first, "bundled": num})


def make_kind(shape, k, kind):
    t = tensor(shape, k).clone()
    if kind == "mixed":
        kind = ["float64", "int64", "complex128", "leaf"][(len(shape) + k) % 4]
    if kind == "leaf":
        return t.requires_grad_()
    if kind == "non-leaf":
        return t.requires_grad_() * 2.0
    if kind == "strided":
        return t.t().contiguous().t() if len(shape) == 2 else torch.stack([t, t + 1], -1)[..., 0]
    if kind == "expanded":
        return t.reshape((1,) * len(shape) + (-1,))[..., 0].expand(shape) if t.numel() else t
    if kind.startswith("complex"):
        t = t * (1 + 2j)
    return t.to(getattr(torch, kind))


def run_kinds(kind, ctx):
    """Numbers of every type, with gradients, and in every memory layout"""
    from torchmps.utils2 import batch_broadcast, batch_to, bundle_tensors

    some = shapes([1, 2, 3], 2)
    for pair in itertools.product(some, repeat=2):
        for nnbs in splits(pair):
            bs = [s[: len(s) - m] for s, m in zip(pair, nnbs)]
            want = np_shape(bs)
            tens = [make_kind(s, k, kind) for k, s in enumerate(pair)]
            info = dict(shapes=pair, num_nonbatch=nnbs)
            ctx.eval((pair, nnbs), nontrivial=bs[0] != bs[1])
            try:
                out = batch_broadcast(tens, list(nnbs))
            except ValueError:
                expect(want is None, "rejected broadcastable batch shapes", **info)
                continue
            expect(want is not None, "accepted batch shapes that do not broadcast", **info)
            for t, o, s, m in zip(tens, out, pair, nnbs):
                full = tuple(want) + s[len(s) - m :]
                ref_np = t.detach().numpy().reshape((1,) * (len(full) - t.ndim) + s)
                expect(o.dtype == t.dtype, f"dtype {t.dtype} became {o.dtype}", **info)
                expect(o.requires_grad == t.requires_grad, "requires_grad is not kept", **info)
                expect(tuple(o.shape) == full and np.array_equal(o.detach().numpy(), np.broadcast_to(ref_np, full)), "values changed", **info)
                if t.requires_grad:
                    (g,) = torch.autograd.grad(o.sum(), t, retain_graph=True)
                    mult = int(np.prod(full)) // max(1, t.numel())
                    expect(bool((g == mult).all()), "gradient of the sum is not the number of repetitions", **info)
            # the first tensor to the batch shape of the second
            o = batch_to(tens[0], tuple(bs[1]), nnbs[0])
            full = tuple(want) + pair[0][len(pair[0]) - nnbs[0] :]
            ref_np = tens[0].detach().numpy().reshape((1,) * (len(full) - tens[0].ndim) + pair[0])
            expect(o.dtype == tens[0].dtype and o.requires_grad == tens[0].requires_grad, "batch_to changes dtype or requires_grad", **info)
            expect(tuple(o.shape) == full and np.array_equal(o.detach().numpy(), np.broadcast_to(ref_np, full)), "batch_to result", **info)
        if kind == "mixed" or pair[0] != pair[1]:
            continue
        for num, dim in itertools.product([1, 2, 3], range(-len(pair[0]) - 1, len(pair[0]) + 1)):
            tens = [make_kind(pair[0], k, kind) for k in range(num)]
            o = bundle_tensors(tens, dim)
            expect(o.dtype == tens[0].dtype and o.requires_grad == tens[0].requires_grad, "bundle changes dtype or requires_grad", shape=pair[0])
            expect(np.array_equal(o.detach().numpy(), np.stack([t.detach().numpy() for t in tens], dim)), "bundle result", shape=pair[0], dim=dim)
            ctx.eval(("bundle", pair[0], num, dim))
    ctx.sample({"kind": kind, "shapes": pair})

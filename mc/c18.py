"""C18: data helpers"""
import itertools

import numpy as np
import torch

from . import ref
from .mpsutil import expect

LEVEL = "exploration"
RULE = (
    "onehot: every label sequence over every alphabet in the bounds; joint_shuffle: "
    "every batch size, data rank, dtype and label pattern; load_HV_data: every image "
    "length. Non-trivial: more than one label / row / image."
)
ASSUMPTIONS = ["numpy's shuffle is a permutation"]


WIDE = [*range(5, 41), 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 1025]


def bounds(tier):
    t = tier == "thorough"
    return {
        "onehot": f"all label sequences of length <= {6 if t else 5} over alphabets of size <= {5 if t else 4}",
        "onehot wide": "alphabets of size up to 1025, every letter, 1 to 2050 labels",
        "joint_shuffle": f"batch sizes 0..{64 if t else 24}, selected up to 1025, 1..4 axes, 4 dtypes, 4 memory layouts in turn",
        "load_HV_data": f"lengths 1..{12 if t else 9}",
    }


def cases(tier):
    t = tier == "thorough"
    out = [["onehot", v, n] for v in range(1, 6 if t else 5) for n in range(0, 7 if t else 6)]
    out += [["shuffle", b] for b in range(0, 65 if t else 25)]
    out += [["onehot wide", v] for v in WIDE]
    out += [["shuffle", b] for b in [31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 257, 1000, 1025] if not t or b > 64]
    out += [["hv", L] for L in range(1, 13 if t else 10)]
    return out


def weight(case):
    return 1000 * case[1] if case[0] == "hv" else 1


def relayout(data, layout):
    """The same values in another memory layout"""
    if layout == "every second":
        out = torch.zeros((2 * len(data),) + data.shape[1:], dtype=data.dtype)[::2]
    elif layout == "plain" or data.ndim == 1:
        return data
    elif layout == "last axis first":
        out = torch.empty(data.shape[-1:] + data.shape[:-1], dtype=data.dtype)
        out = out.permute(tuple(range(1, data.ndim)) + (0,))
    else:
        out = torch.empty(data.shape[::-1], dtype=data.dtype).permute(tuple(range(data.ndim))[::-1])
    out.copy_(data)
    return out


def run_case(case, ctx):
    from torchmps.utils import joint_shuffle, load_HV_data, onehot

    if case[0] == "onehot":
        _, v, n = case
        kept = []
        for labels in itertools.product(range(v), repeat=n):
            want = np.zeros([n, v])
            for i, k in enumerate(labels):
                want[i, k] = 1
            forms = [torch.tensor(labels, dtype=torch.long)]
            if len(set(labels)) <= 1 or n <= 3:
                forms += [list(labels), torch.tensor(labels, dtype=torch.int32), torch.tensor(labels).long().numpy()]
            for lab in forms:
                keep = torch.as_tensor(np.array(lab)).clone()
                got = onehot(lab, v)
                expect(
                    tuple(got.shape) == want.shape and np.array_equal(got.numpy(), want),
                    "onehot result", labels=labels, max_value=v, got=got,
                )
                expect(torch.equal(torch.as_tensor(np.array(lab)), keep), "labels modified")
                # a result is not touched by later calls, nor by changes of earlier results
                for old, copy in kept[-3:]:
                    expect(torch.equal(old, copy), "an earlier result changed", labels=labels, max_value=v)
                if len(kept) % 2:
                    got.add_(1.0)
                kept.append((got, got.clone()))
            ctx.eval(labels, nontrivial=len(set(labels)) > 1)
        ctx.sample({"labels": labels, "max_value": v})
    elif case[0] == "onehot wide":
        v = case[1]
        every = np.arange(v)
        for labels in [every, every[::-1], np.repeat(every, 2), every[-1:], every[:1], np.full(v + 1, v - 1), every * (v - 1) // max(1, v - 2) % v]:
            want = np.zeros([len(labels), v])
            want[np.arange(len(labels)), labels] = 1
            for lab in [torch.tensor(labels.copy()), torch.tensor(labels.copy(), dtype=torch.int32), labels.tolist()]:
                got = onehot(lab, v)
                expect(
                    tuple(got.shape) == want.shape and np.array_equal(got.numpy(), want),
                    "onehot result", labels=labels[:20], max_value=v, form=type(lab).__name__,
                )
            ctx.eval(labels.tolist())
        ctx.sample({"max_value": v})
    elif case[0] == "shuffle":
        b = case[1]
        count, kept = b, []
        for shape in [(), (1,), (3,), (2, 2), (4, 1), (2, 3, 2)]:
            for dtype in [torch.float32, torch.float64, torch.int64, torch.uint8]:
                for pattern in ["distinct", "mod2", "vector"]:
                    size = int(np.prod(shape))
                    data = (torch.arange(b * size).view((b,) + shape) % 251).to(dtype)
                    if dtype != torch.uint8:
                        data = torch.arange(b * size).view((b,) + shape).to(dtype)
                    if pattern == "distinct":
                        labels = torch.arange(b)
                    elif pattern == "mod2":
                        labels = torch.arange(b) % 2
                    else:
                        labels = torch.eye(b)
                    layout = ["plain", "last axis first", "every second", "axes reversed"][count % 4]
                    count += 1
                    data = relayout(data, layout)
                    d0, l0 = data.clone(), labels.clone()
                    out = joint_shuffle(data, labels)
                    expect(len(out) == 2, "two tensors")
                    d1, l1 = out
                    info = dict(batch=b, shape=shape, dtype=str(dtype), pattern=pattern, layout=layout)
                    for old, copy in kept[-2:]:
                        expect(torch.equal(old, copy), "an earlier result changed", **info)
                    kept += [(d1, d1.clone()), (l1, l1.clone())]
                    expect(d1.shape == d0.shape and l1.shape == l0.shape, "shape changed", **info)
                    expect(d1.dtype == d0.dtype and l1.dtype == l0.dtype, "dtype changed", **info)
                    # the pairs (datum, label) before and after are the same multiset
                    pairs = lambda d, l: sorted(
                        (d[i].numpy().tobytes(), l[i].numpy().tobytes()) for i in range(b)
                    )
                    expect(pairs(d0, l0) == pairs(d1, l1), "label no longer belongs to its datum", **info)
                    ctx.eval(tuple(info.values()), nontrivial=b > 1)
                    ctx.outcome(l1.numpy().tobytes())
        ctx.sample({"batch": b})
    else:
        L = case[1]
        state = np.random.get_state()[1].copy()
        if L < 8:
            for t in load_HV_data(L):
                t.fill_(7)
        out = load_HV_data(L)
        expect(len(out) == 4, "four tensors")
        tr_x, tr_y, te_x, te_y = [np.asarray(t) for t in out]
        total = 4 * (2 ** (L - 1) - 1)
        expect(len(tr_x) == len(tr_y) and len(te_x) == len(te_y), "images and labels differ in number")
        expect(len(te_x) == total // 4 and len(tr_x) == total - total // 4, "split is not three to one")
        want = set()
        for pat in itertools.product([0.0, 1.0], repeat=L):
            if 0 < sum(pat) < L:
                row = np.array(pat)
                want.add((np.repeat(row[:, None], L, 1).astype(np.float32).tobytes(), 0))
                want.add((np.repeat(row[None, :], L, 0).astype(np.float32).tobytes(), 1))
        got = []
        for x, y in [(tr_x, tr_y), (te_x, te_y)]:
            if total:
                expect(x.shape[1:] == (L, L), "image shape")
            for img, lab in zip(x, y):
                got.append((img.astype(np.float32).tobytes(), int(lab)))
        expect(len(got) == len(set(got)), "an image appears twice", length=L)
        expect(set(got) == want, "not every stripe image appears with its label", length=L)
        ctx.eval(L, nontrivial=L > 1, n=max(1, total))
        ctx.sample({"length": L, "images": total})

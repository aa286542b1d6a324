"""C20: chains of contractables"""
import itertools

import numpy as np
import torch

from . import ref
from .core import Violation
from .mpsutil import expect, np64, same, tens

LEVEL = "exploration"
RULE = (
    "Every word of the chain grammar [left vector | left output matrix] (matrix | region of "
    "k matrices | output core)* [right vector | right output matrix] in the bounds, both "
    "evaluation modes, and every pairwise bracketing of the multiplications. Non-trivial: "
    "at least two items."
)
ASSUMPTIONS = [
    "integer tensors in float64: the contraction is exact in every order",
    "index labels of further output cores are not specified, only their order",
]


def bounds(tier):
    t = tier == "thorough"
    return {
        "items between the ends": 5 if t else 4,
        "region lengths": [1, 2, 3, 4, 7] if t else [1, 2, 3, 5],
        "bracketings": f"all, up to {6 if t else 5} items",
        "batch sizes": [1, 2, 3],
        "wide": "11 chains with bonds 4..33, 64, 65, output sizes up to 257, batches up to 1025",
    }


def cases(tier):
    t = tier == "thorough"
    regions = [1, 2, 3, 4, 7] if t else [1, 2, 3, 5]
    inner = ["S", "O"] + [f"M{k}" for k in regions]
    out = []
    for k in range(0, (5 if t else 4) + 1):
        for mid in itertools.product(inner, repeat=k):
            if mid.count("O") > 2:
                continue
            ends = [("", ""), ("L", ""), ("", "R"), ("L", "R")]
            if "O" not in mid:
                ends += [("P", "R"), ("L", "Q")]
            for a, b in ends:
                word = ([a] if a else []) + list(mid) + ([b] if b else [])
                if word and word != ["P"] and word != ["Q"]:
                    out.append(["".join(x + " " for x in word).strip(), t])
    for n in [15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 130]:
        out.append([f"L M{n} R", t])
        out.append([f"M{n}", t])
        out.append([f"L M{n} O M{n - 1} R", t])
        out.append([f"M{n} O M{n + 1}", t])
        out.append([f"L M{n} Q", t])
    for k in range(1, (4 if t else 3) + 1):
        for mid in itertools.product(["S", "O", "M1", "M3"], repeat=k):
            if mid.count("O") > 1:
                continue
            for a, b in [("", ""), ("L", ""), ("", "R"), ("L", "R")]:
                word = ([a] if a else []) + list(mid) + ([b] if b else [])
                if len(word) > 1:
                    out.append([" ".join(word), "list"])
                    out.append([" ".join(word), "unbatched"])
    for word in ["P R", "L Q", "P S R", "L S Q", "P M3 R", "L M3 Q"]:
        out.append([word, "unbatched"])
    for item in ["L", "R", "P", "Q", "S", "O", "M1", "M3", "X", "G"]:
        out.append([item, "scalar"])
    words = ["L R", "L S R", "L M3 R", "L S M1 R", "L M1 S R"]
    for a, b in itertools.product(words, repeat=2):
        out.append([a + " + " + b, "concat"])
    labels_ = ["", "o", "y", "z", "oz", "zo", "syz"]
    for a, b in itertools.product(labels_, repeat=2):
        out.append([a, b, "labels"])
    out.append(["errors"])
    for word in ["L S R", "L M3 R", "L S O S R", "L M3 O M4 R", "M3 O M3", "L O", "O R", "S S", "P S R", "L M3 Q", "M4"]:
        out.append([word, "wide"])
    return out


CHUNK = 20


def serial_supported(word):
    """Regions are only multiplied with edge vectors when not reduced first"""
    outs = [i for i, w in enumerate(word) if w == "O"]
    for i, w in enumerate(word):
        if w[0] != "M" or len(word) == 1:
            continue
        left = word[0] == "L" and not any(j < i for j in outs)
        right = word[-1] == "R" and not any(j > i for j in outs)
        if not (left or right):
            return False
    return True


class Item:
    """A factor of the reference contraction: array [B, outs..., l?, r?]"""

    def __init__(self, arr, l, r, mats=None):
        self.arr, self.l, self.r = arr, l, r


def make(word, B, square):
    """Arrays of the items; bond dims vary along the chain unless fixed by regions"""
    dims = [2]
    for i, w in enumerate(word):
        if w in "LRPQ":
            continue
        if w[0] == "M" or square:
            dims.append(dims[-1])
        else:
            dims.append(2 + (dims[-1] + i) % 2 if i % 3 else dims[-1])
    arrs, pos = [], 0
    for i, w in enumerate(word):
        tag = ("c20", i, w, B)
        lo, hi = -2, 2
        if w == "L":
            arrs.append(ref.vals((B, dims[0]), *tag, lo=lo, hi=hi, nonzero=True))
        elif w == "P":
            arrs.append(ref.vals((B, dims[0], 3), *tag, lo=lo, hi=hi))
        elif w == "R":
            arrs.append(ref.vals((B, dims[-1]), *tag, lo=lo, hi=hi, nonzero=True))
        elif w == "Q":
            arrs.append(ref.vals((B, dims[-1], 3), *tag, lo=lo, hi=hi))
        elif w == "S":
            arrs.append(ref.vals((B, dims[pos], dims[pos + 1]), *tag, lo=lo, hi=hi))
            pos += 1
        elif w == "O":
            arrs.append(ref.vals((B, 2 + (i % 2), dims[pos], dims[pos + 1]), *tag, lo=lo, hi=hi))
            pos += 1
        else:
            k = int(w[1:])
            a = ref.vals((B, k, dims[pos], dims[pos + 1]), *tag, lo=-1, hi=1)
            # signed permutations keep long products small and exact
            if k > 5:
                D = dims[pos]
                for b in range(B):
                    for s in range(k):
                        a[b, s] = np.roll(np.eye(D), s % D, axis=1) * (1 if (s * b) % 3 else -1)
                        if s % 5 == 0:
                            a[b, s, 0, 1] += 1 if (s // 5) % 2 else -1
            arrs.append(a)
            pos += 1
    return arrs


def reference(word, arrs):
    """[B, outs..., l, r] of the ordered product, before closing the ends"""
    B = arrs[0].shape[0]
    res = []
    for b in range(B):
        cur, nout = None, 0  # cur: [outs..., l, r]
        for w, a in zip(word, arrs):
            a = a[b]
            if w == "L":
                m = a[None, :]
            elif w == "P":
                m = a.T[:, None, :]  # outs, 1, r
            elif w == "R":
                m = a[:, None]
            elif w == "Q":
                m = a.T[:, :, None]
            elif w[0] == "M":
                m = np.eye(a.shape[1])
                for x in a:
                    m = m @ x
            else:
                m = a
            cur = m if cur is None else np.tensordot(cur, np.moveaxis(m, -2, 0), axes=(-1, 0))
            # tensordot puts l before the outputs of m: [outs1, l, outs2, r]
            k = m.ndim - 2
            if k and cur.ndim > m.ndim - 1 and cur is not m:
                cur = np.moveaxis(cur, cur.ndim - 2 - k, -2)
        if word[0] in "LP" and word[0] in ("L", "P"):
            cur = np.squeeze(cur, -2)
            if word[-1] in ("R", "Q"):
                cur = np.squeeze(cur, -1)
        elif word[-1] in ("R", "Q"):
            cur = np.squeeze(cur, -1)
        res.append(cur)
    return np.stack(res)


def labels(word):
    outs = sum(w in ("O", "P", "Q") for w in word)
    l = "" if word[0] in ("L", "P") else "l"
    r = "" if word[-1] in ("R", "Q") else "r"
    return "b" + "o" * outs + l + r


def build(word, arrs):
    from torchmps.contractables import EdgeVec, MatRegion, OutputCore, OutputMat, SingleMat

    out = []
    for w, a in zip(word, arrs):
        t = tens(a)
        if w in "LR":
            out.append(EdgeVec(t, is_left_vec=(w == "L")))
        elif w in "PQ":
            out.append(OutputMat(t, is_left_mat=(w == "P")))
        elif w == "S":
            out.append(SingleMat(t))
        elif w == "O":
            out.append(OutputCore(t))
        else:
            out.append(MatRegion(t))
    return out


def verify(item, word, want, how, ctx, B):
    lab = labels(word)
    info = dict(chain=word, how=how, batch=B)
    got_lab = item.bond_str
    if word == ["L"] or word == ["R"]:
        pass
    if len(word) == 1 and word[0][0] == "M" and how == "serial":
        return  # a lone region in a serial chain is returned as it is
    if lab.count("o") <= 1:
        expect(got_lab == lab, f"labels {got_lab}, want {lab}", **info)
    else:
        strip = lambda s: "".join(c for c in s if c in "blr")
        expect(strip(got_lab) == strip(lab) and len(got_lab) == len(lab), f"labels {got_lab}", **info)
        expect(got_lab[0] == "b" and got_lab.endswith(lab.replace("o", "")[1:]), f"label order {got_lab}", **info)
        expect(len(set(got_lab)) == len(got_lab), f"repeated labels {got_lab}", **info)
    same(item.tensor, want, 1e-12, "value of the chain", **info)


def brackets(i, j):
    if j - i == 1:
        yield i
        return
    for k in range(i + 1, j):
        for a in brackets(i, k):
            for b in brackets(k, j):
                yield (a, b)


def kind(tree, word, reduced):
    """
    Class of a bracketing, or None where it asks for a product that the
    building blocks do not define (a region or output matrix with anything
    but an edge vector on its side)
    """
    if not isinstance(tree, tuple):
        w = word[tree]
        if w[0] == "M":
            return "S" if reduced else "M"
        return w
    a, b = kind(tree[0], word, reduced), kind(tree[1], word, reduced)
    if a is None or b is None:
        return None
    table = {
        ("L", "S"): "L", ("S", "R"): "R", ("S", "S"): "S", ("S", "O"): "O", ("O", "S"): "O",
        ("L", "M"): "L", ("M", "R"): "R", ("L", "O"): "LO", ("O", "R"): "OR", ("L", "R"): "X",
        ("LO", "S"): "LO", ("S", "OR"): "OR", ("LO", "R"): "X", ("L", "OR"): "X",
        ("L", "Q"): "X", ("P", "R"): "X", ("S", "Q"): "OR", ("L", "OQ"): "X",
    }
    return table.get((a, b))


def multiply(tree, items):
    if not isinstance(tree, tuple):
        return items[tree]
    return multiply(tree[0], items) * multiply(tree[1], items)


def run_case(case, ctx):
    from torchmps.contractables import ContractableList

    torch.set_default_dtype(torch.float64)
    if isinstance(case[-1], str):
        return globals()["run_" + case[-1]](ctx, *case[:-1])
    word, thorough = case[0].split(" "), case[1]
    long = any(w[0] == "M" and int(w[1:]) > 7 for w in word)
    for B in [1, 2, 3] if not long else [2]:
        for square in [True, False] if not long else [True]:
            arrs = make(word, B, square)
            want = reference(word, arrs)
            for how in ["parallel", "serial"]:
                if how == "serial" and not serial_supported(word):
                    continue
                items = build(word, arrs)
                given, chain = list(items), ContractableList(items)
                # reducing again, in the same or the other mode, gives the same
                for again in [how, how, "parallel"]:
                    out = chain.reduce(parallel_eval=(again == "parallel"))
                    verify(out, word, want, again, ctx, B)
                    same_list = len(items) == len(given) and all(a is b for a, b in zip(items, given))
                    expect(same_list, "the list of the caller has changed", chain=word, how=how)
                    for it, a in zip(given, arrs):
                        expect(np.array_equal(np64(it.tensor), a), "an item has changed", chain=word, how=how)
                ctx.eval((B, square, how), nontrivial=len(word) > 1)
            if how == "serial" and len(word) > 1 and serial_supported(word):
                # default mode is the serial one
                verify(ContractableList(build(word, arrs)).reduce(), word, want, "default", ctx, B)
            if word.count("O") <= 1 and 2 <= len(word) <= (6 if thorough else 5) and B < 3:
                for reduced in [False, True]:
                    for tree in brackets(0, len(word)):
                        if kind(tree, word, reduced) is None:
                            continue
                        items = build(word, arrs)
                        if reduced:
                            items = [it.reduce() for it in items]
                        out = multiply(tree, items)
                        verify(out, word, want, f"brackets {tree}", ctx, B)
                        ctx.eval((B, square, reduced, tree))
                        ctx.add("bracketings")
            ctx.outcome(want.tobytes())
    ctx.sample({"chain": case[0], "labels": labels(word)})


def run_wide(ctx, text):
    """One of bond dimension, output size and batch size large"""
    from torchmps.contractables import ContractableList

    word = text.split(" ")
    sizes = [(D, 2, 3) for D in [*range(4, 34), 64, 65]] + [(2, o, 3) for o in [*range(4, 20), 32, 33, 100, 257]]
    sizes += [(D, 2, B) for D in [2, 3] for B in [*range(4, 40), 63, 64, 65, 100, 127, 128, 129, 256, 257, 1000, 1025]]
    for D, o, B in sizes:
        rows = sorted({0, 1, B // 2, B - 2, B - 1})
        arrs = []
        for i, w in enumerate(word):
            shape = {"L": (B, D), "R": (B, D), "P": (B, D, o), "Q": (B, D, o), "S": (B, D, D), "O": (B, o, D, D)}.get(w)
            shape = shape or (B, int(w[1:]), D, D)
            arrs.append(ref.vals(shape, "wide", i, w, D, o, B, lo=-2, hi=2))
        want = reference(word, [a[rows] for a in arrs])
        for how in ["parallel", "serial"]:
            if how == "serial" and (not serial_supported(word) or len(word) == 1):
                continue
            out = ContractableList(build(word, arrs)).reduce(parallel_eval=how == "parallel")
            expect(out.tensor.shape[0] == B, "batch size of the result", chain=word, batch=B)
            expect(out.bond_str == labels(word), f"labels {out.bond_str}", chain=word)
            same(out.tensor[rows], want, 1e-12, "value of the chain", chain=word, bond=D, outputs=o, batch=B, how=how)
            ctx.eval((D, o, B, how))
        ctx.outcome(want.tobytes())
    ctx.sample({"chain": word})


def run_list(ctx, text):
    """The first or last item times a ContractableList of the other ones"""
    from torchmps.contractables import ContractableList

    word = text.split(" ")
    for B in [1, 2]:
        arrs = make(word, B, False)
        want = reference(word, arrs)
        for left in [True, False]:
            # regions are only multiplied with edge vectors
            running = word[0] if left else word[-1]
            order = word[1:] if left else word[-2::-1]
            ok, vec = True, running == ("L" if left else "R")
            for w in order:
                if w[0] == "M" and not vec:
                    ok = False
                if w == "O":
                    vec = False
            if running[0] == "M" and not (len(word) == 2 and order[0] in ("L", "R")):
                ok = False
            if not ok:
                continue
            items = build(word, arrs)
            if left:
                out = items[0] * ContractableList(items[1:])
            else:
                out = ContractableList(items[:-1]) * items[-1]
            verify(out, word, want, "item * list" if left else "list * item", ctx, B)
            ctx.eval((B, left))
    ctx.outcome(want.tobytes())
    ctx.sample({"chain": text})


def run_unbatched(ctx, text):
    """Items given without batch axis once the batch size is known"""
    from torchmps.contractables import ContractableList, EdgeVec

    word = text.split(" ")
    for B in [1, 2, 3]:
        for mask in itertools.product([False, True], repeat=len(word)):
            arrs = make(word, B, False)
            full = [np.broadcast_to(a[:1], a.shape) if m else a for a, m in zip(arrs, mask)]
            want = reference(word, full)
            for how in ["parallel", "serial"]:
                if how == "serial" and not serial_supported(word):
                    continue
                EdgeVec(torch.zeros(B, 2), is_left_vec=True)  # sets the batch size
                items = build(word, [a[0] if m else a for a, m in zip(arrs, mask)])
                for it, a in zip(items, full):
                    same(it.tensor, a, 0.0, "item without batch axis", chain=word, batch=B)
                out = ContractableList(items).reduce(parallel_eval=(how == "parallel"))
                verify(out, word, want, "unbatched " + how, ctx, B)
                ctx.eval((B, mask, how), nontrivial=any(mask))
        ctx.outcome(want.tobytes())
    ctx.sample({"chain": text})


def run_scalar(ctx, w):
    """Scalar times contractable: every entry scaled by its batch entry"""
    from torchmps.contractables import Contractable, Scalar

    for B in [1, 2, 3]:
        for form in ["batch", "one", "none"]:
            if w == "X":
                a = ref.vals((B,), "c20x", B)
                item = Scalar(tens(a))
            elif w == "G":
                a = ref.vals((B, 2, 3, 2), "c20g", B)
                item = Contractable(tens(a), "bxyz")
            else:
                a = make([w], B, False)[0]
                item = build([w], [a])[0]
            c = ref.vals((B,), "c20s", B, nonzero=True) if form == "batch" else np.array([3.0] if form == "one" else 3.0)
            factor = c.reshape([-1] + [1] * (a.ndim - 1))
            for left in [True, False]:
                scalar = Scalar(tens(c))
                out = scalar * item if left else item * scalar
                info = dict(item=w, batch=B, scalar=form, left=left)
                same(out.tensor, factor * a, 1e-12, "scaled item", **info)
                expect(out.bond_str == item.bond_str, f"labels {out.bond_str}", **info)
                expect(type(out) is type(item), f"type {type(out).__name__}", **info)
                same(item.tensor, a, 0.0, "the item itself", **info)
                ctx.eval((B, form, left))
        ctx.outcome(a.tobytes())
    ctx.sample({"item": w})


def run_concat(ctx, text):
    """Closed chains one after the other: the product of their values"""
    from torchmps.contractables import ContractableList

    words = [t.split(" ") for t in text.split(" + ")]
    for B in [1, 2, 3]:
        want, arrs = np.ones(B), []
        for i, word in enumerate(words):
            arr = make(word, B, True)
            arr = [a + 0.0 if i == 0 else a * 2 for a in arr]
            want = want * reference(word, arr)
            arrs.append(arr)
        for how in ["parallel", "serial"]:
            items = sum((build(word, arr) for word, arr in zip(words, arrs)), [])
            out = ContractableList(items).reduce(parallel_eval=(how == "parallel"))
            same(out.tensor, want, 1e-12, "value of the chains", chain=text, how=how, batch=B)
            expect(out.bond_str == "b", f"labels {out.bond_str}", chain=text)
            ctx.eval((B, how))
        ctx.outcome(want.tobytes())
    ctx.sample({"chain": text})


def run_labels(ctx, a, b):
    """Products of general contractables whose axes come in any order"""
    from torchmps.contractables import Contractable

    size = {"l": 2, "r": 2, "o": 3, "y": 2, "z": 4, "s": 1}
    for B in [1, 2]:
        for ends_a, ends_b in itertools.product(["lr", "r"], ["lr", "l"]):
            pa = list(itertools.permutations(a + ends_a))
            pb = list(itertools.permutations(b + ends_b))
            # every order of one factor with the first and last of the other
            for order_a, order_b in itertools.product(pa, pb):
                if len(pa) * len(pb) <= 150 or order_a in (pa[0], pa[-1]) or order_b in (pb[0], pb[-1]):
                    x = ref.vals((B,) + tuple(size[c] for c in order_a), "c20l", 0, order_a)
                    y = ref.vals((B,) + tuple(size[c] for c in order_b), "c20l", 1, order_b)
                    want = []
                    for i in range(B):
                        w = np.tensordot(x[i], y[i], axes=(order_a.index("r"), order_b.index("l")))
                        axes = [("a", c) for c in order_a if c != "r"] + [("b", c) for c in order_b if c != "l"]
                        new = [k for k, (_, c) in enumerate(axes) if c not in "lr"]
                        new += [k for k, (s_, c) in enumerate(axes) if (s_, c) == ("a", "l")]
                        new += [k for k, (s_, c) in enumerate(axes) if (s_, c) == ("b", "r")]
                        want.append(w.transpose(new))
                    left = Contractable(tens(x), "b" + "".join(order_a))
                    right = Contractable(tens(y), "b" + "".join(order_b))
                    out = left * right
                    info = dict(left=left.bond_str, right=right.bond_str, batch=B)
                    same(out.tensor, np.stack(want), 1e-12, "product", **info)
                    lab = out.bond_str
                    tail = ("l" if "l" in order_a else "") + ("r" if "r" in order_b else "")
                    expect(lab[0] == "b" and lab.endswith(tail) and len(set(lab)) == len(lab) == out.tensor.dim(), f"labels {lab}", **info)
                    expect(not set(lab[1 : len(lab) - len(tail)]) & set("blr"), f"labels {lab}", **info)
                    ctx.eval((B, order_a, order_b))
        ctx.outcome(want[0].tobytes())
    ctx.sample({"labels": [a, b]})


def run_errors(ctx):
    """Malformed items"""
    from torchmps import contractables as C

    t = torch.ones
    bad = [
        lambda: C.ContractableList([]),
        lambda: C.ContractableList((C.SingleMat(t(2, 2, 2)),)),
        lambda: C.ContractableList([t(2, 2, 2)]),
        lambda: C.ContractableList([C.SingleMat(t(2, 2, 2)), None]),
        lambda: C.Contractable(t(2, 2, 2), "bl"),
        lambda: C.Contractable(t(2, 2, 2), "blrx"[:2] + "rxy"),
        lambda: C.Contractable(t(2, 2), "lbr"),
        lambda: C.MatRegion(t(2, 3)),
        lambda: C.MatRegion(t(2, 3, 2, 3)),
        lambda: C.MatRegion(t(1, 2, 3, 2, 2)),
        lambda: C.SingleMat(t(2)),
        lambda: C.SingleMat(t(2, 2, 2, 2)),
        lambda: C.OutputCore(t(2, 2)),
        lambda: C.OutputCore(t(2, 2, 2, 2, 2)),
        lambda: C.OutputMat(t(2), True),
        lambda: C.OutputMat(t(2, 2, 2, 2), False),
        lambda: C.EdgeVec(t(2, 2, 2), True),
        lambda: C.EdgeVec(torch.tensor(1.0), False),
        lambda: C.Scalar(t(2, 2)),
    ]
    C.EdgeVec(t(2, 2), True)
    for i, f in enumerate(bad):
        try:
            f()
        except (ValueError, IndexError):
            ctx.eval(i)
            continue
        expect(False, "malformed item accepted", item=i)
    C.Contractable.global_bs = None
    for i, f in enumerate([lambda: C.SingleMat(t(2, 2)), lambda: C.EdgeVec(t(2), True), lambda: C.MatRegion(t(3, 2, 2))]):
        try:
            f()
        except RuntimeError:
            ctx.eval(("unset", i))
            continue
        expect(False, "item without batch axis accepted before any batch size is set", item=i)
    ctx.sample({"malformed": len(bad)})

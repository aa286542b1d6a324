"""C11: contract_matseq, get_mat_slices and slim_eval_fun"""
import itertools

import numpy as np
import torch

from . import ref
from .mpsutil import expect, fresh, np64, same, tens

LEVEL = "exploration"
RULE = (
    "Every length, bond profile, batch-shape tuple, boundary choice, evaluation mode "
    "and container in the bounds with small integer (also Gaussian integer) matrices; "
    "every sequence of 0/1 matrices of size 2 up to a length; every index sequence for "
    "slices. Non-trivial: at least two factors."
)
ASSUMPTIONS = ["numpy matmul; float64 sums of small integers are exact up to the rescaling"]

BATCH = [(), (1,), (2,), (3, 1), (1, 2)]


def bounds(tier):
    t = tier == "thorough"
    return {
        "lists": f"length 0..{5 if t else 4}, bond dims 1..3, batch shapes {BATCH}",
        "tensors": f"length 0..{9 if t else 6}, D 1..3",
        "0/1 matrices": f"all sequences of 2x2 matrices up to length {4 if t else 3}",
        "long": "lengths up to 4097, entries from 1e-30 to 1e30",
        "wide": "bonds up to 65, rectangular profiles up to 40, batches up to 4097, alphabets up to 257; lengths 1, 2, 3, 6, 7",
        "slices": f"all index sequences, length <= {4 if t else 3}, alphabet <= 3",
    }


def cases(tier):
    t = tier == "thorough"
    out = []
    for L in range(0, 6 if t else 5):
        dims = [1, 2, 3] if L <= 3 or t and L <= 4 else [1, 2]
        for prof in itertools.product(dims, repeat=L + 1):
            out.append(["list", list(prof)])
    for L in range(0, 10 if t else 7):
        for D in range(1, 4):
            out.append(["tensor", L, D])
    for L in range(1, 5 if t else 4):
        out.append(["01", L])
    for L in [7, 8, 9, 15, 16, 17, 33, 64, 100, 1000, 1025] + ([4096, 4097] if t else []):
        out.append(["long", L])
    for L in range(1, 10 if t else 7):
        for D in range(1, 4):
            out.append(["axes", L, D])
    for what in ["bond", "rectangular", "batch", "alphabet"]:
        for L in [1, 2, 3, 6, 7]:
            out.append(["wide", what, L])
    for L in range(1, 5 if t else 4):
        for d in range(1, 4):
            for D in range(1, 4):
                out.append(["slices", L, d, D])
    return out


def weight(case):
    return {"long": 50, "wide": 20, "01": 20, "list": len(case[1]) if case[0] == "list" else 1}.get(case[0], 2)


def cint(shape, cplx, *tag):
    a = ref.vals(shape, "re", *tag, lo=-2, hi=2)
    if cplx:
        a = a + 1j * ref.vals(shape, "im", *tag, lo=-2, hi=2)
    return a


def product(mats, left, right, batch, dims):
    """Reference: ordered product with explicit broadcasting"""
    D0, D1 = dims
    out = np.broadcast_to(np.eye(D0), batch + (D0, D0))
    for m in mats:
        out = out @ m
    out = np.broadcast_to(out, batch + (D0, D1))
    if left is not None:
        out = np.broadcast_to(left, batch + (D0,))[..., None, :] @ out
    if right is not None:
        out = out @ np.broadcast_to(right, batch + (D1,))[..., :, None]
    if left is not None:
        out = out[..., 0, :]
    if right is not None:
        out = out[..., 0]
    return out


def to_t(a):
    return torch.as_tensor(np.array(a))


def call(mats, left, right, par, want, ctx, info, tol=1e-12):
    """One call in both output formats, with inputs watched for changes"""
    from torchmps.mps_base import contract_matseq
    contract_matseq = fresh(contract_matseq)

    watch = [m for m in (mats if not isinstance(mats, torch.Tensor) else [mats])]
    watch += [v for v in (left, right) if v is not None]
    before = [(w.clone(), tuple(w.shape)) for w in watch]
    n_before = len(mats)
    got = contract_matseq(mats, left, right, par)
    same(got, want, tol, "contract_matseq", **info)
    pair = contract_matseq(mats, left_vec=left, right_vec=right, parallel_eval=par, log_format=True)
    expect(isinstance(pair, tuple) and len(pair) == 2, "log_format pair", **info)
    c, ls = pair
    expect(not ls.is_complex(), "log scale is not real", **info)
    same(c * torch.exp(ls), want, tol, "contract_matseq with log_format", **info)
    expect(tuple(c.shape) == want.shape, "shape of the contraction", **info)
    expect(len(mats) == n_before, "input container modified", **info)
    for w, (b, s) in zip(watch, before):
        expect(tuple(w.shape) == s and torch.equal(w, b), "input tensor modified", **info)


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    kind = case[0]
    if kind == "list":
        run_list(case[1], ctx)
    elif kind == "tensor":
        run_tensor(case[1], case[2], ctx)
    elif kind == "axes":
        run_axes(case[1], case[2], ctx)
    elif kind == "01":
        run_01(case[1], ctx)
    elif kind == "long":
        run_long(case[1], ctx)
    elif kind == "wide":
        run_wide(case[1], case[2], ctx)
    else:
        run_slices(*case[1:], ctx)


def batch_tuples(L, lv, rv):
    """Batch shapes of the matrices and vectors: all for few factors, else a cover"""
    num = L + lv + rv
    if num <= 3:
        yield from itertools.product(BATCH, repeat=num)
        return
    for b in BATCH:
        for c in BATCH:
            for pos in range(num):
                t = [b] * num
                t[pos] = c
                yield tuple(t)


def run_list(prof, ctx):
    L = len(prof) - 1
    for lv, rv in itertools.product([0, 1], repeat=2):
        if L == 0 and not (lv or rv):
            continue
        for bt in sorted(set(batch_tuples(L, lv, rv))):
            try:
                batch = np.broadcast_shapes(*bt)
            except ValueError:
                continue
            # without any vector the batch of the list is that of the matrices
            for cplx in [False, True] if len(set(bt)) == 1 or L <= 2 else [False]:
                mats = [
                    cint(bt[i] + (prof[i], prof[i + 1]), cplx, prof, i, bt[i]) for i in range(L)
                ]
                left = cint(bt[L] + (prof[0],), cplx, "l", prof) if lv else None
                right = cint(bt[L + lv] + (prof[-1],), cplx, "r", prof) if rv else None
                want = product(mats, left, right, batch, (prof[0], prof[-1]))
                info = dict(profile=prof, batches=bt, left=lv, right=rv, cplx=cplx)
                tl = to_t(left) if lv else None
                tr = to_t(right) if rv else None
                for par, cont in [(False, list), (True, tuple)]:
                    tm = cont(to_t(m) for m in mats)
                    call(tm, tl, tr, par, want, ctx, dict(info, parallel=par))
                    ctx.eval((lv, rv, bt, cplx, par), nontrivial=num(L, lv, rv) > 1, n=2)
                ctx.outcome(want.tobytes())
    ctx.sample({"profile": prof})


def num(L, lv, rv):
    return L + lv + rv


def run_tensor(L, D, ctx):
    for lv, rv in itertools.product([0, 1], repeat=2):
        for bt in itertools.product(BATCH, repeat=1 + lv + rv):
            try:
                batch = np.broadcast_shapes(*bt)
            except ValueError:
                continue
            for cplx in [False, True]:
                mats = cint(bt[0] + (L, D, D), cplx, "t", L, D)
                left = cint(bt[1] + (D,), cplx, "l", D) if lv else None
                right = cint(bt[1 + lv] + (D,), cplx, "r", D) if rv else None
                want = product([mats[..., i, :, :] for i in range(L)], left, right, batch, (D, D))
                info = dict(L=L, D=D, batches=bt, left=lv, right=rv, cplx=cplx)
                tl = to_t(left) if lv else None
                tr = to_t(right) if rv else None
                for par in [False, True]:
                    call(to_t(mats), tl, tr, par, want, ctx, dict(info, parallel=par))
                    ctx.eval((lv, rv, bt, cplx, par), nontrivial=num(L, lv, rv) > 1, n=2)
                ctx.outcome(want.tobytes())
    ctx.sample({"L": L, "D": D})


AXES = [(2, 1, 3), (2, 3, 2), (3, 1, 1), (1, 2, 1, 2), (3, 2, 1, 2), (2, 1, 1, 2, 3)]


def run_axes(L, D, ctx):
    """Three and more batch axes, for one tensor and for a list"""
    for lv, rv in itertools.product([0, 1], repeat=2):
        for k, b in enumerate(AXES):
            others = [b, (), b[1:], b[-1:], tuple(1 for _ in b)]
            for ob in others:
                for tensor, cplx in itertools.product([False, True], repeat=2):
                    bt = [b] * L if tensor or L == 1 else [b, ob] + [(b, ob)[i % 3 == 0] for i in range(L - 2)]
                    mats = [cint(bt[i] + (D, D), cplx, "axes", i, D) for i in range(L)]
                    left = cint(ob + (D,), cplx, "l", D) if lv else None
                    right = cint((ob if k % 2 else b) + (D,), cplx, "r", D) if rv else None
                    want = product(mats, left, right, b, (D, D))
                    tm = to_t(np.stack(mats, -3)) if tensor else [to_t(m) for m in mats]
                    tl = to_t(left) if lv else None
                    tr = to_t(right) if rv else None
                    info = dict(L=L, D=D, batch=b, other=ob, left=lv, right=rv, cplx=cplx, tensor=tensor)
                    for par in [False, True]:
                        call(tm, tl, tr, par, want, ctx, dict(info, parallel=par))
                        ctx.eval((lv, rv, b, ob, cplx, tensor, par), nontrivial=num(L, lv, rv) > 1, n=2)
                    ctx.outcome(want.tobytes())
    ctx.sample({"batch shapes": AXES})


def run_01(L, ctx):
    every = ref.grid([0.0, 1.0], 4).reshape(16, 2, 2)
    idx = ref.grid(range(16), L)
    mats = every[idx]  # [16**L, L, 2, 2]
    lefts = [None, np.array([1.0, 0.0]), np.array([1.0, -1.0])]
    rights = [None, np.array([0.0, 1.0]), np.array([1.0, 1.0])]
    for left, right in itertools.product(lefts, rights):
        want = product([mats[:, i] for i in range(L)], left, right, (len(mats),), (2, 2))
        tl = to_t(left) if left is not None else None
        tr = to_t(right) if right is not None else None
        for par in [False, True]:
            info = dict(L=L, left=left, right=right, parallel=par)
            call(to_t(mats), tl, tr, par, want, ctx, info, 1e-12)
            call([to_t(mats[:, i]) for i in range(L)], tl, tr, par, want, ctx, info, 1e-12)
            # row by row: exact zeros stay zeros whatever the other rows
            ctx.evaluations += len(mats)
            ctx.eval((repr(left), repr(right), par), n=4)
        ctx.outcome(want.tobytes())
    if L <= 2:
        for k in range(len(mats)):
            want = product(list(mats[k]), lefts[1], rights[1], (), (2, 2))
            call(to_t(mats[k]), to_t(lefts[1]), to_t(rights[1]), False, want, ctx, dict(k=k))
            want = product(list(mats[k]), None, None, (), (2, 2))
            call(to_t(mats[k]), None, None, True, want, ctx, dict(k=k))
            ctx.eval(("row", k), n=4)
    ctx.sample({"sequences": len(mats), "nonzero products": int(np.any(want))})


def run_long(L, ctx):
    """log_format represents products far outside the range of the dtype"""
    from torchmps.mps_base import contract_matseq, slim_eval_fun
    contract_matseq, slim_eval_fun = fresh(contract_matseq), fresh(slim_eval_fun)

    for D, scale, cplx, f32 in itertools.product(
        [1, 2, 3], [1e-30, 1e-3, 1.0, 1e3, 1e30], [False, True], [False, True]
    ):
        if f32 and scale in (1e-30, 1e30):
            scale = scale ** 0.5
        # non-negative matrices times phases: no cancellation, any length
        base = ref.vals((4, L, D, D), "long", D, L, lo=0, hi=3) + np.eye(D)
        if cplx:
            base = base * np.exp(1j * ref.vals((4, L, 1, 1), "phase", L))
        base[1, L // 2] = 0.0
        base[2, : L // 2] *= 1e-2
        mats = base * scale
        vecs = ref.vals((2, D), "v", D, L, lo=1, hi=3) * (1j if cplx else 1)
        tm, tv = to_t(mats), to_t(vecs)
        if f32:
            c = torch.complex64 if cplx else torch.float32
            tm, tv = tm.to(c), tv.to(c)
            mats, vecs = np64(tm), np64(tv)
        want = [ref.Scaled.chain(vecs[0], mats[b], vecs[1]) for b in range(4)]
        expect(want[1][0] == 0 and all(want[b][0] != 0 for b in (0, 2, 3)), "reference")
        tol = (1e-3 if f32 else 1e-9) * max(1, L / 200)

        def logcheck(c, ls, what):
            c, ls = np64(c), np64(ls)
            for b in range(4):
                a, log = want[b]
                info = dict(row=b, L=L, D=D, scale=scale, cplx=cplx, f32=f32)
                if a == 0:
                    expect(c[b] == 0, f"{what}: zero product gives {c[b]}", **info)
                    continue
                expect(np.isfinite(c[b]) and np.isfinite(ls[b]), f"{what}: not finite", **info)
                ratio = c[b] / a * np.exp(ls[b] - log)
                expect(abs(ratio - 1) < tol, f"{what}: wrong value, ratio {ratio}", **info)
                ctx.add("long_products_compared")

        for par in [False, True]:
            c, ls = contract_matseq(tm, tv[0], tv[1], par, log_format=True)
            logcheck(c, ls, f"parallel={par}")
            ctx.eval((D, scale, cplx, f32, par))
        for form in ["list", "left", "right", "none"]:
            l = tv[0] if form in ("list", "left") else None
            r = tv[1] if form in ("list", "right") else None
            m = [tm[:, i] for i in range(L)] if form == "list" else tm
            c, ls = contract_matseq(m, l, r, log_format=True)
            if form == "left":
                c = c @ tv[1]
            elif form == "right":
                c = (c * tv[0]).sum(-1)
            elif form == "none":
                c = ((c * tv[0][:, None]).sum(-2) * tv[1]).sum(-1)
            ls = ls.reshape(4, -1)[:, 0]
            logcheck(c, ls, form)
            ctx.eval((D, scale, cplx, f32, form))
        core = tm.transpose(0, 1).contiguous()  # four symbols per site
        seq = torch.arange(4)[:, None].expand(4, L)
        c, ls = slim_eval_fun(seq, core, tv)
        logcheck(c, ls, "slim")
        ctx.eval((D, scale, cplx, f32, "slim"))
    ctx.sample({"L": L})


def run_wide(what, L, ctx):
    """One of bond dimension, batch size and alphabet large"""
    from torchmps.mps_base import get_mat_slices, slim_eval_fun
    get_mat_slices, slim_eval_fun = fresh(get_mat_slices), fresh(slim_eval_fun)

    if what == "alphabet":
        for d, cplx, uniform in itertools.product([*range(4, 34), 63, 64, 65, 100, 256, 257], [False, True], [False, True]):
            core = cint((d, 2, 2) if uniform else (L, d, 2, 2), cplx, "wcore", L, d)
            vecs = cint((2, 2), cplx, "wvec")
            idx = (ref.vals([d + 3, L], "widx", d, lo=0, hi=d - 1)).astype(int)
            idx[:d, 0] = np.arange(d)  # every letter at the first and the last site
            idx[:d, -1] = np.arange(d)[::-1]
            for name, seq in [("index", idx), ("vector", ref.vals([3, L, d], "wv", d, L))]:
                mats = np.array([ref.slice_mats([core] * L if uniform else list(core), s) for s in seq]).reshape(len(seq), L, 2, 2)
                info = dict(L=L, d=d, uniform=uniform, cplx=cplx, inputs=name)
                same(get_mat_slices(to_t(seq), to_t(core)), mats, 1e-12, "get_mat_slices", **info)
                want = product([mats[:, i] for i in range(L)], vecs[0], vecs[1], (len(seq),), (2, 2))
                c, ls = slim_eval_fun(to_t(seq), to_t(core), to_t(vecs))
                same(c * torch.exp(ls), want, 1e-10, "slim_eval_fun", **info)
                ctx.eval((d, cplx, uniform, name), n=2)
                ctx.outcome(want.tobytes())
        ctx.sample({"L": L})
        return
    if what == "bond":
        shapes = [([D] * (L + 1), 3) for D in [*range(4, 34), 48, 63, 64, 65]]
    elif what == "rectangular":
        shapes = [([1 + (7 * k * (i + 1) + i) % 40 for i in range(L + 1)], 3) for k in range(1, 21)]
    else:
        shapes = [([D] * (L + 1), B) for D in [2, 3] for B in [*range(4, 40), 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 2049, 4097]]
    for prof, B in shapes:
        for cplx, lv, rv in itertools.product([False, True], [0, 1], [0, 1]):
            mats = [cint((B, prof[i], prof[i + 1]), cplx, "wide", prof, i, B) for i in range(L)]
            left = cint((B, prof[0]), cplx, "wl", prof) if lv else None
            right = cint((prof[-1],), cplx, "wr", prof) if rv else None
            want = product(mats, left, right, (B,), (prof[0], prof[-1]))
            tl, tr = (None if v is None else to_t(v) for v in (left, right))
            for par in [False, True]:
                info = dict(profile=prof, batch=B, left=lv, right=rv, cplx=cplx, parallel=par)
                call([to_t(m) for m in mats], tl, tr, par, want, ctx, info, 1e-10)
                if what != "rectangular":
                    call(to_t(np.stack(mats, 1)), tl, tr, par, want, ctx, info, 1e-10)
                ctx.eval((prof, B, cplx, lv, rv, par), n=2)
            ctx.outcome(want.tobytes())
    ctx.sample({"profile": prof, "batch": B})


def run_slices(L, d, D, ctx):
    from torchmps.mps_base import contract_matseq, get_mat_slices, slim_eval_fun
    contract_matseq, get_mat_slices, slim_eval_fun = fresh(contract_matseq), fresh(get_mat_slices), fresh(slim_eval_fun)

    seqs = ref.grid(range(d), L).astype(int)
    for uniform, cplx in itertools.product([False, True], repeat=2):
        core = cint((d, D, D) if uniform else (L, d, D, D), cplx, "core", L, d, D)
        vecs = cint((2, D), cplx, "vec", D)
        cores = [core] * L if uniform else list(core)
        inputs = [("index", seqs), ("int32 index", seqs.astype(np.int32)), ("onehot", np.eye(d)[seqs])]
        inputs.append(("vector", ref.vals([3, L, d], "vec", L, d)))
        inputs.append(("one", seqs[-1:]))
        if cplx:
            inputs.append(("complex vector", cint((3, L, d), True, "cv", L, d)))
        for name, seq in inputs:
            mats = np.array([ref.slice_mats(cores, s) for s in seq]).reshape(len(seq), L, D, D)
            info = dict(L=L, d=d, D=D, uniform=uniform, cplx=cplx, inputs=name)
            ts, tc, tv = to_t(seq), to_t(core), to_t(vecs)
            keep = [ts.clone(), tc.clone(), tv.clone()]
            got = get_mat_slices(ts, tc)
            same(got, mats, 1e-12, "get_mat_slices", **info)
            want = product([mats[:, i] for i in range(L)], vecs[0], vecs[1], (len(seq),), (D, D))
            for par in [False, True]:
                same(contract_matseq(got, tv[0], tv[1], par), want, 1e-11, "contracted slices", **info)
            c, ls = slim_eval_fun(ts, tc, tv)
            expect(tuple(c.shape) == (len(seq),) and tuple(ls.shape) == (len(seq),), "slim shapes", **info)
            same(c * torch.exp(ls), want, 1e-11, "slim_eval_fun", **info)
            for a, b in zip((ts, tc, tv), keep):
                expect(torch.equal(a, b), "input modified", **info)
            ctx.eval((uniform, cplx, name), n=4)
            ctx.outcome(want.tobytes())
    ctx.sample({"L": L, "d": d, "D": D, "sequences": len(seqs)})

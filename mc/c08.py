"""C08: svd_flex"""
import itertools

import numpy as np
import torch

from . import ref
from .core import Violation
from .mpsutil import expect, fresh, np64, same, tens

LEVEL = "exploration"
RULE = (
    "Every partition of the indices of every tensor shape in the bounds, every order of "
    "the indices of both factors, every position of the bond, every max_D from None to "
    "beyond the rank, cutoffs below, between and above the singular values, both sides, "
    "with and without sv_vec. Non-trivial: something is dropped or padded."
)
ASSUMPTIONS = ["numpy.linalg.svd as the reference spectrum"]


def bounds(tier):
    t = tier == "thorough"
    return {
        "shapes": "2..4 indices of size 1..3" + (" (all)" if t else " (4 indices: selected sizes)"),
        "partitions and orders": "all",
        "max_D": "None, 1 .. rank+2",
        "cutoffs": "0, below, between all, above the singular values; equal to one (exact spectra)",
        "larger": "indices of up to 100 (thorough 200), selected sizes and cutoffs",
        "tensors": "generic, graded over 8 orders of magnitude, rows of different scales, low rank, repeated singular values, permutation-like, zero, non-contiguous, tiny, huge",
        "dtypes": "float64, float32",
    }


def cases(tier):
    t = tier == "thorough"
    out = []
    for k in [2, 3, 4]:
        if k < 4 or t:
            shp = itertools.product([1, 2, 3], repeat=k)
        else:
            shp = [(2, 3, 2, 2), (3, 1, 2, 2), (1, 2, 3, 3), (2, 2, 2, 2), (3, 2, 1, 4), (1, 1, 2, 1)]
        for s in shp:
            for m in range(1, k):
                for left in itertools.combinations(range(k), m):
                    out.append(["part", list(s), list(left), t])
    # sizes beyond those
    big = [(12, 2), (2, 12), (16, 3), (3, 17), (9, 9), (40, 5), (5, 41), (100, 2), (33, 33), (4, 5, 4), (8, 2, 2, 8)]
    for s in big + ([(64, 64), (65, 20), (200, 3), (6, 6, 6), (10, 3, 10)] if t else []):
        for m in range(1, len(s)):
            for left in itertools.combinations(range(len(s)), m):
                out.append(["big", list(s), list(left), t])
    out += [["exact", m, n] for m in range(1, 5) for n in range(1, 5)]
    return out


def family(shape, left, right):
    """Named tensors, in the matrix layout left x right (then moved to shape)"""
    L = int(np.prod([shape[i] for i in left]))
    R = int(np.prod([shape[i] for i in right]))
    k = min(L, R)
    gen = ref.vals((L, R), "svd", shape, left) + 0.25 * ref.vals((L, R), "svd2", shape, left)
    gen = gen + 0.01 * np.arange(L * R).reshape(L, R)
    yield "generic", gen
    yield "tiny", gen * 1e-8
    yield "huge", gen * 1e8
    if k > 1:
        yield "rank one", np.outer(np.arange(1, L + 1), np.arange(2, R + 2)) * 1.0
        yield "repeated", np.eye(L, R)
        d = np.zeros((L, R))
        for i in range(k):
            d[L - 1 - i, i] = [4.0, 4.0, 1.0, 1.0, 0.5, 0.5][i % 6]
        yield "pairs", d
        # spectra over many orders of magnitude, and rows of different scales
        us, _, vt = np.linalg.svd(gen, full_matrices=False)
        yield "graded", us @ np.diag(10.0 ** (-4.0 * np.arange(k))) @ vt if k < 4 else us @ np.diag(
            np.geomspace(1, 1e-8, k)
        ) @ vt
        yield "scaled rows", gen * np.geomspace(1, 1e-6, L)[:, None]
    if k > 2:
        yield "rank two", gen[:, :2] @ gen[:2, :]


def to_tensor(mat, shape, left, right):
    arr = mat.reshape([shape[i] for i in left] + [shape[i] for i in right])
    inv = np.argsort(list(left) + list(right))
    return arr.transpose(inv)


def strings(k, left, right, every):
    names = "abcd"[:k]
    lefts = list(itertools.permutations([names[i] for i in left]))
    rights = list(itertools.permutations([names[i] for i in right]))
    for lp, rp in itertools.product(lefts, rights):
        for i in range(len(lp) + 1):
            for j in range(len(rp) + 1):
                if not every and lp != lefts[0] and (i, j) not in ((0, 0), (len(lp), 0), (1, len(rp))):
                    continue
                yield "".join(lp[:i]) + "u" + "".join(lp[i:]), "".join(rp[:j]) + "u" + "".join(rp[j:])


def check(arr, mat, init, ls, rs, left, right, max_D, cutoff, sv_right, dtype, ctx, kept=None, vec=True):
    """One call against the reference; returns the number kept"""
    from torchmps.utils import svd_flex
    svd_flex = fresh(svd_flex)

    svs = np.linalg.svd(mat, compute_uv=False)
    k = len(svs)
    keep = min(k, max_D) if max_D else k
    lead = svs[:keep]
    want_k = int((lead >= cutoff).sum()) if kept is None else kept
    info = dict(shape=arr.shape, string=f"{init}->{ls},{rs}", max_D=max_D, cutoff=cutoff, sv_right=sv_right)
    size = max_D or k
    t = tens(arr, dtype)
    before = t.clone()
    sv_vec = torch.full([size], -7.0, dtype=dtype) if vec else None
    args = dict(cutoff=cutoff, sv_right=sv_right)
    if max_D is not None:
        args["max_D"] = max_D
    if vec:
        args["sv_vec"] = sv_vec
    tol = 1e-11 if dtype == torch.float64 else 1e-5
    big = svs[0] if svs[0] > 0 else 1.0
    if want_k == 0 and cutoff == 0:
        want_k = keep
    try:
        lt, rt, bond = svd_flex(t, f"{init}->{ls},{rs}", **args)
    except RuntimeError:
        expect(want_k == 0, "failed although singular values remain", **info)
        ctx.add("rejected_all_below_cutoff")
        return 0
    expect(torch.equal(t, before), "input modified", **info)
    # numerically zero singular values at cutoff zero may fall on either side
    if not (cutoff == 0 or kept is not None):
        expect(int(bond) == want_k, f"kept {bond} singular values, want {want_k}", **info)
    bond = int(bond)
    expect(want_k > 0 and 1 <= bond <= keep, f"kept {bond}", **info)
    D = max_D or bond
    dims = dict(zip(init, arr.shape), u=D)
    expect(tuple(lt.shape) == tuple(dims[c] for c in ls), f"left shape {tuple(lt.shape)}", **info)
    expect(tuple(rt.shape) == tuple(dims[c] for c in rs), f"right shape {tuple(rt.shape)}", **info)
    expect(lt.dtype == dtype and rt.dtype == dtype, "dtype of the factors", **info)
    la, ra = np64(lt), np64(rt)
    # contraction of the factors, in the layout of the input
    prod = np.einsum(f"{ls},{rs}->{init}", la, ra)
    expect(np.all(np.isfinite(prod)), "not finite", **info)
    resid = np.linalg.norm(prod - arr)
    best = np.sqrt((svs[bond:] ** 2).sum())
    expect(abs(resid - best) <= 10 * tol * big * np.sqrt(k), f"error {resid}, best possible {best}", **info)
    # spectrum of the product: the kept values and nothing else
    pm = np.einsum(f"{ls},{rs}->" + "".join("abcd"[i] for i in list(left) + list(right)), la, ra)
    psv = np.linalg.svd(pm.reshape(mat.shape), compute_uv=False)
    wsv = np.where(np.arange(k) < bond, svs, 0)
    expect(np.abs(psv - wsv).max() <= 10 * tol * big, "spectrum of the product", **info, got=psv, want=wsv)
    # the factor without singular values is orthonormal on the kept bond, and
    # both vanish on the padding
    lm = np.moveaxis(la, ls.index("u"), -1).reshape(-1, D)
    rm = np.moveaxis(ra, rs.index("u"), -1).reshape(-1, D)
    plain, scaled = (lm, rm) if sv_right else (rm, lm)
    eye = np.diag((np.arange(D) < bond) * 1.0)
    expect(np.abs(plain.T @ plain - eye).max() <= 10 * tol, "isometric factor", **info)
    expect(
        np.abs(scaled.T @ scaled - np.diag(np.pad(svs[:bond] ** 2, (0, D - bond)))).max()
        <= 20 * tol * big**2, "factor with the singular values", **info,
    )
    expect(not scaled[:, bond:].any() and not plain[:, bond:].any(), "padding is not zero", **info)
    if vec:
        got = np64(sv_vec)
        want = np.pad(svs[:keep], (0, size - keep))
        expect(np.abs(got - want).max() <= tol * big, "sv_vec", **info, got=got, want=want)
        expect(np.all(np.diff(got) <= tol * big), "sv_vec is not descending", **info)
    return bond


def cutoffs(svs):
    """Values away from every singular value, and zero"""
    svs = np.unique(np.round(svs, 12))[::-1]
    out = [1e-14 * max(svs[0], 1e-300)]
    pts = [s for s in svs if s > 1e-9 * svs[0]]
    for a, b in zip(pts, pts[1:] + [pts[-1] * 0.2]):
        if a - b > 1e-6 * pts[0]:
            out.append((a + b) / 2)
        if a > 10 * b > 0 and b > 1e-9 * pts[0]:
            out.append((a * b) ** 0.5)
    out.append(pts[0] * 1.5)
    return out


def run_case(case, ctx):
    torch.set_default_dtype(torch.float32)
    if case[0] == "exact":
        return run_exact(case[1], case[2], ctx)
    kind, shape, left, thorough = case
    thorough = thorough and kind == "part"
    shape = tuple(shape)
    k = len(shape)
    right = [i for i in range(k) if i not in left]
    init = "abcd"[:k]
    for fam, mat in family(shape, left, right):
        arr = to_tensor(mat, shape, left, right)
        svs = np.linalg.svd(mat, compute_uv=False)
        rank = len(svs)
        first = True
        for ls, rs in strings(k, left, right, thorough):
            # all cutoffs and sizes for the first order of the indices (and in
            # the thorough tier), the interesting ones for every other order
            first_order = first
            full = first or (thorough and k < 4)
            first = False
            sizes = [None] + list(range(1, rank + 3)) if full else [None, max(1, rank - 1), rank + 1]
            cuts = cutoffs(svs)
            if kind == "big":
                sizes = sorted({1, 2, rank // 2 + 1, rank - 1, rank, rank + 1, rank + 7} - {0})
                sizes = [None] + sizes if first_order else [rank]
                cuts = cuts[:: max(1, len(cuts) // 6)]
            if not full:
                cuts = cuts[:2]
            if fam != "generic" and not full:
                continue
            for max_D, cut, right_side in itertools.product(sizes, cuts, [True, False]):
                for dtype in [torch.float64, torch.float32] if full else [torch.float64]:
                    if dtype == torch.float32 and cut < 1e-5 * svs[0]:
                        continue
                    b = check(arr, mat, init, ls, rs, left, right, max_D, cut, right_side, dtype, ctx,
                              vec=not (max_D is None and right_side))
                    ctx.eval((fam, ls, rs, max_D, cut, right_side, str(dtype)), nontrivial=b < rank or (max_D or 0) > b)
                    ctx.outcome((shape, tuple(left), fam, max_D, b))
        if fam == "generic":
            # order of the characters in init, spaces, memory layout
            from torchmps.utils import svd_flex
            svd_flex = fresh(svd_flex)

            for perm in itertools.permutations(range(k)):
                t = tens(arr, torch.float64).permute(perm)
                init2 = "".join(init[i] for i in perm)
                ls = "".join(init[i] for i in left) + "u"
                rs = "u" + "".join(init[i] for i in right)
                lt, rt, b = svd_flex(t, f" {init2} -> {ls} , {rs} ", cutoff=1e-13)
                prod = np.einsum(f"{ls},{rs}->{init}", np64(lt), np64(rt))
                same(prod, arr, 1e-11, "product of the factors", perm=perm)
                wrong = torch.zeros(rank + 1)
                try:
                    svd_flex(t, f"{init2}->{ls},{rs}", cutoff=1e-13, sv_vec=wrong)
                    bad = True
                except TypeError:
                    bad = False
                expect(not bad, "sv_vec of the wrong size is accepted")
                ctx.eval(("perm", perm), n=2)
    # zero tensor: nothing remains
    z = np.zeros(shape)
    ls = "".join(init[i] for i in left) + "u"
    rs = "u" + "".join(init[i] for i in right)
    L = int(np.prod([shape[i] for i in left]))
    check(z, z.reshape(L, -1), init, ls, rs, left, right, None, 1e-10, True, torch.float64, ctx)
    ctx.sample({"shape": shape, "left": left, "singular values": svs.tolist()})


def run_exact(m, n, ctx):
    """
    Spectra that are exact in floating point (one entry per row and column), so
    that the cutoff can equal a singular value, which is then kept
    """
    for spectrum in [[8.0, 4.0, 2.0, 1.0], [2.0**e for e in [70, 30, -5, -33]]]:
        run_spectrum(m, n, spectrum[: min(m, n)], ctx)
    ctx.sample({"size": [m, n], "spectrum": spectrum})


def run_spectrum(m, n, spectrum, ctx):
    k = len(spectrum)
    for rows in itertools.permutations(range(m), k):
        mat = np.zeros((m, n))
        for i, r in enumerate(rows):
            mat[r, i] = spectrum[i] * (-1 if (i + r) % 2 else 1)
        middle = [(a + b) / 2 for a, b in zip(spectrum, spectrum[1:] + [0.0])]
        for cut in spectrum + middle:
            for max_D in [None] + list(range(1, k + 3)):
                keep = min(k, max_D) if max_D else k
                want = sum(s >= cut for s in spectrum[:keep])
                from torchmps.utils import svd_flex
                svd_flex = fresh(svd_flex)

                for dtype in [torch.float64, torch.float32]:
                    t = tens(mat, dtype)
                    lt, rt, b = svd_flex(t, "ab->au,ub", max_D=max_D, cutoff=cut)
                    info = dict(mat=mat, cutoff=cut, max_D=max_D, dtype=str(dtype))
                    expect(int(b) == want, f"kept {b}, want {want}", **info)
                    approx = np.where(np.isin(np.abs(mat), spectrum[:want]), mat, 0)
                    tol = 1e-13 if dtype == torch.float64 else 1e-6
                    expect(np.all(np.abs(np64(lt @ rt) - approx) <= tol * np.abs(approx)), "truncated tensor", **info)
                    ctx.eval((rows, cut, max_D, str(dtype)), nontrivial=want < k)

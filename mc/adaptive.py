"""
Reference model of an adaptive MPS.

The chain of active cores is read from the model as a list of
(kind, array) with kind in

    pair    array [l, r, i, j]   two merged inputs
    site    array [l, r, i]      one input
    outin   array [o, l, r, i]   output core merged with an input
    out     array [o, l, r]      output core
"""
import numpy as np

from .core import Violation
from .mpsutil import np64, put
from .ref import gen


def active_modules(model):
    return list(model.linear_region.module_list)


def active_chain(model):
    chain = []
    for m in active_modules(model):
        t = np64(m.tensor)
        n = len(m)
        if t.ndim == 5:
            chain += [("pair", a) for a in t]
        elif t.ndim == 4 and n == 1:
            chain.append(("outin", t))
        elif t.ndim == 3 and n == 1:
            chain.append(("site", t))
        elif t.ndim == 3 and n == 0:
            chain.append(("out", t))
        elif t.ndim == 4:
            chain += [("site", a) for a in t]
        else:
            raise Violation(f"core of shape {t.shape} taking {n} inputs")
    return chain


def inputs_of(kind):
    return {"pair": 2, "site": 1, "outin": 1, "out": 0}[kind]


def contract_chain(chain, x, periodic):
    """x: [B, n, d]; returns [B, o]"""
    B = x.shape[0]
    pos = 0
    left, outc, right = None, None, None
    for kind, a in chain:
        k = inputs_of(kind)
        xs = x[:, pos : pos + k]
        pos += k
        if kind == "pair":
            m = np.einsum("lrij,bi,bj->blr", a, xs[:, 0], xs[:, 1])
        elif kind == "site":
            m = np.einsum("lri,bi->blr", a, xs[:, 0])
        elif kind == "outin":
            m = np.einsum("olri,bi->bolr", a, xs[:, 0])
        else:
            m = np.broadcast_to(a, (B,) + a.shape)
        if m.ndim == 4:
            if outc is not None:
                raise Violation("two output cores in the chain")
            outc = m
        elif outc is None:
            left = m if left is None else left @ m
        else:
            right = m if right is None else right @ m
    if pos != x.shape[1] or outc is None:
        raise Violation(f"chain takes {pos} inputs, model has {x.shape[1]}")
    full = outc
    if left is not None:
        full = left[:, None] @ full
    if right is not None:
        full = full @ right[:, None]
    if periodic:
        return np.einsum("boii->bo", full)
    return full[:, :, 0, 0].copy()


# -- merge shifts ----------------------------------------------------------


def build(n, label, D=2, d=2, o=2, periodic=False, T=2, cutoff=1e-10, par=False, **kw):
    from torchmps import MPS

    return MPS(
        input_dim=n, output_dim=o, bond_dim=D, feature_dim=d, periodic_bc=periodic,
        parallel_eval=par, label_site=label, adaptive_mode=True, cutoff=cutoff,
        merge_threshold=T, **kw,
    )


def fill_active(model, *tag, rank=None, scale=1.0):
    """Generic values (or generic values of low rank) for all active cores"""
    for k, m in enumerate(active_modules(model)):
        shape = tuple(m.tensor.shape)
        arr = scale * gen(shape, *tag, k)
        if rank and len(shape) >= 4:
            arr = low_rank(arr, rank, *tag, k)
        put(m.tensor, arr)


def low_rank(arr, rank, *tag):
    """Merged cores (pair stacks [s,l,r,i,j] or [o,l,r,i]) of the given rank"""
    shape = arr.shape
    if len(shape) == 5:
        s, l, r, i, j = shape
        a = gen([s, l, i, rank], "lr", *tag)
        b = gen([s, rank, r, j], "rr", *tag)
        return np.einsum("sliu,surj->slrij", a, b)
    o, l, r, i = shape
    # rank one in all groupings of the indices
    a, b, c, e = (gen([k], "f", z, *tag) for z, k in enumerate(shape))
    return np.einsum("o,l,r,i->olri", a, b, c, e)


def inactive_params(model):
    act = {id(m.tensor) for m in active_modules(model)}
    return [p for p in model.parameters() if id(p) not in act]


def as_matrix(kind, a, out_first):
    """Matrix whose rank is the bond inside a merged core, and its inverse"""
    if kind == "pair":
        t = a.transpose(0, 2, 1, 3)  # l i r j
    elif out_first:
        t = a.transpose(0, 1, 2, 3)  # o l | r i
    else:
        t = a.transpose(0, 2, 1, 3)  # o r | l i
    shape = t.shape
    m = t.reshape(shape[0] * shape[1], shape[2] * shape[3])

    def back(mat):
        u = mat.reshape(shape)
        if kind == "pair" or not out_first:
            return u.transpose(0, 2, 1, 3)
        return u

    return m, back


def split(chain, label, D, cutoff, eps):
    """
    What a merge shift does to a chain of merged cores

    Returns (chain of the same kinds after truncation, {bond: (svs, lo, hi)},
    ambiguous) where lo..hi are the admissible numbers of kept singular values
    given rounding errors of size eps, and ambiguous says whether that (or a
    degenerate spectrum at the cap) leaves the truncated tensor undetermined.
    """
    out, bonds, ambiguous = [], {}, False
    pos_core, pos_in = 0, 0
    for kind, a in chain:
        if kind in ("pair", "outin"):
            m, back = as_matrix(kind, a, pos_in == label)
            u, s, v = np.linalg.svd(m, full_matrices=False)
            tol = eps * max(s[0], 1e-300)
            lo = min(D, int((s >= cutoff + tol).sum()))
            hi = min(D, int((s >= cutoff - tol).sum()))
            keep = min(D, int((s >= cutoff).sum()))
            big = 1e4 * tol
            if lo != hi and s[lo] > big:
                ambiguous = True
            if keep == D and len(s) > D and s[D] > big and s[D - 1] - s[D] < 1e-5 * s[0]:
                ambiguous = True
            svs = np.zeros(D)
            svs[: min(D, len(s))] = s[:D]
            bonds[pos_core + 1] = (svs, lo, hi)
            out.append((kind, back((u[:, :keep] * s[:keep]) @ v[:keep])))
            pos_core += 2
        else:
            out.append((kind, a))
            pos_core += 1
        pos_in += inputs_of(kind)
    return out, bonds, ambiguous


def merged_bonds(n, offset):
    """Bonds inside the merged cores of a merge state (chain of n+1 cores)"""
    return [k + 1 for k in range(offset, n, 2)]

"""
Reference models, written with numpy only and with plain loops.

Nothing in this file imports or resembles the code under test: a model is a
list of cores, and its value is the product of its matrices in order.
"""
import hashlib

import numpy as np


def vals(shape, *tag, lo=-3, hi=3, div=1.0, nonzero=False):
    """Deterministic array of small integers over div, a function of the tag"""
    seed = int.from_bytes(hashlib.blake2b(repr(tag).encode(), digest_size=8).digest(), "big")
    rng = np.random.Generator(np.random.Philox(seed))
    out = rng.integers(lo, hi + 1, size=shape).astype(np.float64)
    if nonzero:
        out[out == 0] = hi
    return out / div


def gen(shape, *tag):
    """Deterministic generic (normally distributed) array, a function of the tag"""
    seed = int.from_bytes(hashlib.blake2b(repr(("gen",) + tag).encode(), digest_size=8).digest(), "big")
    return np.random.Generator(np.random.Philox(seed)).normal(size=tuple(shape))


def onehots(d):
    return np.eye(d)


def grid(values, n):
    """All n-tuples over values, as an array of shape [len(values)**n, n]"""
    out = np.array(np.meshgrid(*[np.arange(len(values))] * n, indexing="ij"))
    idx = out.reshape(n, -1).T
    return np.asarray(values)[idx]


# -- fixed-bond MPS -------------------------------------------------------


def mps_output(cores, out_core, label, x, periodic, bias=None):
    """
    cores:    array [n, D, D, d];  out_core: [o, D, D];  x: [B, n, d]
    bias:     None or list of n matrices
    """
    B, n, _ = x.shape
    o, D = out_core.shape[:2]
    res = np.zeros([B, o])
    for b in range(B):
        mats = []
        for s in range(n):
            m = np.zeros([D, D])
            for i in range(x.shape[2]):
                m = m + cores[s][:, :, i] * x[b, s, i]
            if bias is not None:
                m = m + bias[s]
            mats.append(m)
        left = np.eye(D)
        for m in mats[:label]:
            left = left @ m
        right = np.eye(D)
        for m in mats[label:]:
            right = right @ m
        for k in range(o):
            full = left @ out_core[k] @ right
            res[b, k] = np.trace(full) if periodic else full[0, 0]
    return res


def mps_output_fast(cores, out_core, label, x, periodic, bias=None):
    """Same function, vectorized over the batch (checked against mps_output)"""
    B, n, _ = x.shape
    D = out_core.shape[1]
    mats = np.einsum("slri,bsi->sblr", cores, x) if n else np.zeros([0, B, D, D])
    if bias is not None and n:
        mats = mats + np.asarray(bias)[:, None]
    left = np.broadcast_to(np.eye(D), [B, D, D])
    for s in range(label):
        left = np.matmul(left, mats[s])
    right = np.broadcast_to(np.eye(D), [B, D, D])
    for s in range(label, n):
        right = np.matmul(right, mats[s])
    full = np.einsum("bij,ojk,bkl->boil", left, out_core, right)
    if periodic:
        return np.einsum("boii->bo", full)
    return full[:, :, 0, 0].copy()


# -- sequence MPS ----------------------------------------------------------


def ti_output(core, init_vec, term_mat, x, bias=None):
    """core [D, D, d], init_vec [D], term_mat [D, o], x [L, d] (one sequence)"""
    v = init_vec.copy()
    for t in range(x.shape[0]):
        m = np.zeros(core.shape[:2])
        for i in range(x.shape[1]):
            m = m + core[:, :, i] * x[t, i]
        if bias is not None:
            m = m + bias
        v = v @ m
    return v @ term_mat


# -- Born machines ---------------------------------------------------------


class Scaled:
    """value * exp(log) with a value kept near one, for over/underflow"""

    @staticmethod
    def chain(start, mats, end):
        """Returns (amplitude, log) for start @ prod(mats) @ end"""
        v, log = np.asarray(start), 0.0
        s = np.abs(v).max()
        if s == 0:
            return 0.0, 0.0
        v, log = v / s, log + np.log(s)
        for m in mats:
            v = v @ m
            s = np.abs(v).max()
            if s == 0:
                return 0.0, 0.0
            v, log = v / s, log + np.log(s)
        return v @ np.asarray(end), log


def slice_mats(cores, seq, bias=None):
    """Matrices selected by one sequence of indices [n] or vectors [n, d]"""
    seq = np.asarray(seq)
    out = []
    for t in range(len(seq)):
        core = cores[t] if bias is None else cores[t] + bias
        if seq.ndim == 1:
            m = core[int(seq[t])]
        else:
            m = sum(core[i] * seq[t][i] for i in range(core.shape[0]))
        out.append(m)
    return out


def log_amp2(cores, edges, seq, bias=None):
    """log |amplitude|^2 of one sequence; cores is a list of [d, D, D]"""
    a, log = Scaled.chain(edges[0], slice_mats(cores, seq, bias), edges[1])
    if abs(a) == 0:
        return -np.inf
    return 2 * (np.log(abs(a)) + log)


def log_norm2(cores, edges, bias=None, lamb=None):
    """log of sum_ij.. of psi_i.. Lambda_ij.. conj(psi_j..) (transfer matrices)"""
    dm = np.outer(edges[0], np.conj(edges[0])).astype(complex)
    log = 0.0
    for core in cores:
        c = core if bias is None else core + bias
        d = c.shape[0]
        lam = np.eye(d) if lamb is None else np.asarray(lamb)
        new = np.zeros_like(dm)
        s = np.abs(dm).max()
        dm, log = dm / s, log + np.log(s)
        for i in range(d):
            for j in range(d):
                if lam[i, j] != 0:
                    new = new + lam[i, j] * (c[i].T @ dm @ np.conj(c[j]))
        dm = new
    tot = edges[1] @ dm @ np.conj(edges[1])
    return np.log(abs(tot)) + log


# -- comparison ------------------------------------------------------------


def err(got, want):
    """Largest difference relative to the largest wanted magnitude"""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return np.inf
    if want.size == 0:
        return 0.0
    if not np.all(np.isfinite(got)):
        return np.inf
    scale = max(1e-300, np.abs(want).max())
    if not np.any(want):
        return float(np.abs(got).max())
    return float(np.abs(got - want).max() / scale)

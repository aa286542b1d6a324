"""
Naive differentiable references (torch, plain loops and full sums).

They only use elementary operations (einsum over two operands, stack, sum, log)
on the parameter tensors, so that their derivatives by autograd are those of the
defining formulas.
"""
import itertools

import torch


def site_mat(core, vec, bias, first):
    """core [D, D, d] or [d, D, D] (first) contracted with vec [d], plus bias"""
    m = None
    for i in range(vec.shape[0]):
        t = (core[i] if first else core[:, :, i]) * vec[i]
        m = t if m is None else m + t
    return m if bias is None else m + bias


def mps(cores, out_core, label, x, periodic, bias=None):
    """cores: list of [D, D, d]; x [B, n, d]; bias: None or list of matrices"""
    rows = []
    for b in range(x.shape[0]):
        mats = [
            site_mat(c, x[b, s], None if bias is None else bias[s], False)
            for s, c in enumerate(cores)
        ]
        outs = []
        for k in range(out_core.shape[0]):
            chain = mats[:label] + [out_core[k]] + mats[label:]
            full = chain[0]
            for m in chain[1:]:
                full = full @ m
            outs.append(full.diagonal().sum() if periodic else full[0, 0])
        rows.append(torch.stack(outs))
    return torch.stack(rows)


def adaptive(chain, x, periodic):
    """chain: list of (kind, tensor) as in mc/adaptive.py, tensors differentiable"""
    rows = []
    for b in range(x.shape[0]):
        pos, full = 0, None
        for kind, t in chain:
            if kind == "pair":
                m = torch.einsum("lrij,i->lrj", t, x[b, pos]) @ x[b, pos + 1]
                m, pos = m[None], pos + 2
            elif kind == "site":
                m, pos = (t @ x[b, pos])[None], pos + 1
            elif kind == "outin":
                m, pos = t @ x[b, pos], pos + 1
            else:
                m = t
            full = m if full is None else full @ m
        rows.append(full.diagonal(dim1=1, dim2=2).sum(-1) if periodic else full[:, 0, 0])
    return torch.stack(rows)


def ti(core, vec, mat, seqs, bias=None):
    rows = []
    for x in seqs:
        v = vec
        for t in range(x.shape[0]):
            v = v @ site_mat(core, x[t], bias, False)
        rows.append(v @ mat)
    return torch.stack(rows)


def amplitude(cores, edges, vecs, bias=None):
    v = edges[0]
    for c, x in zip(cores, vecs):
        m = sum((c[i] if bias is None else c[i] + bias) * x[i] for i in range(c.shape[0]))
        v = v @ m
    return (v * edges[1]).sum()


def log_prob(cores, edges, seqs, points, weights, bias=None):
    """
    seqs [B, n, d] embedded inputs; points [m, d] and weights [m]: the embedded
    domain.  The norm is the sum over all m**n sequences.
    """
    n = len(cores)
    norm = 0.0
    for s in itertools.product(range(len(points)), repeat=n):
        a = amplitude(cores, edges, [points[i] for i in s], bias)
        w = 1.0
        for i in s:
            w = w * weights[i]
        norm = norm + w * (a * a.conj()).real
    out = []
    for x in seqs:
        a = amplitude(cores, edges, list(x), bias)
        out.append(torch.log((a * a.conj()).real) - torch.log(norm))
    return torch.stack(out)

"""C21: log norms are those of the whole amplitude tensor"""
import itertools

import numpy as np
import torch

from . import ref
from .mpsutil import expect, fresh, np64, put, tens
from .ref import gen, grid

LEVEL = "exploration"
RULE = (
    "Every shape, kind of weight matrix, kind of numbers and way to give the cores in the bounds, with generic "
    "values against the explicit sum over all pairs of index sequences; every 0/1 core and pair of boundary "
    "vectors of the tiny shapes; every history of edits and calls up to a depth. Non-trivial: every nonzero tensor."
)
ASSUMPTIONS = ["amplitude tensors that are exactly zero have no log norm and are left out"]

LAMB = ["none", "scalar", "diagonal", "identity", "real", "complex", "low rank"]
NUM = ["float64", "complex128", "float32", "complex64"]


def bounds(tier):
    t = tier == "thorough"
    return {
        "generic": f"length 0..{5 if t else 4}, alphabet 1..3, bond 1..3, {LAMB}, {NUM}, shared and separate cores",
        "wide": "bond up to 65, alphabet up to 64, lengths 1, 2, 5 against transfer matrices",
        "models": "both Born machines of these sizes, with and without bias, real/complex, embeddings by orthogonal and other tables, on intervals and trainable",
        "0/1": f"all 0/1 entries of one core with D=2, d=2 and of both boundary vectors, lengths 1..{5 if t else 3}; "
        "all pairs of 0/1 cores with D=2, d=1; with three weights",
        "long": f"lengths up to {4000 if t else 1000}, cores scaled by 1e-120..1e120, alternating scales",
        "histories": f"all sequences of {5 if t else 4} calls, edits and model switches on the function and on models",
    }


def cases(tier):
    t = tier == "thorough"
    out = []
    for n in range(0, 6 if t else 5):
        for d, D in itertools.product([1, 2, 3], repeat=2):
            for num in NUM:
                out.append(["generic", n, d, D, num])
    for unif in [False, True]:
        for n in range(0 if unif else 1, 6 if t else 5):
            out.append(["model", unif, n])
    for part in range(16):
        out.append(["zeroone", part])
    out.append(["pairs"])
    for n in [10, 100, 1000] + ([4000] if t else []):
        for D in [1, 2, 4]:
            for lamb in LAMB:
                out.append(["long", n, D, lamb])
    for lamb in LAMB:
        for num in NUM:
            if lamb != "complex" or num.startswith("complex"):
                out.append(["wide", lamb, num])
    for target in ["function", "function complex", "fixed", "fixed bias", "fixed embed", "unif", "unif bias complex", "unif embed", "train"]:
        out.append(["history", target])
    return out


def weight(case):
    return {"generic": case[1] if case[0] == "generic" else 0, "model": 5, "zeroone": 8, "history": 30, "long": 3, "pairs": 3, "wide": 3}[case[0]]


def lamb_mat(kind, d, *tag):
    if kind == "none":
        return None
    if kind == "scalar":
        return np.array(0.37)
    if kind == "diagonal":
        return np.abs(gen([d], "lamb", *tag)) + 0.1
    if kind == "identity":
        return np.eye(d)
    rank = 1 if kind == "low rank" else d + 1
    v = gen([rank, d], "lamb", *tag)
    if kind == "complex":
        v = v + 1j * gen([rank, d], "lambi", *tag)
    return np.einsum("mi,mj->ij", v, v.conj())


def full(lamb, d):
    if lamb is None:
        return np.eye(d)
    return lamb * np.eye(d) if lamb.ndim == 0 else np.diag(lamb) if lamb.ndim == 1 else lamb


def explicit(cores, edges, lamb, d):
    """Sum over all pairs of sequences; also the same with absolute values"""
    psi, size = np.array(edges[0])[None], np.abs(edges[0])[None]
    for c in cores:  # [.., D] -> [.., d, D]
        psi = np.einsum("sl,ilr->sir", psi, c).reshape(-1, c.shape[-1])
        size = np.einsum("sl,ilr->sir", size, np.abs(c)).reshape(-1, c.shape[-1])
    psi, size = psi @ edges[1], size @ np.abs(edges[1])
    lam = full(lamb, d)
    big = np.ones([1, 1])
    for _ in cores:
        big = np.kron(big, lam)
    return (psi @ big @ psi.conj()).real, size @ np.abs(big) @ size


def numbers(shape, num, *tag):
    a = gen(shape, "re", *tag)
    if num.startswith("complex"):
        a = a + 1j * gen(shape, "im", *tag)
    dt = getattr(torch, num)
    t = torch.as_tensor(a).to(dt)
    return t, np64(t)


def close(got, value, cond, tol, what, **info):
    expect(isinstance(got, torch.Tensor) and got.shape == () and not got.is_complex(), f"{what}: not a real scalar", **info)
    want = np.log(value)
    d = abs(float(got) - want)
    expect(d <= tol * (cond / value + abs(want) + 1), f"{what}: log norm {float(got)!r}, want {want!r}", **info)


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    globals()["run_" + case[0]](ctx, *case[1:])


def run_generic(ctx, n, d, D, num):
    from torchmps.mps_base import get_log_norm
    get_log_norm = fresh(get_log_norm)

    single = num in ("float32", "complex64")
    if single:
        torch.set_default_dtype(torch.float32)
    tol = 2e-5 if single else 1e-12
    for lk in LAMB:
        if lk == "complex" and not num.startswith("complex"):
            continue
        lamb = lamb_mat(lk, d, n)
        lt = None if lamb is None else tens(lamb)
        if lk == "complex" and single:
            lt = torch.as_tensor(lamb).to(torch.complex64)
        for shared in [True, False]:
            if not shared and n == 0:
                continue
            for rep in range(2):
                core, ca = numbers([d, D, D] if shared else [n, d, D, D], num, n, d, D, rep)
                edges, ea = numbers([2, D], num, "edge", n, D, rep)
                value, cond = explicit([ca] * n if shared else ca, ea, lamb, d)
                info = dict(length=n, d=d, D=D, numbers=num, lamb=lk, shared=shared)
                if value <= 1e-6 * cond:
                    ctx.add("ill_conditioned")
                    continue
                before = [core.clone(), edges.clone(), None if lt is None else lt.clone()]
                kws = [dict(length=n)] + ([] if shared else [dict()])
                for kw in kws:
                    got = get_log_norm(core, edges, lamb_mat=lt, **kw)
                    close(got, value, cond, tol, "explicit sum", **info)
                close(get_log_norm(core, edges, n, lt), value, cond, tol, "arguments by position", **info)
                # list of boundary vectors in place of the matrix is not promised; other layouts are
                tr = core.transpose(-1, -2).contiguous().transpose(-1, -2)
                close(get_log_norm(tr, edges.t().contiguous().t(), lamb_mat=lt, length=n), value, cond, tol, "other memory layout", **info)
                for a, b in zip(before, [core, edges, lt]):
                    expect(a is None or torch.equal(a, b), "inputs modified", **info)
                ctx.eval((lk, shared, rep), nontrivial=True)
                ctx.outcome(round(float(np.log(value)), 6))
                if not shared:
                    for bad in {n - 1, n + 1} - {0, -1}:
                        try:
                            get_log_norm(core, edges, length=bad, lamb_mat=lt)
                        except Exception:
                            continue
                        expect(False, "a length other than the number of cores was accepted", **info)
                else:
                    for kw in [dict(), dict(length=-1)]:
                        try:
                            got = get_log_norm(core, edges, lamb_mat=lt, **kw)
                        except Exception:
                            continue
                        expect(False, "a log norm without length was answered", got=got, **info)
    ctx.sample({"length": n, "alphabet": d, "bond": D})


def run_wide(ctx, lk, num):
    """Larger bonds and alphabets, against transfer matrices in double precision"""
    from torchmps.mps_base import get_log_norm
    get_log_norm = fresh(get_log_norm)

    single = num in ("float32", "complex64")
    if single:
        torch.set_default_dtype(torch.float32)
    eps = 3e-6 if single else 1e-13
    sizes = [(2, D) for D in [*range(4, 34), 48, 63, 64, 65]] + [(d, 2) for d in [*range(4, 20), 27, 32, 33, 64]]
    for d, D in sizes:
        lamb = lamb_mat(lk, d, "wide")
        lt = None if lamb is None else torch.as_tensor(lamb)
        if lt is not None and single:
            lt = lt.to(torch.complex64 if lk == "complex" else torch.float32)
        for n in [1, 2, 5]:
            core, ca = numbers([n, d, D, D], num, "wide", d, D)
            edges, ea = numbers([2, D], num, "wide edge", d, D)
            lam = None if lamb is None else full(lamb, d)
            want = ref.log_norm2(list(ca), ea, None, lam)
            # rounding is relative to the product of norms
            size = ref.log_norm2(list(np.abs(ca)), np.abs(ea), None, None if lam is None else np.abs(lam))
            tol = eps * (np.exp(size - want) + abs(want) + 1)
            info = dict(d=d, D=D, length=n, lamb=lk, numbers=num)
            got = get_log_norm(core, edges, lamb_mat=lt)
            # where rounding decides the leading digits nothing is claimed
            expect(tol > 0.1 or abs(float(got) - want) <= tol, f"log norm {float(got)!r}, want {want!r}", tolerance=tol, **info)
            ctx.add("ill_conditioned", int(tol > 0.1))
            want = ref.log_norm2([ca[0]] * n, ea, None, lam)
            size = ref.log_norm2([np.abs(ca[0])] * n, np.abs(ea), None, None if lam is None else np.abs(lam))
            tol = eps * (np.exp(size - want) + abs(want) + 1)
            got = get_log_norm(core[0], edges, length=n, lamb_mat=lt)
            expect(tol > 0.1 or abs(float(got) - want) <= tol, f"shared core: log norm {float(got)!r}, want {want!r}", tolerance=tol, **info)
            ctx.eval((d, D, n))
            ctx.outcome(round(want, 6))
    ctx.sample({"lamb": lk, "numbers": num})


def run_model(ctx, unif, n):
    """log_norm of both Born machines in every configuration"""
    from torchmps.embeddings import DataDomain, TrainableEmbedding
    from torchmps.prob_mps import ProbMPS, ProbUnifMPS

    from .kinds import Table

    for d, D, bias, cplx, emb in itertools.product(
        [1, 2, 3], [1, 2, 3], [False, True], [False, True], ["none", "table", "orthogonal", "multiple", "interval", "trainable"]
    ):
        kw, lamb = dict(use_bias=bias, complex_params=cplx), np.eye(d)
        info = dict(uniform=unif, length=n, d=d, D=D, bias=bias, complex=cplx, embedding=emb)
        if emb == "interval":
            a = gen([2, d], "int", d)
            at = torch.as_tensor(a)
            kw.update(
                embed_fun=lambda x: at[0] + at[1] * x[..., None], domain=DataDomain(continuous=True, min_val=-1, max_val=2)
            )
            pts = np.linspace(-1, 2, 1000)
            v = a[0] + a[1] * pts[:, None]
            m = v[:, :, None] * v[:, None, :]
            lamb = ((m[1:] + m[:-1]) / 2).sum(0) * 3 / 999
        elif emb == "trainable":
            kw.update(embed_fun=TrainableEmbedding(Table(d + 1, d), DataDomain(continuous=False, max_val=d + 1)))
        elif emb != "none":
            table = {
                "table": gen([d + 1, d], "tab", d), "orthogonal": np.diag(1.0 + np.arange(d)), "multiple": 1.5 * np.eye(d)
            }[emb]
            tt = torch.as_tensor(table)
            kw.update(embed_fun=lambda x: tt[x], domain=DataDomain(continuous=False, max_val=len(table)))
            lamb = table.T @ table
        m = ProbUnifMPS(d, D, **kw) if unif else ProbMPS(n, d, D, **kw)
        for name, p in sorted(m.named_parameters()):
            a = gen(tuple(p.shape), "mod", name)
            put(p, a + 1j * gen(tuple(p.shape), "modi", name) if p.is_complex() else a)
        if emb == "trainable":
            table = np64(m.embedding.emb_module.weight)
            lamb = table.T @ table
        core = np64(m.core_tensors)
        cores = [core] * n if unif else list(core)
        if bias:
            b = np64(m.bias_mat)
            cores = [c + b for c in cores]
        value, cond = explicit(cores, np64(m.edge_vecs), lamb, d)
        if value <= 1e-6 * cond:
            ctx.add("ill_conditioned")
            continue
        for mode in ["train", "eval", "no_grad"]:
            m.train(mode == "train")
            with torch.set_grad_enabled(mode != "no_grad"):
                got = m.log_norm(n) if unif else m.log_norm()
            # nearly diagonal overlap matrices may be simplified (rtol 1e-5)
            close(got, value, cond, 1e-11 if emb in ("none", "trainable") else 2e-4, mode, **info)
        ctx.eval((d, D, bias, cplx, emb))
        ctx.outcome(round(float(np.log(value)), 6))
    ctx.sample(info)


def run_zeroone(ctx, part):
    """All 0/1 cores [2, 2, 2] and boundary vectors"""
    from torchmps.mps_base import get_log_norm
    get_log_norm = fresh(get_log_norm)

    lens = range(1, 4 if ctx.tier == "quick" else 6)
    lambs = [None, np.array([2.0, 1.0]), np.array([[2.0, 1.0], [1.0, 1.0]])]
    edge = [torch.as_tensor(e.reshape(2, 2)) for e in grid([0.0, 1.0], 4)]
    for code in range(part * 16, part * 16 + 16):
        c = np.array([(code >> k) & 1 for k in range(8)], float).reshape(2, 2, 2)
        core = torch.as_tensor(c)
        for k, e in enumerate(edge):
            for n in lens:
                for m, lamb in enumerate(lambs):
                    if ctx.tier == "quick" and (n + m + k) % 3 and n == 3:
                        continue
                    value, cond = explicit([c] * n, np64(e), lamb, 2)
                    if value == 0:
                        continue
                    got = get_log_norm(core, e, length=n, lamb_mat=None if lamb is None else torch.as_tensor(lamb))
                    close(got, value, cond, 1e-12, "0/1 core", core=c, edges=e, length=n, lamb=lamb)
                    ctx.eval((code, k, n, m))
                    ctx.outcome(value)
    ctx.sample({"core": c, "length": n})


def run_pairs(ctx):
    """All pairs and triples of 0/1 matrices (alphabet of size one)"""
    from torchmps.mps_base import get_log_norm
    get_log_norm = fresh(get_log_norm)

    mats = grid([0.0, 1.0], 4).reshape(-1, 1, 2, 2)
    for n in [2] if ctx.tier == "quick" else [2, 3]:
        for pick in itertools.product(range(16), repeat=n):
            c = mats[list(pick)]
            for k, e in enumerate([[[1, 0], [1, 1]], [[1, 1], [0, 1]], [[1, 2], [1, -1]], [[1, 0], [0, 1]]]):
                ea = np.array(e, float)
                value, cond = explicit(c, ea, None, 1)
                if value == 0:
                    continue
                got = get_log_norm(torch.as_tensor(c), torch.as_tensor(ea))
                close(got, value, cond, 1e-12, "0/1 matrices", cores=c, edges=ea)
                ctx.eval((pick, k))
                ctx.outcome(value)
    ctx.sample({"cores": c})


def run_long(ctx, n, D, lk):
    """Scales: the log norm of scaled cores is shifted by the logs of the scales"""
    from torchmps.mps_base import get_log_norm
    get_log_norm = fresh(get_log_norm)

    d = 2
    lamb = lamb_mat(lk, d, "long")
    cplx = lk == "complex"
    lt = None if lamb is None else torch.as_tensor(lamb)
    core, ca = numbers([d, D, D], "complex128" if cplx else "float64", "long", D)
    edges, ea = numbers([2, D], "complex128" if cplx else "float64", "ledge", D)
    profiles = {
        "one": lambda k: 0, "tiny": lambda k: -120, "huge": lambda k: 120,
        "alternating": lambda k: 110 * (-1) ** k, "waves": lambda k: 40 * (k % 5 - 2), "first": lambda k: 130 * (k == 0),
    }
    for name, f in profiles.items():
        scales = 10.0 ** np.array([float(f(k)) for k in range(n)])
        cores = ca[None] * scales[:, None, None, None]
        want = ref.log_norm2([ca] * n, ea, None, None if lamb is None else full(lamb, d)) + 2 * np.log(scales).sum()
        info = dict(length=n, D=D, lamb=lk, scales=name)
        got = float(get_log_norm(torch.as_tensor(cores), edges, lamb_mat=lt))
        expect(abs(got - want) <= 1e-10 * (np.abs(np.log(scales)).sum() * 2 + abs(want) + 1), f"log norm {got!r}, want {want!r}", **info)
        if len(set(scales)) == 1:
            got = float(get_log_norm(torch.as_tensor(cores[0]), edges, length=n, lamb_mat=lt))
            expect(abs(got - want) <= 1e-10 * (np.abs(np.log(scales)).sum() * 2 + abs(want) + 1), f"shared core: log norm {got!r}, want {want!r}", **info)
        ctx.eval((name,))
        ctx.outcome(round(want, 3))
    ctx.sample({"length": n, "lamb": lk})


# -- histories -----------------------------------------------------------------


class Fun:
    """The function on tensors that live through the history"""

    lens = [2, 3]

    def __init__(self, cplx):
        num = "complex128" if cplx else "float64"
        self.core, _ = numbers([2, 2, 2], num, "hist")
        self.edges, _ = numbers([2, 2], num, "histe")
        self.lamb = torch.as_tensor(lamb_mat("complex" if cplx else "real", 2, "h"))

    def call(self, n):
        from torchmps.mps_base import get_log_norm
        get_log_norm = fresh(get_log_norm)

        return get_log_norm(self.core, self.edges, length=n, lamb_mat=self.lamb)

    def want(self, n):
        return explicit([np64(self.core)] * n, np64(self.edges), np64(self.lamb), 2)

    def tensors(self):
        return [self.core, self.edges, self.lamb]

    def rebind(self):
        self.core = self.core.detach().clone() * 1.5
        self.lamb = self.lamb.clone()

    def mode(self):
        pass


class Model:
    def __init__(self, target):
        from torchmps.embeddings import DataDomain, TrainableEmbedding
        from torchmps.prob_mps import ProbMPS, ProbUnifMPS

        from .kinds import Table

        self.unif = target.startswith("unif") or target == "train"
        kw = dict(use_bias="bias" in target, complex_params="complex" in target)
        if "embed" in target:
            table = gen([3, 2], "t21", target)
            tt = torch.as_tensor(table)
            kw.update(embed_fun=lambda x: tt[x], domain=DataDomain(continuous=False, max_val=3))
            self.table = lambda: table
        elif target == "train":
            kw.update(embed_fun=TrainableEmbedding(Table(3, 2), DataDomain(continuous=False, max_val=3)))
            self.table = lambda: np64(self.m.embedding.emb_module.weight)
        else:
            self.table = lambda: np.eye(2)
        self.m = ProbUnifMPS(2, 2, **kw) if self.unif else ProbMPS(3, 2, 2, **kw)
        self.lens = [2, 3] if self.unif else [3]
        for name, p in sorted(self.m.named_parameters()):
            a = gen(tuple(p.shape), "m21", target, name)
            put(p, a + 1j * gen(tuple(p.shape), "i21", target, name) if p.is_complex() else a)

    def call(self, n):
        return self.m.log_norm(n) if self.unif else self.m.log_norm()

    def want(self, n):
        core = np64(self.m.core_tensors)
        cores = [core] * n if self.unif else list(core)
        if self.m.use_bias:
            b = np64(self.m.bias_mat)
            cores = [c + b for c in cores]
        t = self.table()
        return explicit(cores, np64(self.m.edge_vecs), np.einsum("mi,mj->ij", t, t), 2)

    def tensors(self):
        return list(self.m.parameters())

    def rebind(self):
        for p in self.m.parameters():
            p.data = p.data.clone() * 1.25

    def mode(self):
        self.m.train(not self.m.training)


OPS = ["call", "quiet call", "backward", "scale", "data edit", "rebind", "mode"]


def run_history(ctx, target):
    depth = 4 if ctx.tier == "quick" else 5
    for hist in itertools.product(OPS, repeat=depth):
        if hist[-1] == "mode" or not any(o in ("call", "quiet call", "backward") for o in hist[:-1]):
            continue
        ctx.trace = {"target": target, "history": hist}
        x = Fun("complex" in target) if target.startswith("function") else Model(target)
        for op in hist:
            if op == "call":
                x.call(x.lens[0])
            elif op == "quiet call":
                with torch.no_grad():
                    x.call(x.lens[-1])
            elif op == "backward":
                got = x.call(x.lens[-1])
                if got.requires_grad:
                    got.backward()
            elif op == "scale":
                with torch.no_grad():
                    for t in x.tensors():
                        t.mul_(0.8)
            elif op == "data edit":
                t = x.tensors()[0]
                t.data[0] += 0.5
            elif op == "rebind":
                x.rebind()
            else:
                x.mode()
        for n in x.lens:
            value, cond = x.want(n)
            for quiet in [True, False]:
                with torch.set_grad_enabled(not quiet):
                    got = x.call(n)
                close(got, value, cond, 1e-11, "after the history", target=target, history=hist, length=n, quiet=quiet)
            ctx.eval((hist, n))
            ctx.outcome(round(float(np.log(value)), 6))
        ctx.add("histories")
    ctx.trace = None
    ctx.sample({"target": target, "history": hist})

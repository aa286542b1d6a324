"""C09: Born-machine probabilities sum to one"""
import itertools

import numpy as np
import torch

from . import ref
from .kinds import Table
from .mpsutil import expect, np64, put, tens
from .ref import gen, grid, vals

LEVEL = "exploration"
RULE = (
    "raw: every configuration in the bounds, several parameter families and scales, all "
    "sequences over the alphabet as indices and as one-hot vectors, in every evaluation mode. "
    "ints: every assignment of small integers to all parameters of tiny models (those with a "
    "zero tensor skipped). table: embedded discrete domains, all index sequences. cont: "
    "continuous domains, product Gauss-Legendre rule. hist: every sequence up to a depth of "
    "parameter changes (and train/eval switches) of models with and without trainable "
    "embeddings, complete sums after each. Non-trivial: more "
    "than one sequence in the sum."
)
ASSUMPTIONS = ["Gauss-Legendre with 16 nodes integrates the (smooth) densities to below 1e-6"]
OPS = ["step", "edit embedding", "edit cores", "load", "zero entry", "double", "toggle"]
SCALES = {  # core scale, edge scale, per dtype
    "f32": [(1, 1), (1e-12, 1), (1e12, 1), (1, 1e-15), (1, 1e15), (1e9, 1e-9), (1e-6, 1e6)],
    "f64": [(1, 1), (1e-70, 1), (1e70, 1), (1, 1e-70), (1, 1e70), (1e60, 1e-60)],
}


def bounds(tier):
    t = tier == "thorough"
    return {
        "raw": f"n 1..{5 if t else 4}, alphabet 1..3, bond 1..3, real and complex, bias, f32 and f64",
        "wide": "complete sums with alphabets up to 5000 (n=1), 65 (n=2), 17 (n=3) and bond dimensions up to 65",
        "scales (cores, edges)": SCALES,
        "ints": "ProbMPS n=2,d=2,D=1 in {-1,0,1,2}^6; n=1,d=2,D=2 in {0,1}^12; uniform n=2,d=1,D=2 in {-1,0,1}^8",
        "embedding tables": "domain 1..4, dimension 1..3, scales 1e-5..1e5",
        "continuous": "trig, powers, complex phases, MLP on [0,1], [-1,3], [2,2.5]; n 1..2",
        "history depth": 4 if t else 3,
    }


def cases(tier):
    t = tier == "thorough"
    out = []
    for unif, n, d, D, cplx, bias in itertools.product(
        [False, True], range(1, 6 if t else 5), range(1, 4), range(1, 4), [False, True], [False, True]
    ):
        out.append(["raw", unif, n, d, D, cplx, bias])
        if D == 1 and d == 1 and n <= 3:
            out.append(["wide", unif, n, cplx, bias])
    for which in ["fixed", "site", "unif"]:
        for part in range(8):
            out.append(["ints", which, part])
    for unif, cplx, bias in itertools.product([False, True], repeat=3):
        for m in range(1, 5):
            for d in range(1, 4):
                out.append(["table", unif, cplx, bias, m, d])
        for fun in ["trig2", "trig3", "powers", "phases", "sin"]:
            if fun == "phases" and not cplx:
                continue
            for dom in [[0, 1], [-1, 3], [2, 2.5]]:
                out.append(["cont", unif, cplx, bias, fun, dom])
    for kind in ["plain", "table", "mlp", "mlp wide"]:
        for unif, cplx, bias in [(0, 0, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)]:
            for op in OPS:
                out.append(["hist", kind, unif, cplx, bias, op, 4 if t else 3])
    return out


def weight(case):
    return {"ints": 40, "raw": 3, "hist": 30}.get(case[0], 1)


def modes(bias):
    out = [("default", {}), ("parallel", dict(parallel_eval=True))]
    if not bias:
        out += [("slim", dict(slim_eval=True))]
    return out


def make(unif, n, d, D, cplx, bias, **kw):
    from torchmps import ProbMPS, ProbUnifMPS

    args = (d, D) if unif else (n, d, D)
    return (ProbUnifMPS if unif else ProbMPS)(*args, complex_params=bool(cplx), use_bias=bool(bias), **kw)


def fill(model, *tag, scale=(1, 1)):
    for name, p in model.named_parameters():
        if name not in ("core_tensors", "edge_vecs", "bias_mat"):
            continue
        arr = gen(tuple(p.shape), "c09", name, *tag)
        if p.is_complex():
            arr = arr + 1j * gen(tuple(p.shape), "c09i", name, *tag)
        put(p, arr * (scale[1] if name == "edge_vecs" else scale[0]))


def total(model, x, **kw):
    with torch.no_grad():
        lp = model(x, **kw)
    expect(lp.shape == (len(x),), f"log probabilities of shape {tuple(lp.shape)}")
    expect(not lp.is_complex(), "complex log probabilities")
    expect(not bool(torch.isnan(lp).any()), "log probability is nan")
    return float(np.exp(np64(lp)).sum())


def roundoff(model, n):
    """Bound on the relative rounding error of the norm: eps * condition number"""
    core, edges = np64(model.core_tensors), np64(model.edge_vecs)
    bias = np64(model.bias_mat) if model.use_bias else None
    cores = [core] * n if core.ndim == 3 else list(core)
    lamb = None
    if model.embedding is not None:
        with torch.no_grad():
            lamb = np64(torch.as_tensor(model.embedding.lamb_mat))
        if lamb.ndim < 2:
            lamb = lamb * np.eye(core.shape[-3])
    a = [np.abs(c) if bias is None else np.abs(c) + np.abs(bias) for c in cores]
    big = ref.log_norm2(a, np.abs(edges), None, None if lamb is None else np.abs(lamb))
    exact = ref.log_norm2(cores, edges, bias, lamb)
    single = model.edge_vecs.dtype in (torch.float32, torch.complex64)
    return 20 * (1.2e-7 if single else 2.3e-16) * float(np.exp(big - exact))


def run_case(case, ctx):
    globals()["run_" + case[0]](ctx, *case[1:])
    ctx.sample({"evaluations": ctx.evaluations})


def run_raw(ctx, unif, n, d, D, cplx, bias):
    seqs = grid(range(d), n)
    idx = torch.as_tensor(seqs)
    for prec in ["f32", "f64"]:
        dtype = torch.float32 if prec == "f32" else torch.float64
        torch.set_default_dtype(dtype)
        base = 1e-4 if prec == "f32" else 1e-11
        fams = [("near_eye", None), ("normal", None)] + [("generic", s) for s in SCALES[prec]]
        if prec == "f64":
            fams += [("double", (1, 1))]
        onehot = tens(np.eye(d)[seqs])
        for fam, scale in fams:
            if fam == "double":
                # model made in single precision, converted afterwards
                torch.set_default_dtype(torch.float32)
            model = make(unif, n, d, D, cplx, bias, init_method=fam if scale is None else "normal")
            if fam == "double":
                model = model.to(torch.complex128) if cplx else model.double()
                torch.set_default_dtype(torch.float64)
            if scale is not None:
                fill(model, n, d, D, scale=scale)
            if fam in ("near_eye", "normal") and bias:
                put(model.bias_mat, np64(model.bias_mat) + 0.3 * gen((D, D), "bias"))
            tol = base + roundoff(model, n)
            inputs = [("index", idx), ("vector", onehot)]
            for (iname, x), (mname, kw) in itertools.product(inputs, modes(bias)):
                ctx.trace = {"precision": prec, "family": fam, "scale": scale, "input": iname, "mode": mname}
                s = total(model, x, **kw)
                expect(abs(s - 1) <= tol, f"probabilities sum to {s!r}")
                ctx.eval(tuple(ctx.trace.values()), nontrivial=len(seqs) > 1, n=len(seqs))
            ctx.outcome(s)


def run_wide(ctx, unif, n, cplx, bias):
    """Complete sums over larger alphabets, and with larger bond dimensions"""
    sizes = [(d, 2) for d in {1: [*range(4, 34), 64, 65, 100, 257, 1000, 1025, 5000], 2: [*range(4, 34), 64, 65], 3: [*range(4, 13), 16, 17]}[n]]
    sizes += [(2, D) for D in list(range(4, 36)) + [64, 65]]
    for d, D in sizes:
        seqs = grid(range(d), n)
        for prec in ["f32", "f64"]:
            torch.set_default_dtype(torch.float32 if prec == "f32" else torch.float64)
            base = (1e-4 if prec == "f32" else 1e-11) * max(1, np.log(len(seqs)))
            model = make(unif, n, d, D, cplx, bias)
            fill(model, "wide", n, d, D, scale=(1 / np.sqrt(D), 1))
            tol = base + roundoff(model, n)
            inputs = [("index", torch.as_tensor(seqs)), ("vector", tens(np.eye(d)[seqs]))]
            for (iname, x), (mname, kw) in itertools.product(inputs[: 1 if len(seqs) > 1100 else 2], modes(bias)):
                ctx.trace = {"alphabet": d, "bond": D, "precision": prec, "input": iname, "mode": mname}
                s = total(model, x, **kw)
                expect(abs(s - 1) <= tol, f"probabilities sum to {s!r}")
                ctx.eval(tuple(ctx.trace.values()), n=len(seqs))
            ctx.outcome(s)


def run_ints(ctx, which, part):
    torch.set_default_dtype(torch.float64)
    n, d, D, unif, values = {
        "fixed": (2, 2, 1, False, [-1, 0, 1, 2]),
        "site": (1, 2, 2, False, [0, 1]),
        "unif": (2, 1, 2, True, [-1, 0, 1]),
    }[which]
    model = make(unif, n, d, D, False, False)
    idx = torch.as_tensor(grid(range(d), n))
    shapes = [tuple(model.core_tensors.shape), tuple(model.edge_vecs.shape)]
    k = [int(np.prod(s)) for s in shapes]
    for j, v in enumerate(itertools.product(values, repeat=sum(k))):
        if j % 8 != part:
            continue
        core, edges = np.reshape(v[: k[0]], shapes[0]), np.reshape(v[k[0] :], shapes[1])
        # exact integer amplitudes decide whether the tensor is zero
        amps = []
        for s in idx.tolist():
            r = edges[0]
            for t, i in enumerate(s):
                r = r @ (core if unif else core[t])[i]
            amps.append(int(r @ edges[1]))
        if not any(amps):
            ctx.add("zero tensors skipped")
            continue
        put(model.core_tensors, core.astype(float))
        put(model.edge_vecs, edges.astype(float))
        for mname, kw in modes(False):
            ctx.trace = {"parameters": v, "mode": mname}
            s = total(model, idx, **kw)
            expect(abs(s - 1) <= 1e-10, f"probabilities sum to {s!r}")
            ctx.eval((v, mname), n=len(idx))
        ctx.outcome(tuple(amps))


def tables(m, d, cplx):
    for name, scale in [("generic", 1.0), ("small", 1e-5), ("large", 1e5)]:
        a = gen([m, d], "table", m, d) * scale
        yield name, a
        if cplx:
            yield name + " complex", a + 1j * scale * gen([m, d], "tablei", m, d)
    yield "orthonormal", np.eye(max(m, d))[:m, :d] + (0 if m <= d else np.eye(m)[::-1][:, :d])
    yield "scaled unit vectors", np.array([[float(1 + i) * (i % d == j) for j in range(d)] for i in range(m)])
    yield "constant", np.ones([m, d])


def run_table(ctx, unif, cplx, bias, m, d):
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding

    for prec in ["f32", "f64"]:
        torch.set_default_dtype(torch.float32 if prec == "f32" else torch.float64)
        base = 1e-4 if prec == "f32" else 1e-11
        for name, table in tables(m, d, cplx):
            cdt = torch.complex64 if prec == "f32" else torch.complex128
            tt = tens(table, cdt if np.iscomplexobj(table) else None)
            domain = DataDomain(continuous=False, max_val=m)

            def fun(x):
                return tt[x]

            def trainable():
                mod = Table(m, d)
                mod.weight = torch.nn.Parameter(tt.clone())
                return TrainableEmbedding(mod, domain)

            for form in ["function", "fixed", "trainable"]:
                kw = {
                    "function": lambda: dict(embed_fun=fun, domain=domain),
                    "fixed": lambda: dict(embed_fun=FixedEmbedding(fun, domain)),
                    "trainable": lambda: dict(embed_fun=trainable()),
                }[form]()
                for n in [1, 2, 3]:
                    model = make(unif, n, d, 2, cplx, bias, **kw)
                    fill(model, "table", n)
                    x = torch.as_tensor(grid(range(m), n))
                    tol = base + roundoff(model, n)
                    for mname, flags in modes(bias):
                        ctx.trace = {"precision": prec, "table": name, "form": form, "n": n, "mode": mname}
                        s = total(model, x, **flags)
                        expect(abs(s - 1) <= tol, f"probabilities sum to {s!r}")
                        ctx.eval(tuple(ctx.trace.values()), nontrivial=len(x) > 1, n=len(x))
                    ctx.outcome(s)


FUNS = {
    "trig2": (2, None),
    "trig3": (3, None),
    "powers": (3, lambda x: torch.stack([torch.ones_like(x), x, x * x], -1)),
    "phases": (2, lambda x: torch.stack([torch.exp(1j * x), 0.5 * torch.exp(-2j * x)], -1)),
    "sin": (2, lambda x: torch.stack([1e-4 * torch.sin(3 * x), 1e-4 * (2 + torch.cos(x))], -1)),
}


def quad(dom, n, nodes=16):
    """Product Gauss-Legendre rule: points [N, n], weights [N]"""
    z, w = np.polynomial.legendre.leggauss(nodes)
    a, b = dom
    z, w = (b - a) / 2 * z + (a + b) / 2, w * (b - a) / 2
    pts = np.array(list(itertools.product(z, repeat=n)))
    wts = np.array([np.prod(c) for c in itertools.product(w, repeat=n)])
    return pts, wts


def integral(model, dom, n, **kw):
    pts, wts = quad(dom, n)
    with torch.no_grad():
        lp = model(tens(pts), **kw)
    expect(lp.shape == (len(pts),) and not lp.is_complex(), "form of the log probabilities")
    return float((np.exp(np64(lp)) * wts).sum())


def run_cont(ctx, unif, cplx, bias, fun, dom):
    from functools import partial

    from torchmps.embeddings import DataDomain, FixedEmbedding, trig_embed, unit_interval

    d, f = FUNS[fun]
    if f is None:
        f = partial(trig_embed, emb_dim=d)
    domain = unit_interval if dom == [0, 1] else DataDomain(True, dom[1], dom[0])
    for prec in ["f32", "f64"]:
        torch.set_default_dtype(torch.float32 if prec == "f32" else torch.float64)
        for form in ["function", "fixed"]:
            kw = dict(embed_fun=f, domain=domain) if form == "function" else dict(embed_fun=FixedEmbedding(f, domain))
            for n in [1, 2]:
                model = make(unif, n, d, 2, cplx, bias, **kw)
                fill(model, "cont", n)
                tol = 1e-4 + roundoff(model, n)
                for mname, flags in modes(bias):
                    ctx.trace = {"precision": prec, "form": form, "n": n, "mode": mname}
                    s = integral(model, dom, n, **flags)
                    expect(abs(s - 1) <= tol, f"density integrates to {s!r}")
                    ctx.eval(tuple(ctx.trace.values()), n=16**n)
                ctx.outcome(s)


class Emb:
    """Model (mostly with a trainable embedding), its domain and a complete sum"""

    def __init__(self, kind, unif, cplx, bias):
        from torchmps.embeddings import DataDomain, TrainableEmbedding, init_mlp_embed

        torch.set_default_dtype(torch.float32)
        self.kind = kind
        self.args = unif, cplx, bias
        if kind == "plain":
            self.domain, emb = None, None
        elif kind == "table":
            self.domain = None
            emb = TrainableEmbedding(Table(3, 2), DataDomain(continuous=False, max_val=3))
        elif kind == "mlp":
            self.domain = [0, 1]
            emb = init_mlp_embed(2, num_layers=2, hidden_dims=[3])
        else:
            self.domain = [-1, 2]
            emb = init_mlp_embed(2, num_layers=3, hidden_dims=2, data_domain=DataDomain(True, 2, -1))
        self.model = make(unif, 2, 2, 2, cplx, bias, embed_fun=emb)
        fill(self.model, "hist")
        self.set_emb("start")
        self.double = False

    def emb_params(self):
        own = {"core_tensors", "edge_vecs", "bias_mat"}
        return [p for k, p in self.model.named_parameters() if k not in own]

    def set_emb(self, *tag):
        for i, p in enumerate(self.emb_params()):
            put(p, gen(tuple(p.shape), "emb", i, *tag))

    def inputs(self, n=2):
        if self.domain is None:
            m = 2 if self.kind == "plain" else 3
            return torch.as_tensor(grid(range(m), n)), np.ones(m**n)
        pts, wts = quad(self.domain, n)
        return tens(pts, torch.float64 if self.double else torch.float32), wts

    def check(self, ctx):
        unif, _, bias = self.args
        # uniform models are asked for sequences of several lengths
        for (mname, flags), n in itertools.product(modes(bias), [1, 2] if unif else [2]):
            x, w = self.inputs(n)
            with torch.no_grad():
                lp = self.model(x, **flags)
            s = float((np.exp(np64(lp)) * w).sum())
            tol = (1e-4 if self.domain else 1e-4 if not self.double else 1e-10) + roundoff(self.model, n)
            expect(abs(s - 1) <= tol, f"probabilities sum to {s!r} in mode {mname}")
            ctx.eval((tuple(ctx.trace["history"]), mname, n), n=len(x))
        ctx.outcome(np64(lp).tobytes())

    def op(self, op, k):
        m = self.model
        if op == "step":
            opt = torch.optim.SGD(m.parameters(), lr=0.3)
            x, _ = self.inputs()
            opt.zero_grad()
            m.loss(x[:4]).backward()
            opt.step()
        elif op == "edit embedding":
            self.set_emb("edit", k)
        elif op == "edit cores":
            fill(m, "edit", k)
        elif op == "load":
            other = Emb(self.kind, *self.args)
            fill(other.model, "load", k)
            other.set_emb("load", k)
            m.load_state_dict(other.model.state_dict())
        elif op == "zero entry":
            # a table with a diagonal overlap matrix, or a zero weight
            p = (self.emb_params() or [m.core_tensors])[0]
            a = np64(p).copy()
            a.flat[0] = 0
            put(p, [[1.0, 0.0], [0.0, -2.0], [0.5, 0.0]] if self.kind == "table" else a)
        elif op == "toggle":
            m.train(not m.training)
        elif op == "double" and not any(p.is_complex() for p in m.parameters()):
            m.double()
            self.double = True
        elif op == "double":
            # complex parameters are converted one by one
            for p in m.parameters():
                p.data = p.data.to(torch.complex128 if p.is_complex() else torch.float64)
            self.double = True


def run_hist(ctx, kind, unif, cplx, bias, first, depth):
    for rest in itertools.product(OPS, repeat=depth - 1):
        hist = [first] + list(rest)
        sim = Emb(kind, unif, cplx, bias)
        for k, op in enumerate(hist):
            ctx.trace = {"history": hist[: k + 1]}
            sim.op(op, k)
            ctx.transitions += 1
            sim.check(ctx)
        ctx.traces += 1

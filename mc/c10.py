"""C10: log-probabilities follow the Born rule in every mode, length and scale"""
import itertools

import numpy as np
import torch

from . import ref
from .c09 import fill, make, tables
from .core import Violation
from .kinds import Table
from .mpsutil import expect, np64, put, tens
from .ref import gen, grid

LEVEL = "exploration"
RULE = (
    "all: every configuration in the bounds, all index sequences, all one-hot sequences and "
    "all sequences over a grid of vectors, in every mode, both precisions. zeros: every 0/1 "
    "(and small integer) assignment to the parameters of tiny models, all sequences: exact "
    "minus infinity where every path vanishes, reference values elsewhere in the same batch. "
    "long: all lengths up to a bound and selected large ones, uniform and varying core scales. "
    "mixed: batches over all runs 0^a 1^b 0^c whose amplitudes differ by more than the range of "
    "the floating point type, in forward, reversed and rotated order of the rows. "
    "embed: all sequences over embedded domains. Non-trivial: at least one non-zero amplitude."
)
ASSUMPTIONS = ["mc/ref.py: transfer matrices and scaled chains in complex128"]


def bounds(tier):
    t = tier == "thorough"
    return {
        "all": f"n 1..{5 if t else 4} (uniform 0..), alphabet 1..3, bond 1..3, real/complex, bias, f32/f64",
        "zeros": "0/1 parameters: n=1,d=2,D=2; n=2,d=1,D=2; uniform n=3,d=2,D=2; {-1,0,1}: n=2,d=2,D=1",
        "long": f"lengths 1..{130 if t else 20}, 31..33, 64, 65, 100, 500, 1000{', 2000, 5000' if t else ''}",
        "wide": "one of bond 4..65, alphabet 4..257, batch size 5..2049 large, n 2, 4, 5",
        "scales": "f32 1e-16..1e16, f64 1e-120..1e120, alternating and ramped over sites",
    }


def cases(tier):
    t = tier == "thorough"
    out = []
    for unif, d, D, cplx, bias in itertools.product([False, True], range(1, 4), range(1, 4), [False, True], [False, True]):
        for n in range(0 if unif else 1, 6 if t else 5):
            out.append(["all", unif, n, d, D, cplx, bias])
    for which in ["site", "pair", "unif", "sign"]:
        for part in range(16):
            out.append(["zeros", which, part])
    lens = list(range(1, 131 if t else 21)) + [31, 32, 33, 64, 65, 100, 500, 1000] + ([2000, 5000] if t else [])
    for n in sorted(set(lens)):
        for unif in [False, True]:
            for cplx in [False, True]:
                out.append(["long", unif, n, cplx])
    for unif, cplx, bias in itertools.product([False, True], repeat=3):
        for m in range(1, 5):
            for d in range(1, 4):
                out.append(["embed", unif, cplx, bias, m, d])
        out.append(["cont", unif, cplx, bias])
        for what in ["bond", "alphabet", "batch"]:
            out.append(["wide", unif, cplx, bias, what, t])
    for unif, cplx in itertools.product([False, True], repeat=2):
        for n in list(range(2, 13)) + [20, 33, 40] + ([50, 64, 100] if t else []):
            for up in [False, True]:
                out.append(["mixed", unif, n, cplx, up, 2])
        # large bond dimensions, with batches of 28 to 91 rows
        for D in [3, 4, 5, 8, 9, 16, 17, 32, 33] + ([64, 65] if t else []):
            for n in [6, 12]:
                for up in [False, True]:
                    out.append(["mixed", unif, n, cplx, up, D])
    return out


def weight(case):
    if case[0] == "long":
        return case[2] / 20
    if case[0] == "all":
        return case[3] ** case[2] / 10
    return 8 if case[0] == "zeros" else 2


def modes(bias):
    out = [("default", {}), ("parallel", dict(parallel_eval=True)), ("both", dict(slim_eval=True, parallel_eval=True))]
    out.append(("slim", dict(slim_eval=True)))
    return out


def arrays(model, n):
    core, edges = np64(model.core_tensors), np64(model.edge_vecs)
    bias = np64(model.bias_mat) if model.use_bias else None
    return ([core] * n if core.ndim == 3 else list(core)), edges, bias


def reference(model, seqs, n, lamb=None):
    """Log probabilities and their condition numbers (first-order error bounds)"""
    cores, edges, bias = arrays(model, n)
    norm = ref.log_norm2(cores, edges, bias, lamb)
    a = [np.abs(c) if bias is None else np.abs(c) + np.abs(bias) for c in cores]
    big = ref.log_norm2(a, np.abs(edges), None, None if lamb is None else np.abs(lamb))
    amp = np.array([ref.log_amp2(cores, edges, s, bias) for s in seqs])
    top = np.array([ref.log_amp2(a, np.abs(edges), s if np.ndim(s) == 1 else np.abs(s)) for s in seqs])
    with np.errstate(invalid="ignore"):
        cond = np.exp(np.where(np.isfinite(amp), (top - amp) / 2, 0.0)) + np.exp(big - norm)
    return amp - norm, cond


def allowed(want, cond, eps, n, logs):
    """Rounding error of every row: relative to the condition, and total"""
    # products of n matrices and logarithms of size log|psi|: eps * n * condition
    tol = eps * (20 + 4 * n) * np.minimum(cond, 1e12) + eps * 8 * (1 + n)
    # the sum of n log scales of total size `logs` is rounded n times
    size = np.where(np.isfinite(want), np.abs(want), 0.0)
    return tol, tol + eps * (6 + n / 2) * (logs + size)


def compare(got, want, cond, eps, n, what, logs=0.0):
    got = np64(got)
    expect(got.shape == want.shape, f"{what}: shape {got.shape}")
    tol, total = allowed(want, cond, eps, n, logs)
    for b in range(len(want)):
        if not np.isfinite(want[b]):
            ok = got[b] == -np.inf or got[b] < -100
        elif tol[b] > 0.3:
            ok = np.isfinite(got[b]) or got[b] == -np.inf
        else:
            ok = abs(got[b] - want[b]) <= total[b]
        if not ok:
            raise Violation(
                f"{what}: row {b} gives {got[b]!r} instead of {want[b]!r}", tolerance=tol[b], got=got[:8], want=want[:8]
            )


def evaluate(ctx, model, inputs, seqs, n, lamb=None, want=None, extra=0.0, what="", logs=0.0):
    """All modes and the loss, for one batch, against the reference"""
    single = model.edge_vecs.dtype in (torch.float32, torch.complex64)
    eps = 1.2e-7 if single else 2.3e-16
    if want is None:
        want, cond = reference(model, seqs, n, lamb)
    else:
        want, cond = want
    cond = cond + extra / eps / 20
    for mname, kw in modes(model.use_bias):
        if model.use_bias and mname == "slim":
            # slim evaluation of models with bias is documented as unsupported
            # (and parallel_eval overrides slim_eval)
            try:
                got = model(inputs, **kw)
            except ValueError:
                continue
        else:
            got = model(inputs, **kw)
        compare(got.detach(), want, cond, eps, n, f"{what} mode {mname}", logs)
        ctx.eval((what, mname, seqs if len(seqs) < 50 else len(seqs)), nontrivial=bool(np.isfinite(want).any()), n=len(want))
        if n >= 200 and mname != "slim":
            continue
        with torch.no_grad():
            loss = float(model.loss(inputs, **kw))
        vals = np64(got)
        mean = -float(vals.mean())
        # the loss is another evaluation: rows can round in another way
        tol, total = allowed(want, cond, eps, n, logs)
        if np.any(tol > 0.3) or np.any(np.isfinite(vals) & ~np.isfinite(want)):
            expect(not np.isnan(loss), f"{what} mode {mname}: loss is nan")
            continue
        expect(
            loss == mean
            or (np.isfinite(mean) and abs(loss - mean) <= (1e-5 if single else 1e-12) * (1 + np.abs(vals).mean()) + 2 * total.mean()),
            f"{what} mode {mname}: loss {loss!r} is not minus the mean log-probability {mean!r}",
        )
    ctx.outcome(np64(got).tobytes() if not model.use_bias else np.asarray(want).tobytes())


def run_case(case, ctx):
    # every other case without gradients
    with torch.set_grad_enabled(sum(map(ord, repr(case))) % 2 == 0):
        globals()["run_" + case[0]](ctx, *case[1:])
    ctx.sample({"case": case, "evaluations": ctx.evaluations})


def run_all(ctx, unif, n, d, D, cplx, bias):
    for prec in ["f64", "f32", "converted"]:
        torch.set_default_dtype(torch.float64 if prec == "f64" else torch.float32)
        vdt = torch.float32 if prec == "f32" else torch.float64
        for fam in ["generic", "near_eye"]:
            model = make(unif, n, d, D, cplx, bias, init_method=fam if fam == "near_eye" else "normal")
            if prec == "converted":
                model = model.to(torch.complex128) if cplx else model.double()
            if fam == "generic":
                fill(model, "c10", n, d, D)
            elif bias:
                put(model.bias_mat, 0.2 * gen((D, D), "c10 bias"))
            seqs = grid(range(d), n) if n else np.zeros([3, 0], dtype=int)
            ctx.trace = {"precision": prec, "family": fam}
            want = reference(model, seqs, n)
            evaluate(ctx, model, torch.as_tensor(seqs).long(), seqs, n, want=want, what="index")
            onehot = np.eye(d)[seqs]
            evaluate(ctx, model, tens(onehot, vdt), onehot, n, want=want, what="one-hot")
            # single rows, in reversed order
            if fam == "generic" and n:
                for b in range(len(seqs) - 1, max(-1, len(seqs) - 6), -1):
                    w = want[0][b : b + 1], want[1][b : b + 1]
                    evaluate(ctx, model, torch.as_tensor(seqs[b : b + 1]), seqs[b : b + 1], n, want=w, what=f"row {b}")
                # vectors: every sequence over three of them
                if n <= 4:
                    basis = np.stack([gen([d], "v", 0), 1e3 * gen([d], "v", 1), 1e-3 * gen([d], "v", 2)])
                    vecs = basis[grid(range(3), n)]
                    evaluate(ctx, model, tens(vecs, vdt), vecs, n, what="vector")


def run_zeros(ctx, which, part):
    torch.set_default_dtype(torch.float64)
    n, d, D, unif, values = {
        "site": (1, 2, 2, False, [0, 1]),
        "pair": (2, 1, 2, False, [0, 1]),
        "unif": (3, 2, 2, True, [0, 1]),
        "sign": (2, 2, 1, False, [-1, 0, 1]),
    }[which]
    model = make(unif, n, d, D, False, False)
    seqs = grid(range(d), n)
    idx = torch.as_tensor(seqs)
    shapes = [tuple(model.core_tensors.shape), tuple(model.edge_vecs.shape)]
    k = [int(np.prod(s)) for s in shapes]
    for j, v in enumerate(itertools.product(values, repeat=sum(k))):
        if j % 16 != part:
            continue
        core, edges = np.reshape(v[: k[0]], shapes[0]), np.reshape(v[k[0] :], shapes[1])
        amps = []
        for s in seqs.tolist():
            r = edges[0]
            for t, i in enumerate(s):
                r = r @ (core if unif else core[t])[i]
            amps.append(int(r @ edges[1]))
        amps = np.array(amps, dtype=float)
        if not amps.any():
            ctx.add("zero tensors skipped")
            continue
        put(model.core_tensors, core.astype(float))
        put(model.edge_vecs, edges.astype(float))
        with np.errstate(divide="ignore"):
            want = 2 * np.log(np.abs(amps)) - np.log((amps**2).sum())
        for mname, kw in modes(False):
            with torch.no_grad():
                got = np64(model(idx, **kw))
            # no cancellation is possible here: zero means every path vanishes
            ok = np.where(amps == 0, got == -np.inf, np.abs(got - np.where(amps == 0, 0, want)) <= 1e-12)
            if not ok.all():
                raise Violation(f"mode {mname}: log-probabilities", parameters=v, got=got, want=want)
            ctx.eval((v, mname), n=len(idx))
        ctx.outcome(want.tobytes())


PROFILES = {
    "constant": lambda n, s: np.full(n, s),
    "alternating": lambda n, s: np.where(np.arange(n) % 2 == 0, s, 1 / s),
    "ramp": lambda n, s: s ** np.linspace(-1, 1, n) if n > 1 else np.full(n, s),
    "one site": lambda n, s: np.where(np.arange(n) == n // 2, s, 1.0),
}


def run_long(ctx, unif, n, cplx):
    d, D = 2, 2
    for prec, top in [("f64", 120), ("f32", 16)]:
        torch.set_default_dtype(torch.float32 if prec == "f32" else torch.float64)
        rows = 4 if n < 200 else 1
        few = n >= 200 and ctx.tier == "quick"
        for _ in [0]:
            idx = (np.abs(gen([rows, n], "seq", n)) * 7).astype(int) % d
            vec = gen([max(1, rows - 1), n, d], "vec", n) + 0.5
            for prof in (["constant"] if unif else ["constant", "alternating"] if few else PROFILES):
                for exp in ([0, top] if few else [0, top, -top, 3, -3]) if prof == "constant" else ([top] if few else [top, -top]):
                    for ends in [(1, 1), (10.0**top, 1), (1, 10.0**-top)] if exp == 0 and not few else [(1, 1)]:
                        model = make(unif, n, d, D, cplx, False)
                        core = 0.5 * gen(tuple(model.core_tensors.shape), "long", n) + np.eye(D)
                        if cplx:
                            core = core * np.exp(1j * gen(core.shape, "phase", n))
                        sc = PROFILES[prof](n, 10.0**exp)
                        core = core * (sc[0] if unif else sc[:, None, None, None])
                        put(model.core_tensors, core)
                        put(model.edge_vecs, np.array([[1.0, 0.5], [0.7, 1.2]]) * np.array(ends)[:, None])
                        ctx.trace = {"precision": prec, "complex": cplx, "profile": prof, "exp": exp, "ends": ends}
                        what = f"{prec} {prof} {exp} {ends}"
                        evaluate(ctx, model, torch.as_tensor(idx), idx, n, what=what + " index", logs=2.4 * (abs(exp) * n + top))
                        if exp in (0, 3):
                            evaluate(ctx, model, tens(vec), vec, n, what=what + " vector", logs=2.4 * (abs(exp) * n + top))


def run_mixed(ctx, unif, n, cplx, up, D):
    """Rows of one batch whose amplitudes differ beyond the floating point range"""
    runs = sorted({(a, b) for a in range(n + 1) for b in range(a, n + 1)})
    if n > 12:
        runs = [r for r in runs if r[0] in (0, 1, n // 2, n) and r[1] in (r[0], n // 2, n - 1, n)]
    idx = np.array([[0] * a + [1] * (b - a) + [0] * (n - b) for a, b in runs])
    orders = [idx, idx[::-1], np.roll(idx, len(idx) // 2, 0)]
    for prec, exp in [("f64", 100), ("f64", 30), ("f32", 12), ("f32", 5)]:
        torch.set_default_dtype(torch.float32 if prec == "f32" else torch.float64)
        scale = np.array([1.0, 10.0 ** (exp if up else -exp)])
        model = make(unif, n, 2, D, cplx, False)
        core = 0.6 / D * gen(tuple(model.core_tensors.shape), "mixed", n) + np.eye(D)
        if cplx:
            core = core * np.exp(1j * gen(core.shape, "phase", n))
        put(model.core_tensors, core * scale[:, None, None])
        put(model.edge_vecs, 1 + 0.5 * gen([2, D], "mixed edges") if D > 2 else np.array([[1.0, 0.5], [0.7, 1.2]]))
        for k, rows in enumerate(orders):
            ctx.trace = {"precision": prec, "ratio": exp, "order": k}
            evaluate(ctx, model, torch.as_tensor(rows.copy()), rows, n, what=f"{prec} ratio {exp} order {k}", logs=2.4 * exp * n)
            if k == 0:
                hot = np.eye(2)[rows]
                evaluate(ctx, model, tens(hot), hot, n, what=f"{prec} ratio {exp} one-hot", logs=2.4 * exp * n)
        # vectors of very different lengths in one batch
        put(model.core_tensors, core)
        vec = np.abs(gen([6, n, 2], "mixed vec", n)) + 0.3
        vec = vec * (10.0 ** (exp * (1 if up else -1) * np.arange(6) / 5))[:, None, None]
        evaluate(ctx, model, tens(vec), vec, n, what=f"{prec} ratio {exp} vectors", logs=2.4 * exp * n)


def run_wide(ctx, unif, cplx, bias, what, t):
    """One of alphabet, bond dimension and batch size large"""
    if what == "bond":
        sizes = [(3, D, 4) for D in list(range(4, 20)) + [31, 32, 33, 48, 64, 65] + ([100, 128, 129] if t else [])]
    elif what == "alphabet":
        sizes = [(d, 2, 6) for d in list(range(4, 18)) + [26, 27, 28, 31, 32, 33, 64, 65, 100, 128, 256, 257]]
    else:
        sizes = [(3, 2, B) for B in list(range(5, 40)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049] + ([4097, 10001] if t else [])]
    for d, D, B in sizes:
        for n, prec in [(2, "f64"), (5, "f64"), (4, "f32")] if B < 40 or t else [(4, "f64")]:
            torch.set_default_dtype(torch.float32 if prec == "f32" else torch.float64)
            model = make(unif, n, d, D, cplx, bias)
            fill(model, "wide", n, d, D, scale=(0.5 / np.sqrt(D), 1))
            idx = (np.abs(gen([B, n], "wide seq", d)) * 1e6).astype(int) % d
            idx[0], idx[-1] = 0, d - 1
            ctx.trace = {"d": d, "D": D, "batch": B, "n": n, "precision": prec}
            want = reference(model, idx, n)
            evaluate(ctx, model, torch.as_tensor(idx), idx, n, want=want, what=f"wide {d} {D} {B} {n} index")
            hot = np.eye(d)[idx]
            evaluate(ctx, model, tens(hot), hot, n, want=want, what=f"wide {d} {D} {B} {n} one-hot")
            vec = gen([min(B, 5), n, d], "wide vec", d)
            evaluate(ctx, model, tens(vec), vec, n, what=f"wide {d} {D} {n} vector")


def run_embed(ctx, unif, cplx, bias, m, d):
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding

    torch.set_default_dtype(torch.float64)
    for name, table in tables(m, d, cplx):
        tt = tens(table, torch.complex128 if np.iscomplexobj(table) else None)
        domain = DataDomain(continuous=False, max_val=m)
        lamb = np.einsum("mi,mj->ij", table, table.conj())

        def fun(x):
            return tt[x]

        for form in ["function", "fixed", "trainable"]:
            if form == "function":
                kw = dict(embed_fun=fun, domain=domain)
            elif form == "fixed":
                kw = dict(embed_fun=FixedEmbedding(fun, domain))
            else:
                mod = Table(m, d)
                mod.weight = torch.nn.Parameter(tt.clone())
                kw = dict(embed_fun=TrainableEmbedding(mod, domain))
            for n in [1, 2, 3]:
                model = make(unif, n, d, 2, cplx, bias, **kw)
                fill(model, "embed", n)
                x = grid(range(m), n)
                ctx.trace = {"table": name, "form": form, "n": n}
                evaluate(ctx, model, torch.as_tensor(x), table[x], n, lamb=lamb, what=f"{name} {form} {n}")


def run_cont(ctx, unif, cplx, bias):
    from functools import partial

    from torchmps.embeddings import DataDomain, init_mlp_embed, sincos_embed, trig_embed, unit_interval

    torch.set_default_dtype(torch.float64)
    mlp = init_mlp_embed(3, num_layers=2, hidden_dims=[4], data_domain=DataDomain(True, 2, -1))
    for i, p in enumerate(mlp.parameters()):
        put(p, gen(tuple(p.shape), "mlp", i))
    ws = [np64(p) for p in mlp.parameters()]

    def mlp_ref(x):
        h = 1 / (1 + np.exp(-(x[..., None] * ws[0][:, 0] + ws[1])))
        return 1 / (1 + np.exp(-(h @ ws[2].T + ws[3])))

    def trig_ref(d):
        from math import comb

        return lambda x: np.stack(
            [np.sqrt(comb(d - 1, j)) * np.cos(np.pi / 2 * x) ** (d - 1 - j) * np.sin(np.pi / 2 * x) ** j for j in range(d)], -1
        )

    emb = {
        "sincos": (2, dict(embed_fun=sincos_embed, domain=unit_interval), trig_ref(2), (0, 1)),
        "trig 3": (3, dict(embed_fun=partial(trig_embed, emb_dim=3), domain=DataDomain(True, 2.0, -1)), trig_ref(3), (-1, 2)),
        "powers": (2, dict(embed_fun=lambda x: torch.stack([torch.ones_like(x), x], -1), domain=DataDomain(True, 5.0, 3)),
                   lambda x: np.stack([np.ones_like(x), x], -1), (3, 5)),
        "mlp": (3, dict(embed_fun=mlp), mlp_ref, (-1, 2)),
    }
    for name, (d, kw, f, (a, b)) in emb.items():
        # exact overlap by a fine Gauss-Legendre rule; the model uses 1000 points
        z, w = np.polynomial.legendre.leggauss(40)
        pts, w = (b - a) / 2 * z + (a + b) / 2, w * (b - a) / 2
        v = f(pts)
        lamb = np.einsum("m,mi,mj->ij", w, v, v)
        for n in [1, 2, 3]:
            model = make(unif, n, d, 2, cplx, bias, **kw)
            fill(model, "cont", n)
            x = np.array(list(itertools.product(np.linspace(a, b, 4), repeat=n)))
            ctx.trace = {"embedding": name, "n": n}
            evaluate(ctx, model, tens(x), f(x), n, lamb=lamb, extra=1e-5, what=f"{name} {n}")

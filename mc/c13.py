"""C13: embeddings and their overlap matrices"""
import copy
import itertools
from math import comb

import numpy as np
import torch

from . import ref
from .mpsutil import expect, fresh, np64, put, same, tens

LEVEL = "exploration"
RULE = (
    "Every embedding table over a small alphabet, at every scale, on every discrete domain "
    "in the bounds; a family of functions on several intervals; every input shape up to 3 "
    "axes; every history of reads and updates of a trainable embedding up to a depth. "
    "Non-trivial: nonzero table / more than one value / a history with an update."
)
ASSUMPTIONS = [
    "overlap matrices are compared to 5e-5 relative (FixedEmbedding simplifies nearly "
    "diagonal matrices with rtol 1e-5), after the trapezoid rule on a fine grid",
]
SCALES = [1.0, 1e-3, 1e-6, 1e4]


def bounds(tier):
    t = tier == "thorough"
    return {
        "tables": "all over {-1,0,1} (domain 2, dim 2), {0,1} (up to 6 entries), {0,1,i}" + (", {-1,0,1} domain 3 dim 2" if t else ""),
        "scales": SCALES,
        "wide": "one-hot and tables with up to 1025 letters, dimensions up to 65, networks of width and output up to 65, arrays of up to 5000 entries",
        "intervals": "[0,1] [-1,2] [2,2.5] [-3,-1]",
        "trainable histories": f"depth {5 if t else 4}",
        "dtypes": "float64 and float32 default",
    }


def tables(M, d, alphabet):
    for flat in itertools.product(alphabet, repeat=M * d):
        yield np.array(flat).reshape(M, d)


ALPHA = {"s": [-1.0, 0.0, 1.0], "b": [0.0, 1.0], "c": [0.0, 1.0, 1.0j], "g": [0.5, 2.0]}


def cases(tier):
    t = tier == "thorough"
    out = [["onehot", d] for d in range(1, 6)] + [["trig", d] for d in range(1, 8)]
    out += [["trig", d] for d in [*range(8, 21), 32, 33]] + [["wide", k] for k in ["onehot", "table", "mlp", "interval"]]
    out += [["mlp", layers, o] for layers in (1, 2, 3) for o in (1, 2, 3)]
    for M, d, a in [
        (1, 1, "s"), (1, 2, "s"), (2, 1, "s"), (2, 2, "s"), (3, 1, "s"), (1, 3, "s"),
        (2, 2, "b"), (3, 2, "b"), (2, 3, "b"), (1, 2, "c"), (2, 2, "c"), (2, 2, "g"), (2, 1, "c"),
    ] + ([(3, 2, "s"), (2, 3, "s"), (3, 3, "b"), (4, 2, "b"), (2, 4, "b"), (3, 2, "c")] if t else []):
        for scale in SCALES:
            out.append(["table", M, d, a, scale])
    for interval in [(0, 1), (-1, 2), (2, 2.5), (-3.0, -1.0)]:
        for scale in SCALES:
            out.append(["cont", list(interval), scale])
    for interval in [(0, 1), (-1, 2), (2, 2.5), (-3.0, -1.0)]:
        out.append(["tcont", list(interval)])
    for kind in ["table", "mlp", "ctable"]:
        for model in ["none", "ProbMPS", "ProbUnifMPS"]:
            out.append(["hist", kind, model, 5 if t else 4])
    return out


def weight(case):
    return 100 if case[0] == "hist" else 1


def full(lamb, d):
    a = np64(lamb) if isinstance(lamb, torch.Tensor) else np.asarray(lamb)
    if a.ndim == 0:
        return a * np.eye(d)
    if a.ndim == 1:
        return np.diag(a)
    return a


def check_lamb(emb, want, d, what, tol=5e-5, **info):
    got = full(emb.lamb_mat, d)
    expect(got.shape == (d, d), f"{what}: shape of the overlap matrix", **info)
    scale = np.abs(want).max()
    expect(
        np.abs(got - want).max() <= tol * scale if scale else not got.any(),
        f"{what}: wrong overlap matrix", got=got, want=want, **info,
    )


def shapes_of(values):
    yield from [(len(values),), (len(values), 1), (1, len(values)), (1, 1, len(values))]


def run_case(case, ctx):
    kind = case[0]
    dt = torch.float64
    torch.set_default_dtype(dt)
    if kind == "onehot":
        run_onehot(case[1], ctx)
    elif kind == "wide":
        run_wide(case[1], ctx)
    elif kind == "trig":
        run_trig(case[1], ctx)
    elif kind == "mlp":
        run_mlp(case[1], case[2], ctx)
    elif kind == "table":
        run_table(*case[1:], ctx)
    elif kind == "cont":
        run_cont(case[1], case[2], ctx)
    elif kind == "tcont":
        run_tcont(case[1], ctx)
    else:
        run_hist(case[1], case[2], case[3], ctx)


def run_onehot(d, ctx):
    from torchmps.embeddings import onehot_embed
    onehot_embed = fresh(onehot_embed)

    for shape in [(), (1,), (3,), (2, 2), (0,), (2, 0), (1, 2, 2), (4,)]:
        n = int(np.prod(shape))
        for flat in itertools.product(range(d), repeat=n) if d**n <= 700 else []:
            idx = np.array(flat, dtype=int).reshape(shape)
            t = torch.as_tensor(idx).long()
            got = onehot_embed(t, d)
            same(got, np.eye(d)[idx].reshape(shape + (d,)), 0.0, "onehot_embed", idx=idx)
            expect(torch.equal(t, torch.as_tensor(idx)), "input modified")
            ctx.eval((shape, flat), nontrivial=n > 1)
            ctx.outcome(flat)
    ctx.sample({"emb_dim": d, "index": idx.tolist()})


def run_trig(d, ctx):
    from torchmps.embeddings import sincos_embed, trig_embed
    trig_embed, sincos_embed = fresh(trig_embed), fresh(sincos_embed)

    for dtype, tol in [(torch.float64, 1e-12), (torch.float32, 1e-5)]:
        x = np.linspace(-1, 2, 97)
        x = np.concatenate([x, [0.0, 1.0, 0.5, 1 / 3]])
        want = np.stack(
            [
                np.sqrt(comb(d - 1, j)) * np.cos(np.pi / 2 * x) ** (d - 1 - j) * np.sin(np.pi / 2 * x) ** j
                for j in range(d)
            ],
            -1,
        )
        expect(np.allclose((want**2).sum(-1), 1), "reference")
        for shape in [(101,), (101, 1), (1, 101, 1)]:
            t = tens(x, dtype).view(shape)
            keep = t.clone()
            same(trig_embed(t, d), want.reshape(shape + (d,)), tol, "trig_embed", d=d)
            same(trig_embed(t, emb_dim=d), want.reshape(shape + (d,)), tol, "trig_embed", d=d)
            if d == 2:
                same(trig_embed(t), want.reshape(shape + (d,)), tol, "trig_embed default")
                same(sincos_embed(t), want.reshape(shape + (d,)), tol, "sincos_embed")
            expect(torch.equal(t, keep), "input modified")
            ctx.eval((shape, str(dtype)), n=101)
        for v, w in zip(x, want):
            same(trig_embed(tens(v, dtype), d), w, tol * 10, "trig_embed of one value", x=v)
            ctx.eval((float(v), str(dtype)))
            ctx.outcome(w.tobytes())
    ctx.sample({"emb_dim": d, "x": 0.5, "vector": want[-2].tolist()})


def run_wide(what, ctx):
    """Large alphabets, dimensions and arrays"""
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding, init_mlp_embed, onehot_embed

    sizes = [*range(4, 34), 63, 64, 65, 100, 127, 128, 129, 256, 257]
    if what == "onehot":
        for d in sizes + [1000, 1024, 1025]:
            for shape in [(d,), (5000 // d + 1, d), (d, 1, 2)]:
                idx = (np.arange(int(np.prod(shape))) * 7 % d).reshape(shape)
                idx.flat[0], idx.flat[-1] = d - 1, 0
                same(onehot_embed(torch.as_tensor(idx), d), np.eye(d)[idx], 0.0, "onehot_embed", d=d)
                ctx.eval((d, shape))
            ctx.outcome(d)
    elif what == "table":
        for M, d in [(m, 3) for m in sizes + [1000, 1025]] + [(5, d) for d in sizes if d < 70] + [(70, 65)]:
            table = ref.vals((M, d), "wide", M, d, nonzero=True)
            for cplx in [False, True]:
                if cplx:
                    table = table + 1j * ref.vals((M, d), "widei", M, d)
                tt = torch.as_tensor(table)
                want = np.einsum("mi,mj->ij", table, table.conj())
                dom = DataDomain(continuous=False, max_val=M)
                idx = torch.as_tensor((np.arange(2 * M) * 5 % M).reshape(2, M))

                class Tab(torch.nn.Module):
                    def __init__(self):
                        super().__init__()
                        self.w = torch.nn.Parameter(tt.clone())

                    def forward(self, x):
                        return self.w[x.long().squeeze(-1)]

                for name, emb in [("fixed", FixedEmbedding(lambda x: tt[x], dom)), ("trainable", TrainableEmbedding(Tab(), dom))]:
                    expect(name == "trainable" or emb.emb_dim == d, "emb_dim", want=d)
                    check_lamb(emb, want, d, f"{name} table embedding", M=M)
                    same(emb(idx), table[idx.numpy()], 1e-12, f"{name} embedded values", M=M, d=d)
                    ctx.eval((M, d, cplx, name))
                ctx.outcome(want.tobytes())
    elif what == "mlp":
        for hid, o in [(h, 2) for h in [4, 5, 8, 16, 17, 32, 33, 64, 65]] + [(3, o) for o in [4, 5, 8, 9, 16, 17, 32, 33, 65]]:
            for layers in [2, 3, 5]:
                emb = init_mlp_embed(o, num_layers=layers, hidden_dims=[hid] * (layers - 1))
                params = list(emb.parameters())
                expect(len(params) == 2 * layers, "layers of the network", got=len(params))
                for i, p in enumerate(params):
                    put(p, ref.vals(tuple(p.shape), "wmlp", i, hid, o) / np.sqrt(p.shape[-1]))
                arrs = [np64(p) for p in params]
                for shape in [(5,), (300, 4)]:
                    x = ref.vals(shape, "wx", div=3.0)
                    same(emb(tens(x)), mlp_ref(arrs, x[..., None]), 1e-11, "MLP embedding", shape=shape, hidden=hid, outputs=o)
                    ctx.eval((hid, o, layers, shape))
                pts = np.linspace(0, 1, 4001)
                check_lamb(emb, trapz(mlp_ref(arrs, pts[:, None]), pts), o, "MLP embedding", hidden=hid, outputs=o)
                ctx.outcome((hid, o, layers))
    else:
        for d in [4, 5, 8, 9, 16, 17, 33, 65]:
            for lo, hi in [(0, 1), (-1, 2), (-3.0, -1.0)]:
                def fun(x):
                    return torch.stack([torch.cos(x * (k / 4.0)) for k in range(d)], -1)

                emb = FixedEmbedding(fun, DataDomain(continuous=True, max_val=hi, min_val=lo))
                pts = np.linspace(lo, hi, 4001)
                vecs = np.stack([np.cos(pts * (k / 4.0)) for k in range(d)], -1)
                expect(emb.emb_dim == d, "emb_dim")
                check_lamb(emb, trapz(vecs, pts), d, "cosines", interval=(lo, hi))
                x = np.linspace(lo, hi, 600).reshape(200, 3)
                same(emb(tens(x)), np.stack([np.cos(x * (k / 4.0)) for k in range(d)], -1), 1e-12, "embedded values", d=d)
                ctx.eval((d, lo, hi))
                ctx.outcome(d)
    ctx.sample({"wide": what})


def mlp_ref(params, x):
    """Layered network on the last axis"""
    h = x
    for w, b in zip(params[0::2], params[1::2]):
        h = 1 / (1 + np.exp(-(h @ w.T + b)))
    return h


def grid_domain(cont, lo, hi, points=4001):
    return np.linspace(lo, hi, points)


def trapz(vecs, pts):
    mats = vecs[:, :, None] * vecs[:, None, :].conj()
    dx = np.diff(pts)
    return ((mats[1:] + mats[:-1]) / 2 * dx[:, None, None]).sum(0)


def run_mlp(layers, o, ctx):
    from torchmps.embeddings import DataDomain, init_mlp_embed

    hid = {1: [[]], 2: [[2], [3], 4], 3: [[2, 3], [1, 2], 2]}[layers]
    for h in hid:
        for dom in [None, (0, 1), (-1, 2)]:
            domain = None if dom is None else DataDomain(continuous=True, max_val=dom[1], min_val=dom[0])
            emb = init_mlp_embed(o, num_layers=layers, hidden_dims=h, data_domain=domain)
            params = list(emb.parameters())
            dims = [1] + ([h] * (layers - 1) if isinstance(h, int) else list(h)) + [o]
            want_shapes = []
            for a, b in zip(dims, dims[1:]):
                want_shapes += [(b, a), (b,)]
            expect([tuple(p.shape) for p in params] == want_shapes, "layer shapes", got=[tuple(p.shape) for p in params])
            for i, p in enumerate(params):
                put(p, ref.vals(tuple(p.shape), "mlp", i, layers, div=2.0))
            arrs = [np64(p) for p in params]
            for shape in [(), (1,), (5,), (2, 3), (2, 1, 3)]:
                x = ref.vals(shape, "x", div=3.0)
                same(emb(tens(x)), mlp_ref(arrs, x[..., None]), 1e-11, "MLP embedding", shape=shape)
                ctx.eval((repr(h), dom, shape))
            lo, hi = dom or (0, 1)
            pts = np.linspace(lo, hi, 4001)
            want = trapz(mlp_ref(arrs, pts[:, None]), pts)
            check_lamb(emb, want, o, "MLP embedding", layers=layers, hidden=h, domain=dom)
            ctx.eval((repr(h), dom, "lamb"))
            ctx.outcome(want.round(6).tobytes())
    ctx.sample({"layers": layers, "output_dim": o, "overlap": want.tolist()})


def run_table(M, d, alpha, scale, ctx):
    from torchmps.embeddings import DataDomain, FixedEmbedding

    for table in tables(M, d, ALPHA[alpha]):
        table = table * scale
        want = np.einsum("mi,mj->ij", table, table.conj())
        for f32 in [False, True]:
            torch.set_default_dtype(torch.float32 if f32 else torch.float64)
            tt = torch.as_tensor(table)
            if f32:
                tt = tt.to(torch.complex64 if tt.is_complex() else torch.float32)
            emb = FixedEmbedding(lambda x: tt[x], DataDomain(continuous=False, max_val=M))
            check_lamb(emb, want, d, "table embedding", table=table, f32=f32)
            expect(emb.emb_dim == d, "emb_dim", got=emb.emb_dim)
            expect(not list(emb.parameters()), "fixed embedding has parameters")
            for shape in [(M,), (M, 1), (1, M, 1)]:
                idx = torch.arange(M).view(shape)
                got = emb(idx)
                expect(torch.equal(got, tt.view(shape + (d,))), "embedded values", table=table)
        ctx.eval(table.tobytes(), nontrivial=bool(np.any(table)), n=2)
        ctx.outcome(want.tobytes())
    ctx.sample({"table": table, "overlap": want})


FUNS = {
    "constant": lambda x: np.stack([np.ones_like(x)], -1),
    "affine": lambda x: np.stack([x, 1 - x], -1),
    "poly": lambda x: np.stack([np.ones_like(x), x, x**2], -1),
    "sincos": lambda x: np.stack([np.cos(np.pi * x / 2), np.sin(np.pi * x / 2)], -1),
    "fourier": lambda x: np.stack([np.exp(2j * np.pi * x), np.ones_like(x), np.exp(-2j * np.pi * x)], -1),
    "phase": lambda x: np.stack([x * np.exp(1j * x), 1j * np.ones_like(x)], -1),
    "one small": lambda x: np.stack([np.ones_like(x), 1e-2 * x], -1),
}
TFUNS = {
    "constant": lambda x: torch.stack([torch.ones_like(x)], -1),
    "affine": lambda x: torch.stack([x, 1 - x], -1),
    "poly": lambda x: torch.stack([torch.ones_like(x), x, x**2], -1),
    "sincos": lambda x: torch.stack([torch.cos(np.pi * x / 2), torch.sin(np.pi * x / 2)], -1),
    "fourier": lambda x: torch.stack([torch.exp(2j * np.pi * x), torch.ones_like(x) + 0j, torch.exp(-2j * np.pi * x)], -1),
    "phase": lambda x: torch.stack([x * torch.exp(1j * x), 1j * torch.ones_like(x)], -1),
    "one small": lambda x: torch.stack([torch.ones_like(x), 1e-2 * x], -1),
}


def run_cont(interval, scale, ctx):
    from torchmps.embeddings import DataDomain, FixedEmbedding

    lo, hi = interval
    for name in FUNS:
        for f32 in [False, True]:
            torch.set_default_dtype(torch.float32 if f32 else torch.float64)
            dom = DataDomain(continuous=True, max_val=hi, min_val=lo)
            emb = FixedEmbedding(lambda x: TFUNS[name](x) * scale, dom)
            pts = np.linspace(lo, hi, 4001)
            vecs = FUNS[name](pts) * scale
            d = vecs.shape[1]
            check_lamb(emb, trapz(vecs, pts), d, name, interval=interval, scale=scale, f32=f32)
            expect(emb.emb_dim == d, "emb_dim")
            x = np.linspace(lo, hi, 7)
            same(emb(tens(x)), FUNS[name](x) * scale, 1e-5 if f32 else 1e-12, "embedded values", fun=name)
            # a coarse grid on request, where the trapezoid rule is visible
            for points in [2, 3, 11]:
                emb.make_lambda(points)
                p = np.linspace(lo, hi, points)
                check_lamb(emb, trapz(FUNS[name](p) * scale, p), d, name, points=points, interval=interval, scale=scale, tol=1e-4)
                ctx.eval((name, f32, points))
            ctx.eval((name, f32))
    ctx.sample({"interval": interval, "scale": scale})


class Scaled(torch.nn.Module):
    """A family of functions with trainable amplitudes"""

    def __init__(self, fun, amps):
        super().__init__()
        self.fun = fun
        self.amps = torch.nn.Parameter(torch.as_tensor(amps))

    def forward(self, x):
        return self.fun(x[..., 0]) * self.amps


def run_tcont(interval, ctx):
    """Trainable embeddings of real and complex functions on intervals"""
    from torchmps.embeddings import DataDomain, TrainableEmbedding

    lo, hi = interval
    for name in FUNS:
        for cplx in [False, True]:
            pts = np.linspace(lo, hi, 4001)
            d = FUNS[name](pts).shape[1]
            amps = ref.vals((d,), "tc", name, nonzero=True)
            if cplx:
                amps = amps + 1j * ref.vals((d,), "tci", name)
            dom = DataDomain(continuous=True, max_val=hi, min_val=lo)
            emb = TrainableEmbedding(Scaled(TFUNS[name], amps), dom)
            info = dict(fun=name, interval=interval, cplx=cplx)
            for scale in [1.0, 0.5]:
                with torch.no_grad():
                    emb.emb_module.amps.mul_(scale)
                amps = amps * scale
                check_lamb(emb, trapz(FUNS[name](pts) * amps, pts), d, "trainable embedding", **info)
                x = np.linspace(lo, hi, 6).reshape(2, 3)
                same(emb(tens(x)), FUNS[name](x) * amps, 1e-12, "embedded values", **info)
                # gradient of the overlap matrix with respect to the amplitudes
                w = ref.vals((d, d), "tcw", name)
                emb.zero_grad()
                (full_t(emb.lamb_mat, d) * torch.as_tensor(w)).sum().abs().square().backward()
                got = np64(emb.emb_module.amps.grad)
                want = overlap_grad(FUNS[name], amps, pts, w)
                tol = 1e-3 * max(1.0, np.abs(want).max())
                expect(np.abs(got - want).max() <= tol, "gradient of the overlap matrix", got=got, want=want, **info)
                ctx.eval((name, cplx, scale))
            ctx.outcome(np.round(amps, 9).tobytes())
    ctx.sample({"interval": interval})


def full_t(lamb, d):
    if lamb.dim() == 0:
        return lamb * torch.eye(d)
    return lamb.diag() if lamb.dim() == 1 else lamb


def overlap_grad(fun, amps, pts, w):
    """Derivative of |sum_ij w_ij L_ij|^2 in torch's convention (2 d/d conj for complex)"""
    base = trapz(fun(pts), pts)

    def value(a):
        return abs((w * base * np.outer(a, a.conj())).sum()) ** 2

    eps, out = 1e-5, np.zeros(len(amps), dtype=complex if np.iscomplexobj(amps) else float)
    for k in range(len(amps)):
        e = np.zeros(len(amps))
        e[k] = eps
        out[k] += (value(amps + e) - value(amps - e)) / (2 * eps)
        if np.iscomplexobj(amps):
            out[k] += 1j * (value(amps + 1j * e) - value(amps - 1j * e)) / (2 * eps)
    return out


class Table(torch.nn.Module):
    """Trainable lookup table for indices with a trailing axis of size one"""

    def __init__(self, values):
        super().__init__()
        self.table = torch.nn.Parameter(values)

    def forward(self, x):
        return self.table[x[..., 0]]


def make_trainable(kind):
    from torchmps.embeddings import DataDomain, TrainableEmbedding, init_mlp_embed

    if kind == "mlp":
        emb = init_mlp_embed(2, num_layers=2, hidden_dims=[2])
        for i, p in enumerate(emb.parameters()):
            put(p, ref.vals(tuple(p.shape), "tr", i, div=2.0, nonzero=True))
        return emb
    vals = torch.as_tensor(ref.vals((3, 2), "tab", nonzero=True))
    if kind == "ctable":
        vals = vals + 1j * torch.as_tensor(ref.vals((3, 2), "tabi"))
    return TrainableEmbedding(Table(vals), DataDomain(continuous=False, max_val=3))


def lamb_ref(kind, params):
    if kind == "mlp":
        pts = np.linspace(0, 1, 4001)
        return trapz(mlp_ref(params, pts[:, None]), pts)
    return np.einsum("mi,mj->ij", params[0], params[0].conj())


OPS = ["read", "embed", "edit", "step", "load", "copy", "nograd"]


def run_hist(kind, model_kind, depth, ctx):
    """All histories of reads and updates; overlap is always the current one"""
    import torchmps.prob_mps as pm

    def build():
        emb = make_trainable(kind)
        cplx = kind == "ctable"
        if model_kind == "ProbMPS":
            model = pm.ProbMPS(2, 2, 2, complex_params=cplx, embed_fun=emb)
        elif model_kind == "ProbUnifMPS":
            model = pm.ProbUnifMPS(2, 2, complex_params=cplx, embed_fun=emb)
        else:
            model = None
        return emb, model

    for d in range(1, depth + 1):
        for hist in itertools.product(OPS, repeat=d):
            if d > 2 and model_kind != "none" and hist[-1] not in ("read", "embed"):
                continue
            ctx.trace = hist
            emb, model = build()
            holder = model if model is not None else emb
            for k, op in enumerate(hist):
                params = list(emb.parameters())
                if op == "read":
                    for quiet in [True, False]:
                        with torch.set_grad_enabled(not quiet):
                            check_lamb(emb, lamb_ref(kind, [np64(p) for p in params]), 2, "overlap", hist=hist, quiet=quiet)
                elif op in ("embed", "nograd"):
                    with torch.set_grad_enabled(op == "embed"):
                        if model is not None:
                            x = torch.zeros([1, 2]) if kind == "mlp" else torch.zeros([1, 2]).long()
                            model(x)
                        else:
                            emb(torch.zeros([1]) if kind == "mlp" else torch.zeros([1]).long())
                            emb.lamb_mat
                elif op == "edit":
                    for i, p in enumerate(params):
                        put(p, np64(p) * 1.5 + 0.25 * (k + 1))
                elif op == "step":
                    opt = torch.optim.SGD(holder.parameters(), lr=0.25)
                    loss = sum((p * p.conj()).real.sum() for p in emb.parameters())
                    opt.zero_grad()
                    loss.backward()
                    opt.step()
                elif op == "load":
                    state = {n: v * 0.5 - 0.125 for n, v in holder.state_dict().items()}
                    holder.load_state_dict(state)
                elif op == "copy":
                    holder = copy.deepcopy(holder)
                    if model is not None:
                        model, emb = holder, holder.embedding
                    else:
                        emb = holder
            params = list(emb.parameters())
            expect(params, "trainable embedding has no parameters")
            ids = {id(p) for p in holder.parameters()}
            expect(all(id(p) in ids for p in params), "embedding parameters are not among those of the model", hist=hist)
            arrs = [np64(p) for p in params]
            want = lamb_ref(kind, arrs)
            for quiet in [True, False]:
                with torch.set_grad_enabled(not quiet):
                    check_lamb(emb, want, 2, "overlap after the history", hist=hist, quiet=quiet)
            # the embedding acts with the same, current parameters
            if kind == "mlp":
                x = np.array([0.0, 0.3, 1.0])
                same(emb(tens(x)), mlp_ref(arrs, x[:, None]), 1e-11, "embedded values", hist=hist)
            else:
                same(emb(torch.arange(3)), arrs[0], 1e-12, "embedded values", hist=hist)
            ctx.eval(hist, nontrivial=any(o in ("edit", "step", "load") for o in hist))
            ctx.outcome(want.round(9).tobytes())
    ctx.sample({"embedding": kind, "model": model_kind, "history": hist})

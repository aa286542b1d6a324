"""C14: gradients are the exact derivatives in every evaluation mode"""
import itertools

import numpy as np
import torch

from . import adaptive, tref
from .c09 import fill as pfill, make as pmake, tables
from .c12 import BIAS, make as tmake
from .core import Violation
from .kinds import Table, fmap
from .mpsutil import FixedMPS, expect, np64, put, tens
from .ref import err, gen, grid

LEVEL = "exploration"
RULE = (
    "Every configuration in the bounds (for adaptive models every merge state along a history "
    "of calls): the derivative of every output component and of a nonlinear function of all "
    "of them (of the latter also second derivatives), with respect to every parameter and real input, against a naive reference with "
    "plain loops and explicit sums over all sequences; twice on the same graph, by backward() "
    "with accumulation, in train and eval mode after calls without gradients, and with every "
    "single parameter frozen. Non-trivial: every non-zero "
    "derivative."
)
ASSUMPTIONS = [
    "torch.autograd on the elementary operations of mc/tref.py",
    "differentiated outputs are finite",
    "in every input some elements are equal",
]


def bounds(tier):
    q = tier == "quick"
    return {
        "mps": f"input_dim 1..{4 if q else 5}, all label sites, open/periodic, bias, serial/parallel, bond 1..2 (3), feature 1..3, scalar/embedded/mapped/path inputs",
        "adaptive": f"input_dim 1..{4 if q else 6}, all label sites, open/periodic, up to {4 if q else 7} shifts",
        "wide": "bond up to 9, feature and output up to 11 for selected shapes of every kind",
        "ti": "all bias modes, fixed and trainable ends, serial/parallel, lengths 1..4, lists, scalars, maps",
        "prob": f"length 1..{3 if q else 4}, alphabet 1..3, bond 1..2, real/complex, bias, all modes, index/vector/embedded inputs, trainable embeddings",
        "zero": "every set of vanishing core slices at length 2 (uniform 3), gradients of all other rows of the batch",
        "long": "length up to 64 at scales 1e-30..1e30 (scaling law), against a transfer-matrix reference",
    }


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 6):
        for label in range(n + 1):
            for periodic, bias, par in itertools.product([False, True], repeat=3):
                for D, d, o, mode in [(2, 2, 2, "vec"), (2, 2, 2, "scalar"), (2, 3, 1, "map"), (1, 1, 2, "vec"), (3, 2, 2, "vec"), (2, 2, 2, "path")]:
                    out.append(["mps", n, label, periodic, bias, par, D, d, o, mode])
    for n, label in [(2, 1), (4, 4)]:
        for periodic, bias, par in itertools.product([False, True], repeat=3):
            for D, d, o in [(5, 2, 2), (8, 2, 2), (9, 2, 1), (2, 5, 2), (2, 9, 1), (2, 2, 5), (2, 2, 11)]:
                out.append(["mps", n, label, periodic, bias, par, D, d, o, "vec"])
    for n in range(1, 5 if q else 7):
        for label in range(n + 1):
            for periodic, par in itertools.product([False, True], repeat=2):
                for mode in ["vec", "scalar"]:
                    out.append(["adaptive", n, label, periodic, par, mode])
    for D, d, o in [(6, 2, 2), (9, 2, 9), (2, 6, 1), (3, 9, 2), (2, 2, 9)]:
        for bias, fixed, par in itertools.product(BIAS, [False, True], [False, True]):
            if not (fixed and o > D):
                out.append(["ti", D, d, o, bias, fixed, par, "vec"])
    for D, d, o, bias, fixed, par in itertools.product([1, 2, 3], [1, 2], [1, 2], BIAS, [False, True], [False, True]):
        if fixed and o > D:
            continue
        for mode in ["vec", "list", "veclist"] + (["scalar", "map"] if d == 2 else []):
            out.append(["ti", D, d, o, bias, fixed, par, mode])
    for unif, cplx, bias in itertools.product([False, True], repeat=3):
        for n in range(0 if unif else 1, 4 if q else 5):
            for d, D in itertools.product([1, 2, 3], [1, 2]):
                if d == 3 and n == 4:
                    continue
                for mode in ["default", "slim", "parallel"]:
                    if mode == "slim" and bias:
                        continue
                    out.append(["prob", unif, n, d, D, cplx, bias, mode])
        for d, D in [(2, 4), (2, 5), (3, 6), (2, 9), (4, 2), (6, 2), (9, 1)]:
            for mode in ["default", "parallel"] + ["slim"] * (not bias):
                out.append(["prob", unif, 2, d, D, cplx, bias, mode])
        for mode in ["default", "slim", "parallel"]:
            if mode == "slim" and bias:
                continue
            for emb in ["fixed", "trainable", "trainable complex", "trainable orthogonal", "trainable isometry", "cont", "mlp"]:
                if emb.endswith("complex") and not cplx:
                    continue
                for n in [1, 2, 3]:
                    out.append(["embed", unif, n, cplx, bias, mode, emb])
            out.append(["long", unif, cplx, bias, mode])
            if not bias:
                out.append(["zero", unif, cplx, mode])
    return out


def weight(case):
    return {"mps": 1, "adaptive": 4, "ti": 1, "prob": 3, "embed": 4, "long": 4, "zero": 2}[case[0]]


FLAGS = {"default": {}, "slim": dict(slim_eval=True), "parallel": dict(parallel_eval=True)}


def nonlinear(out):
    w = torch.as_tensor(gen(tuple(out.shape), "w"), dtype=out.dtype)
    return (out * out * w).sum() + torch.sin(out).sum()


def tie(x):
    """Make some elements of an input equal to others (their gradients are not)"""
    x[0, -1] = x[1, 0] = x[0, 0]
    return x


def grads(scalar, wrt):
    if not scalar.requires_grad:
        return [None] * len(wrt)
    gs = torch.autograd.grad(scalar, wrt, retain_graph=True, allow_unused=True)
    return [None if g is None else np64(g) for g in gs]


def check(ctx, call, reference, named, model, what, tol=1e-9, comps=None):
    """
    call()       output of the model, called anew for every graph
    reference()  the same by the naive formulas from the same tensors
    named        [(name, tensor)] the tensors to differentiate by
    """
    wrt = [t for _, t in named]
    want_out = reference()
    out = call()
    expect(out.shape == want_out.shape, f"{what}: output of shape {tuple(out.shape)}")
    e = err(np64(out), np64(want_out))
    expect(e <= tol, f"{what}: output differs from the reference by {e:.3g}")

    def compare(got, want, label, skip=()):
        scale = max([np.abs(w).max() for w in want if w is not None and w.size] + [1e-2])
        for (name, t), g, w in zip(named, got, want):
            if any(t is s for s in skip):
                expect(g is None, f"{what}: gradient on a frozen tensor {name}")
                continue
            w = np.zeros(tuple(t.shape)) if w is None else w
            if g is None:
                expect(not w.any(), f"{what}: no gradient for {name} ({label})", want=w)
                continue
            expect(np.isfinite(g).all(), f"{what}: gradient of {name} is not finite ({label})", got=g)
            d = np.abs(g - w).max() if w.size else 0
            expect(d <= tol * scale, f"{what}: gradient of {name} ({label}) differs by {d:.3g}", got=g, want=w)

    flat, wflat = out.reshape(-1), want_out.reshape(-1)
    wants = []
    for k in range(len(flat)):
        want = grads(wflat[k], wrt)
        compare(grads(flat[k], wrt), want, f"output component {k}")
        wants.append(want)
        ctx.eval((what, k), nontrivial=any(w is not None and w.any() for w in want))
    want = grads(nonlinear(want_out), wrt)
    for rep in range(2):
        compare(grads(nonlinear(out), wrt), want, f"nonlinear function, pass {rep}")
    # second derivatives: the gradient of the directional derivative along fixed vectors
    def second(value):
        if not value.requires_grad:
            return [None] * len(wrt)
        first = torch.autograd.grad(value, wrt, create_graph=True, allow_unused=True)
        total = 0.0
        for g, (name, t) in zip(first, named):
            if g is not None:
                v = gen(tuple(t.shape), "direction", name)
                total = total + (g * (g.conj() if g.is_complex() else 1) * tens(v)).real.sum()
        return grads(total, wrt) if isinstance(total, torch.Tensor) else [None] * len(wrt)

    compare(second(nonlinear(call())), second(nonlinear(reference())), "second derivatives")
    # backward() accumulates over two independent graphs
    for t in wrt + list(model.parameters()):
        t.grad = None
    for rep in range(2):
        nonlinear(call()).backward()
    # a tensor that is not a leaf (an input derived from others) has no .grad
    got = [None if t.grad is None else np64(t.grad) / 2 for t in wrt]
    compare(got, want, "backward() twice")
    for name, b in model.named_buffers():
        expect(b.grad is None and not b.requires_grad, f"{what}: gradient on buffer {name}")
    seen = {id(t) for t in wrt}
    for name, p in model.named_parameters():
        if id(p) not in seen and p.grad is not None:
            expect(not np64(p.grad).any(), f"{what}: gradient on {name}, which the output does not depend on")
        p.grad = None
    # the module's train/eval flag and calls without gradients change nothing
    for train in [False, True]:
        model.train(train)
        with torch.no_grad():
            expect(not call().requires_grad, f"{what}: output requires gradients under no_grad")
        for rep in range(2):
            compare(grads(nonlinear(call()), wrt), want, f"{'train' if train else 'eval'} mode, call {rep}")
    # freezing one tensor leaves the gradients of the others as they are
    for k, (name, t) in enumerate(named):
        t.requires_grad_(False)
        rest = [u for u in wrt if u is not t]
        o = call()
        if rest:
            got = grads(nonlinear(o), rest)
            got.insert(k, None)
            compare(got, want, f"{name} frozen", skip=[t])
        else:
            expect(not o.requires_grad, f"{what}: output of frozen tensors requires gradients")
        t.requires_grad_(True)
    # without gradients for the input
    ctx.outcome(b"".join(np.round(w, 6).tobytes() for w in want if w is not None))


def leaf(arr):
    return tens(arr).requires_grad_()


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    ctx.trace = {}
    globals()["run_" + case[0]](ctx, *case[1:])
    ctx.sample({"case": case, "derivatives": ctx.evaluations})


def run_mps(ctx, n, label, periodic, bias, par, D, d, o, mode):
    from torchmps import MPS

    width = n + 1 if mode == "path" else n
    path = [(2 * k + 1) % width for k in range(n)] if mode == "path" else None
    model = MPS(
        n, o, D, feature_dim=d, periodic_bc=periodic, use_bias=bias, parallel_eval=par,
        label_site=label, path=path,
    )
    fm = FixedMPS(model)
    for k, p in enumerate(fm.params()):
        put(p, gen(tuple(p.shape), "c14", n, k))
    if mode == "map":
        model.register_feature_map(fmap)
    raw = mode in ("scalar", "map")
    x = leaf(tie(gen([2, width] + ([] if raw else [d]), "x", n, mode)))

    def reference():
        e = x
        if mode == "scalar":
            e = torch.stack([x, 1 - x], 2)
        elif mode == "map":
            e = torch.stack([torch.ones_like(x), x, x * x], 2)
        if path:
            e = torch.stack([e[:, p] for p in path], 1)
        cores, mats = [], []
        for m in fm.inputs:
            for c in m.tensor:
                cores.append(c)
                mats.append(m.bias_mat.reshape(D, D) if bias else None)
        return tref.mps(cores, fm.output.tensor, label, e, periodic, mats if bias else None)

    named = [(f"parameter {k}", p) for k, p in enumerate(fm.params())] + [("input", x)]
    check(ctx, lambda: model(x), reference, named, model, f"{mode} input")


def run_adaptive(ctx, n, label, periodic, par, mode):
    # calls within a step stay far below the threshold; a large batch exceeds it
    T = 4000
    model = adaptive.build(n, label, 2, 2, 2, periodic, T, 1e-10, par)
    raw = mode == "scalar"
    shifts = 4 if ctx.tier == "quick" else 7
    fill = tens(np.ones([T, n] + ([] if raw else [2])))

    def reference():
        e = torch.stack([x, 1 - x], 2) if raw else x
        return tref.adaptive(chain_of(model), e, periodic)

    for step in range(shifts + 1):
        adaptive.fill_active(model, "c14", step)
        x = leaf(tie(gen([2, n] + ([] if raw else [2]), "x", step)) if step % 2 and n else gen([2, n] + ([] if raw else [2]), "x", step))
        ctx.trace = {"step": step}
        named = [(f"core {k}", t) for k, t in enumerate(params_of(model))] + [("input", x)]
        check(ctx, lambda: model(x), reference, named, model, f"step {step}")
        # the next call shifts, and its graph has to reach the new cores
        with torch.no_grad():
            model(fill)
        state = [id(t) for t in params_of(model)]
        y = model(x)
        expect(n == 0 or [id(t) for t in params_of(model)] != state, "no merge shift")
        named = [(f"core {k}", t) for k, t in enumerate(params_of(model))] + [("input", x)]
        wrt = [t for _, t in named]
        w = reference()
        for k in range(y.numel()):
            got, want = grads(y.reshape(-1)[k], wrt), grads(w.reshape(-1)[k], wrt)
            for (name, t), g, h in zip(named, got, want):
                h = np.zeros(tuple(t.shape)) if h is None else h
                g = np.zeros(tuple(t.shape)) if g is None else g
                expect(err(g, h) <= 1e-8, f"shifting call: gradient of {name}", got=g, want=h)
            ctx.eval(("shift", step, k))


def params_of(model):
    return [m.tensor for m in adaptive.active_modules(model)]


def chain_of(model):
    chain = []
    for m in adaptive.active_modules(model):
        t, n = m.tensor, len(m)
        if t.ndim == 5:
            chain += [("pair", a) for a in t]
        elif t.ndim == 4 and n == 1:
            # a region of one site and a merged output both take one input
            chain.append(("outin", t))
        elif t.ndim == 3 and n == 1:
            chain.append(("site", t))
        else:
            chain.append(("out", t))
    return chain


def run_ti(ctx, D, d, o, bias, fixed, par, mode):
    model = tmake(D, d, o, bias, fixed, par)
    for name, p in model.named_parameters():
        put(p, gen(tuple(p.shape), "c14", name))
    if mode == "map":
        model.register_feature_map(lambda x: torch.stack([torch.sin(x * 1.0), x * x]))
    params = dict(model.named_parameters())
    vec = [p for p in params.values() if tuple(p.shape) == (D,)]
    vec = torch.ones(D) if fixed else vec[0]
    mat = torch.eye(D, o) if fixed else model.terminal_mat.mat
    b = {"none": None, "fixed": torch.eye(D), "trainable": params.get("bias_mat")}[bias]
    core = params["core_tensor"]
    expect(len(params) == 1 + (0 if fixed else 2) + (bias == "trainable"), "parameters of the model")
    lens = [3, 3] if mode in ("vec", "scalar") or bias != "fixed" else [1, 4, 2]
    raw = mode in ("scalar", "map", "list") and d == 2
    xs = [gen([L] + ([] if raw else [d]), "x", k) for k, L in enumerate(lens)]
    xs[0][-1] = xs[1][0] = xs[1][1] = xs[0][0]
    xs = [leaf(x) for x in xs]

    def emb(x):
        if not raw:
            return x
        if mode == "map":
            return torch.stack([torch.sin(x), x * x], -1)
        return torch.stack([x, 1 - x], -1)

    def call():
        return model(torch.stack(xs) if mode in ("vec", "scalar") else list(xs))

    named = list(params.items()) + [(f"input {k}", x) for k, x in enumerate(xs)]
    check(ctx, call, lambda: tref.ti(core, vec, mat, [emb(x) for x in xs], b), named, model, mode)


def cores_of(model, n):
    c = model.core_tensors
    return [c] * n if c.ndim == 3 else list(c)


def run_prob(ctx, unif, n, d, D, cplx, bias, mode):
    model = pmake(unif, n, d, D, cplx, bias)
    pfill(model, "c14", n, d, D)
    flags = FLAGS[mode]
    points = torch.eye(d)
    params = list(model.named_parameters())
    b = model.bias_mat if bias else None

    def ref(vecs):
        return tref.log_prob(cores_of(model, n), model.edge_vecs, vecs, points, [1.0] * d, b)

    idx = torch.as_tensor(grid(range(d), n) if n else np.zeros([2, 0])).long()
    idx = idx[:: max(1, len(idx) // 4)]
    check(ctx, lambda: model(idx, **flags), lambda: ref(points[idx]), params, model, "index")
    x = leaf(gen([2, n, d], "x", n))
    check(ctx, lambda: model(x, **flags), lambda: ref(x), params + [("input", x)], model, "vector")
    check(
        ctx, lambda: model.loss(x, **flags), lambda: -ref(x).mean(), params + [("input", x)], model, "loss"
    )


def run_embed(ctx, unif, n, cplx, bias, mode, emb):
    from torchmps.embeddings import DataDomain, TrainableEmbedding, init_mlp_embed, unit_interval

    flags = FLAGS[mode]
    d = 2
    dom = DataDomain(continuous=False, max_val=3)
    x = None
    if emb == "fixed":
        table = tens(gen([3, 2], "table"))
        kw = dict(embed_fun=lambda i: table[i], domain=dom)
    elif emb.startswith("trainable"):
        mod = Table(3, 2)
        arr = gen([3, 2], "tt")
        if emb.endswith("complex"):
            arr = arr + 1j * gen([3, 2], "tti")
        # tables whose overlap matrix is diagonal, or a multiple of the identity,
        # only at the current parameters
        if emb.endswith("orthogonal"):
            arr = np.array([[1.0, 2.0], [2.0, 2.0], [2.0, -3.0]])
        if emb.endswith("isometry"):
            arr = np.array([[1.0, 2.0], [2.0, 1.0], [2.0, -2.0]])
        mod.weight = torch.nn.Parameter(tens(arr))
        kw = dict(embed_fun=TrainableEmbedding(mod, dom))
    elif emb == "cont":
        kw = dict(embed_fun=lambda v: torch.stack([torch.cos(v), v], -1), domain=unit_interval)
    else:
        e = init_mlp_embed(2, num_layers=2, hidden_dims=[3])
        for k, p in enumerate(e.parameters()):
            put(p, gen(tuple(p.shape), "mlp", k))
        kw = dict(embed_fun=e)
    model = pmake(unif, n, d, 2, cplx, bias, **kw)
    pfill(model, "c14e", n)
    params = list(model.named_parameters())
    b = model.bias_mat if bias else None
    if emb in ("cont", "mlp"):
        # quadrature of the norm: transfer operator of Gauss-Legendre points
        z, w = np.polynomial.legendre.leggauss(12)
        pts, wts = tens((z + 1) / 2), (w / 2).tolist()
        x = leaf(np.abs(gen([3, n], "x")) % 1)
        ws = dict(kw["embed_fun"].named_parameters()) if emb == "mlp" else None

        def f(v):
            if emb == "cont":
                return torch.stack([torch.cos(v), v], -1)
            w0, b0, w1, b1 = ws.values()
            h = 1 / (1 + torch.exp(-(v[..., None] * w0[:, 0] + b0)))
            return 1 / (1 + torch.exp(-(h @ w1.T + b1)))

        tol = 2e-5
        named = params + [("input", x)]
        inp, seqs, points = x, (lambda: f(x)), (lambda: f(pts))
    else:
        idx = torch.as_tensor(grid(range(3), n))[:: max(1, 3**n // 4)]
        tol, named = 1e-9, params
        tab = (lambda: table) if emb == "fixed" else (lambda: mod.weight)
        inp, seqs, points, wts = idx, (lambda: tab()[idx]), tab, [1.0] * 3

    def reference():
        if n == 3 and emb in ("cont", "mlp"):
            return transfer_log_prob(cores_of(model, n), model.edge_vecs, seqs(), points(), wts, b)
        return tref.log_prob(cores_of(model, n), model.edge_vecs, seqs(), points(), wts, b)

    check(ctx, lambda: model(inp, **flags), reference, named, model, emb, tol=tol)


def transfer_log_prob(cores, edges, seqs, points, weights, bias):
    """As tref.log_prob, with the sum over sequences done site by site"""
    dm = torch.outer(edges[0], edges[0].conj())
    log = 0.0
    for c in cores:
        c = c if bias is None else c + bias
        new = 0.0
        for p, w in zip(points, weights):
            m = sum(c[i] * p[i] for i in range(c.shape[0]))
            new = new + w * (m.transpose(0, 1) @ dm @ m.conj())
        s = float(new.abs().max().detach())
        dm, log = new / s, log + np.log(s)
    norm = torch.log((edges[1] @ dm @ edges[1].conj()).real) + log
    out = []
    for x in seqs:
        v, l = edges[0], 0.0
        for c, y in zip(cores, x):
            v = v @ sum((c[i] if bias is None else c[i] + bias) * y[i] for i in range(c.shape[0]))
            s = float(v.abs().max().detach())
            v, l = v / s, l + np.log(s)
        a = (v * edges[1]).sum()
        out.append(torch.log((a * a.conj()).real) + 2 * l - norm)
    return torch.stack(out)


def run_zero(ctx, unif, cplx, mode):
    """Inputs of probability zero leave the gradients of the others alone"""
    flags = FLAGS[mode]
    n, d = (3, 2) if unif else (2, 2)
    points = torch.eye(d)
    idx = torch.as_tensor(grid(range(d), n))
    for zero in itertools.product([0, 1], repeat=d if unif else n * d):
        model = pmake(unif, n, d, 2, cplx, False)
        pfill(model, "c14z", n)
        with torch.no_grad():
            c = model.core_tensors.view(-1, 2, 2)
            c[torch.tensor(zero) == 1] = 0
        z = np.reshape(zero, [1, d] if unif else [n, d])
        alive = [b for b, s in enumerate(idx.tolist()) if not any(z[0 if unif else t][i] for t, i in enumerate(s))]
        if not alive:
            continue
        ctx.trace = {"zero slices": zero}
        params = list(model.named_parameters())
        got = model(idx, **flags)
        want = tref.log_prob(cores_of(model, n), model.edge_vecs, points[idx[alive]], points, [1.0] * d)
        dead = [b for b in range(len(idx)) if b not in alive]
        expect(bool((got[dead] == -np.inf).all()), "zero probability", got=np64(got))
        targets = [(got[b], want[k]) for k, b in enumerate(alive)] + [(got[alive].sum(), want.sum())]
        for k, (g, w) in enumerate(targets):
            for (name, _), a, b in zip(params, grads(g, [p for _, p in params]), grads(w, [p for _, p in params])):
                ok = a is not None and np.isfinite(a).all() and np.abs(a - b).max() <= 1e-9 * max(1e-2, np.abs(b).max())
                expect(ok, f"gradient of {name} in a batch with impossible inputs", got=a, want=b)
            ctx.eval((zero, k))


def run_long(ctx, unif, cplx, bias, mode):
    flags = FLAGS[mode]
    points, wts = torch.eye(2), [1.0, 1.0]
    for n in [5, 8, 16, 33, 64]:
        for scale in [1.0, 1e-30, 1e30]:
            model = pmake(unif, n, 2, 2, cplx, bias)
            shape = tuple(model.core_tensors.shape)
            core = 0.4 * gen(shape, "long", n) + np.eye(2)
            if cplx:
                core = core * np.exp(1j * gen(shape, "ph", n))
            put(model.core_tensors, core * scale)
            put(model.edge_vecs, np.array([[1.0, 0.5], [0.7, 1.2]]))
            if bias:
                put(model.bias_mat, scale * 0.2 * gen((2, 2), "b"))
            idx = torch.as_tensor((np.abs(gen([2, n], "i", n)) * 7).astype(int) % 2)
            ctx.trace = {"n": n, "scale": scale}
            params = list(model.named_parameters())
            b = model.bias_mat if bias else None
            got = model(idx, **flags)
            want = transfer_log_prob(cores_of(model, n), model.edge_vecs, points[idx], points, wts, b)
            for k in range(2):
                gg = grads(got[k], [p for _, p in params])
                ww = grads(want[k], [p for _, p in params])
                for (name, _), g, w in zip(params, gg, ww):
                    expect(g is not None, f"no gradient for {name}")
                    e = err(g, w)
                    expect(e <= 1e-8, f"gradient of {name} differs by {e:.3g} (length {n}, scale {scale})", got=g, want=w)
                ctx.eval((n, scale, k))

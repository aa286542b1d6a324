"""C19: malformed inputs are rejected, never answered"""
import copy
import itertools

import numpy as np
import torch

from . import adaptive
from .kinds import KINDS, MPSKind, ProbKind, Table, TIKind, fmap
from .mpsutil import expect, np64, put, tens
from .ref import gen

LEVEL = "exploration"
RULE = (
    "shapes: for every model kind (several evaluation modes each) every input tensor shape "
    "with 0..4 axes of size 1..4; those that do not fit must raise, those that fit must not. "
    "lists: every list of one or two tensors of 0..3 axes for TI_MPS. symbols: every sequence "
    "with at least one symbol at or above the alphabet size. build: constructor and feature map "
    "arguments around the valid ones, one at a time and in pairs. After every rejected call "
    "outputs and parameters are compared with those before. Non-trivial: malformed inputs."
)
ASSUMPTIONS = ["an input is malformed exactly when its shape or symbols do not fit the configuration (listed in valid())"]
SIZES = [1, 2, 3, 4]
EXTRA = [
    MPSKind("mps d3", feature_dim=3),
    MPSKind("mps d3 par periodic", feature_dim=3, parallel_eval=True, periodic_bc=True, label_site=0),
    MPSKind("mps d1", feature_dim=1),
    MPSKind("mps path embedded", width=4, path=[3, 0, 2]),
    TIKind("ti d3", feature_dim=3),
    TIKind("ti d1 par", feature_dim=1, parallel_eval=True),
    TIKind("ti nobias list", mode="list", use_bias=False),
    ProbKind("prob vec par bias", mode="vec", parallel_eval=True, use_bias=True),
    ProbKind("unif bias", unif=True, use_bias=True),
    ProbKind("unif table slim", unif=True, mode="table", slim_eval=True),
    ProbKind("prob onehot slim", mode="onehot", slim_eval=True),
    ProbKind("prob cont complex", mode="cont", complex_params=True),
]
ALL = dict(KINDS)
ALL.update({k.name: k for k in EXTRA})
ADAPTIVE = [(n, label, periodic) for n in [1, 2, 3] for label in [0, n] for periodic in [False, True]]


def bounds(tier):
    return {
        "kinds": list(ALL) + ["adaptive (before, at and after shifts)"],
        "shapes": "0..4 axes of size 1..4" + (", 5 axes of size 1..3" if tier == "thorough" else ""),
        "list elements": "0..3 axes of size 1..3, lists of one and two",
        "symbols": "alphabet 1..3, length 1..3, values up to alphabet + 2 and 1000, all modes",
        "wide": "lengths up to 100, feature dimensions and alphabets up to 257, and sizes near them",
        "constructor sizes": "-2..3",
    }


def cases(tier):
    out = [["shapes", k] for k in ALL]
    out += [["adaptive", *a] for a in ADAPTIVE]
    for bias, par in itertools.product(["none", "fixed", "trainable"], [False, True]):
        for fm in ["default", "map3", "nomap3"]:
            out.append(["lists", bias, par, fm])
    for unif, cplx, bias in itertools.product([False, True], repeat=3):
        for d in [1, 2, 3]:
            for n in [1, 2, 3]:
                out.append(["symbols", unif, cplx, bias, d, n])
    for cls in ["MPS", "adaptive", "TI_MPS", "ProbMPS", "ProbUnifMPS"]:
        out.append(["build", cls])
        out.append(["wide", cls])
    out += [["maps", "MPS"], ["maps", "adaptive"], ["maps", "TI_MPS"], ["embeddings"], ["paths"]]
    return out


def shapes(tier):
    for k in range(5):
        yield from itertools.product(SIZES, repeat=k)
    if tier == "thorough":
        yield from itertools.product([1, 2, 3], repeat=5)


def rejects(f, what, **data):
    try:
        got = f()
    except Exception:
        return
    if isinstance(got, torch.nn.Module):
        got = type(got).__name__
    expect(False, f"{what} was accepted", got=got, **data)


def params(model):
    return [p.detach().clone() for p in model.parameters()]


def valid(kind, model, shape):
    """Whether a (float, or index for symbol modes) tensor of this shape fits"""
    k = len(shape)
    if isinstance(kind, MPSKind):
        d = model.feature_dim
        scalar = d == 2 or model.feature_map is not None
        if k == 2 and not scalar or k not in (2, 3):
            return False
        if k == 3 and shape[2] != d:
            return False
        path = kind.kw.get("path")
        return shape[1] > max(path) if path else shape[1] == kind.n
    if isinstance(kind, TIKind):
        d = model.feature_dim
        return k == 2 and (d == 2 or model.feature_map is not None) or k == 3 and shape[2] == d
    fits = k >= 2 and (kind.unif or shape[1] == kind.n)
    if kind.mode in ("index", "onehot", "table", "train", "cont"):
        return fits and k == 2
    return fits and k == 3 and shape[2] == kind.d


class Probe:
    """Outputs and parameters of a model, for comparison after rejected calls"""

    def __init__(self, call, model):
        self.call, self.model = call, model
        self.values = params(model)
        self.out = np64(call())

    def check(self, what):
        expect(
            all(torch.equal(a, b) for a, b in zip(self.values, params(self.model))),
            f"{what}: rejected call changed the parameters",
        )
        got = np64(self.call())
        expect(np.abs(got - self.out).max() <= 1e-12 * max(1, np.abs(self.out).max()), f"{what}: rejected call changed the outputs")


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    globals()["run_" + case[0]](ctx, *case[1:])
    ctx.sample({"case": case, "evaluations": ctx.evaluations})


def run_shapes(ctx, name):
    kind = ALL[name]
    model = kind.build()
    x0 = kind.inputs([0, 3])
    probe = Probe(lambda: kind.call(model, x0), model)
    prob = isinstance(kind, ProbKind)
    for count, shape in enumerate(shapes(ctx.tier)):
        ctx.trace = {"shape": shape}
        forms = []
        if prob and kind.mode in ("index", "onehot", "table", "train"):
            forms.append(("symbols", torch.zeros(shape, dtype=torch.long)))
            if kind.mode == "index":
                # a float tensor is a sequence of vectors, never of scalars
                forms.append(("vectors", tens(gen(shape, "x", shape))))
        elif prob and kind.mode == "vec":
            forms.append(("vectors", tens(gen(shape, "x", shape))))
            forms.append(("symbols", torch.zeros(shape, dtype=torch.long)))
        else:
            forms.append(("values", tens(np.abs(gen(shape, "x", shape)) % 1)))
        for form, x in forms:
            if prob and kind.mode in ("index", "vec"):
                ok = len(shape) == (2 if form == "symbols" else 3) and (kind.unif or shape[1] == kind.n)
                ok = ok and (form == "symbols" or shape[2] == kind.d)
            else:
                ok = valid(kind, model, shape)
            if ok:
                got = kind.call(model, x)
                expect(got.shape[0] == shape[0], f"{form} of shape {shape}: batch size {tuple(got.shape)}")
                ctx.eval((shape, form), nontrivial=False)
                ctx.outcome("answered")
                continue
            rejects(lambda: kind.call(model, x), f"{form} of shape {shape}", model=name)
            if prob:
                rejects(lambda: model.loss(x, **kind.flags), f"loss of {form} of shape {shape}", model=name)
            ctx.eval((shape, form))
            ctx.outcome("rejected")
            if count % 7 == 0:
                probe.check(f"{form} of shape {shape}")
    probe.check("all")


def run_adaptive(ctx, n, label, periodic):
    """Malformed calls between the calls of a history do not change its course"""
    for d in [2, 3]:
        bad = []
        for shape in shapes("quick"):
            ok = len(shape) in (2, 3) and shape[1] == n
            ok = ok and (d == 2 if len(shape) == 2 else shape[2] == d)
            if not ok:
                bad.append(tens(gen(shape, "bad", shape)))
        for step in range(4):
            def make():
                torch.manual_seed(3)
                m = adaptive.build(n, label, 2, d, 2, periodic, 3, 1e-10)
                adaptive.fill_active(m, "c19", d)
                for k in range(step):
                    m(tens(gen([3 if k % 2 else 2, n, d], "x", k)))
                return m

            model, twin = make(), make()
            for k, x in enumerate(bad):
                ctx.trace = {"d": d, "calls before": step, "shape": tuple(x.shape)}
                values, bl = params(model), model.bond_list.clone()
                rejects(lambda: model(x), f"input of shape {tuple(x.shape)}")
                expect(all(torch.equal(a, b) for a, b in zip(values, params(model))), "rejected call changed the parameters")
                expect(torch.equal(bl, model.bond_list), "rejected call changed bond_list")
                ctx.eval((d, step, tuple(x.shape)))
                ctx.outcome("rejected")
            for k in range(4):
                x = tens(gen([2, n, d], "y", k))
                a, b = np64(twin(x)), np64(model(x))
                e = np.abs(a - b).max() / max(1.0, np.abs(a).max())
                expect(e <= 1e-8, "rejected calls changed the outputs", got=b, want=a)
                expect(torch.equal(twin.bond_list, model.bond_list), "rejected calls changed the shifts")


def run_wide(ctx, cls):
    """Sizes around larger ones: next to them, multiples, fractions and squares"""
    from torchmps import MPS, TI_MPS, ProbMPS, ProbUnifMPS

    def near(k):
        return sorted({1, 2, k // 2, k - 2, k - 1, k, k + 1, k + 2, 2 * k} - {0, -1})

    prob, seq = cls.startswith("Prob"), cls in ("TI_MPS", "ProbUnifMPS")
    sizes = [(n, 2) for n in [4, 5, 8, 16, 33, 100]] + [(n, d) for n in [3, 8] for d in [4, 5, 8, 9, 16, 17, 32, 64, 100, 257]]
    for n, d in sizes:
        for flag in [False, True]:
            if cls == "TI_MPS":
                model = TI_MPS(2, 2, feature_dim=d, parallel_eval=flag)
            elif prob:
                model = ProbUnifMPS(d, 2, use_bias=flag) if seq else ProbMPS(n, d, 2, use_bias=flag)
            else:
                model = MPS(n, 2, 2, feature_dim=d, parallel_eval=flag, adaptive_mode=cls == "adaptive", merge_threshold=10**9)
            good = tens(gen([2, n, d], "good", n, d))
            probe = Probe(lambda: model(good), model)
            for n2, d2, B in itertools.product(near(n), near(d) + [None], [1, 3]):
                ok = (seq or n2 == n) and (d2 == d if d2 else d == 2 and not prob)
                x = tens(np.abs(gen([B, n2] + ([d2] if d2 else []), "wide", n2, d2)) % 1)
                ctx.trace = {"n": n, "d": d, "shape": tuple(x.shape)}
                if ok:
                    got = model(x)
                    expect(got.shape[0] == B, f"batch size {tuple(got.shape)}")
                else:
                    rejects(lambda: model(x), f"input of shape {tuple(x.shape)}", model=cls)
                ctx.eval((n, d, flag, n2, d2, B), nontrivial=not ok)
                ctx.outcome(ok)
            if prob:
                for kw in [{}, dict(parallel_eval=True)] + ([] if flag else [dict(slim_eval=True)]):
                    for pos in sorted({0, 1, n // 2, n - 1}):
                        for v in [d - 1, d, d + 1, 2 * d, d * d, d + 255, d + 256]:
                            idx = torch.zeros([3, n], dtype=torch.long)
                            idx[1, pos] = v
                            ctx.trace = {"n": n, "d": d, "symbol": v, "position": pos, "mode": kw}
                            if v < d:
                                expect(model(idx, **kw).shape == (3,), "largest symbol")
                            else:
                                rejects(lambda: model(idx, **kw), f"symbol {v} of an alphabet of {d}", model=cls)
                            ctx.eval((n, d, flag, repr(kw), pos, v), nontrivial=v >= d)
            probe.check("all")


def run_lists(ctx, bias, par, fm):
    from torchmps import TI_MPS

    d = 2 if fm == "default" else 3
    model = TI_MPS(2, 2, feature_dim=d, parallel_eval=par, use_bias=bias != "none", fixed_bias=bias != "trainable")
    for name, p in model.named_parameters():
        put(p, gen(tuple(p.shape), name))
    if fm == "map3":
        model.register_feature_map(fmap)
    scalar = fm != "nomap3"
    x0 = tens(gen([2, 3, d], "x0"))
    probe = Probe(lambda: model(x0), model)
    items = [s for k in range(4) for s in itertools.product([1, 2, 3], repeat=k)]

    def fits(s):
        return len(s) == 1 and scalar or len(s) == 2 and s[1] == d

    for s in items:
        for lst in [[s]] + [[s, t] for t in items]:
            ctx.trace = {"list": lst}
            ok = all(fits(t) for t in lst) and len({len(t) for t in lst}) == 1
            ok = ok and (bias == "fixed" or len({t[0] for t in lst}) == 1)
            x = [tens(gen(t, "l", t)) for t in lst]
            if ok:
                got = model(x)
                expect(tuple(got.shape) == (len(lst), 2), f"list {lst}: shape {tuple(got.shape)}")
                ctx.eval(lst, nontrivial=False)
            else:
                rejects(lambda: model(x), f"list of tensors of shapes {lst}")
                ctx.eval(lst)
            ctx.outcome(ok)
        probe.check(f"lists starting with {s}")
    for x in [None, 3, "abc", np.ones([2, 3]), (x0[0],), [[0.5, 0.5]], []]:
        rejects(lambda: model(x), f"input {x!r}")


def run_symbols(ctx, unif, cplx, bias, d, n):
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding, onehot_embed

    from .c09 import fill, make

    modes = [{}, dict(parallel_eval=True)] + ([] if bias else [dict(slim_eval=True)])
    dom = DataDomain(continuous=False, max_val=d)
    table = tens(gen([d, d], "t") + 2 * np.eye(d))
    mod = Table(d, d)
    forms = {
        "plain": {},
        "onehot": dict(embed_fun=lambda x: onehot_embed(x, d), domain=dom),
        "table": dict(embed_fun=FixedEmbedding(lambda x: table[x], dom)),
        "trainable": dict(embed_fun=TrainableEmbedding(mod, dom)),
    }
    for form, kw in forms.items():
        model = make(unif, n, d, 2, cplx, bias, **kw)
        fill(model, "c19")
        x0 = torch.zeros(2, n).long()
        for flags in modes:
            probe = Probe(lambda: model(x0, **flags), model)
            values = list(range(d + 3)) + [1000]
            for seq in itertools.product(values, repeat=n):
                if max(seq) < d:
                    continue
                for batch in [[seq], [[0] * n, seq, [0] * n]]:
                    ctx.trace = {"form": form, "flags": flags, "batch": batch}
                    x = torch.tensor(batch)
                    rejects(lambda: model(x, **flags), f"symbols {batch} with an alphabet of {d}")
                    ctx.eval((form, str(flags), seq, len(batch)))
                    ctx.outcome((form, str(flags)))
            probe.check(form)


def run_build(ctx, cls):
    import torchmps

    if cls in ("MPS", "adaptive"):
        names = ["input_dim", "output_dim", "bond_dim", "feature_dim"]
        extras = [dict(periodic_bc=p, parallel_eval=q, use_bias=b) for p in [False, True] for q in [False, True] for b in [False, True]]
        extras += [dict(label_site=0), dict(label_site=1)]
        if cls == "adaptive":
            extras = [dict(adaptive_mode=True, **e) for e in extras]
        con = torchmps.MPS
    elif cls == "TI_MPS":
        names = ["output_dim", "bond_dim", "feature_dim"]
        extras = [dict(fixed_ends=f, use_bias=b, fixed_bias=c, parallel_eval=p) for f in [False, True] for b in [False, True] for c in [False, True] for p in [False, True]]
        con = torchmps.TI_MPS
    else:
        names = (["seq_len"] if cls == "ProbMPS" else []) + ["input_dim", "bond_dim"]
        extras = [dict(complex_params=c, use_bias=b, init_method=i) for c in [False, True] for b in [False, True] for i in ["near_eye", "normal"]]
        con = getattr(torchmps, cls)
    for sizes in itertools.product([-2, -1, 0, 1, 2, 3], repeat=len(names)):
        kw = dict(zip(names, sizes))
        for extra in extras:
            ctx.trace = {"arguments": {**kw, **extra}}
            ok = min(sizes) > 0
            if extra.get("label_site", 0) > kw.get("input_dim", 9):
                ok = False
            if cls == "TI_MPS" and extra["fixed_ends"] and kw["output_dim"] > kw["bond_dim"]:
                continue  # documented ValueError
            if ok:
                con(**kw, **extra)
            elif min(sizes) <= 0 and not cls.startswith("Prob"):
                continue  # only Born machines state that sizes are positive
            else:
                rejects(lambda: con(**kw, **extra), f"{cls}({kw}, {extra})")
            ctx.eval((sizes, str(extra)), nontrivial=not ok)
            ctx.outcome(ok)
    if cls in ("MPS", "adaptive"):
        for n in [1, 2, 3]:
            for site in range(-3, n + 4):
                for extra in extras[:8]:
                    ctx.trace = {"input_dim": n, "label_site": site, **extra}
                    f = lambda: con(n, 2, 2, label_site=site, **extra)  # noqa: E731
                    if 0 <= site <= n:
                        f()
                    else:
                        rejects(f, f"label site {site} of {n} inputs")
                    ctx.eval((n, site, str(extra)), nontrivial=not 0 <= site <= n)
    if cls.startswith("Prob"):
        for method in ["", "eye", None, 3]:
            rejects(lambda: con(*([2] * len(names)), init_method=method), f"init_method {method!r}")


def run_paths(ctx):
    from torchmps import MPS

    for n in [1, 2, 3]:
        for L in range(0, 6):
            for ad, form in itertools.product([False, True], ["list", "tensor"]):
                p = [k % 2 for k in range(L)]
                p = p if form == "list" else torch.tensor(p, dtype=torch.long)
                ctx.trace = {"input_dim": n, "path": p, "adaptive": ad}
                f = lambda: MPS(n, 2, 2, path=p, adaptive_mode=ad)  # noqa: E731
                if L == n:
                    f()
                else:
                    rejects(f, f"path of length {L} for {n} inputs")
                ctx.eval((n, L, ad, form), nontrivial=L != n)
                ctx.outcome(L == n)


def run_maps(ctx, cls):
    from torchmps import MPS, TI_MPS

    for d in [1, 2, 3]:
        def make():
            if cls == "TI_MPS":
                return TI_MPS(2, 2, feature_dim=d)
            return MPS(3, 2, 2, feature_dim=d, adaptive_mode=cls == "adaptive")

        outs = [s for k in range(4) for s in itertools.product([0, 1, 2, 3, 4], repeat=k)]
        for s in outs:
            for first in [None, "good"]:
                model = make()
                good = lambda x: torch.stack([x * 1.0 + k for k in range(d)])  # noqa: E731
                if first:
                    model.register_feature_map(good)
                ctx.trace = {"feature_dim": d, "map output": s}
                x = tens(gen([2, 3], "x")) if d == 2 or first else tens(gen([2, 3, d], "x"))
                out = np64(model(x))
                if s == (d,):
                    model.register_feature_map(lambda x: torch.ones(s))
                    ctx.eval((d, s, first), nontrivial=False)
                    continue
                rejects(lambda: model.register_feature_map(lambda x: torch.ones(s)), f"feature map with values of shape {s}")
                expect(np.array_equal(np64(model(x)), out), "a rejected feature map took effect")
                ctx.eval((d, s, first))
                ctx.outcome(s)


def run_embeddings(ctx):
    from torchmps import ProbMPS, ProbUnifMPS
    from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding, init_mlp_embed, unit_interval

    disc = DataDomain(continuous=False, max_val=3)
    for d, e in itertools.product([1, 2, 3], [1, 2, 3, 4]):
        table = tens(gen([3, e], "t"))
        f = lambda x: table[x]  # noqa: E731
        g = lambda x: torch.stack([x**k for k in range(e)], -1)  # noqa: E731
        def looked_at():
            emb = TrainableEmbedding(Table(3, e), disc)
            emb.lamb_mat
            return emb

        forms = {
            "function": lambda: dict(embed_fun=f, domain=disc),
            "continuous function": lambda: dict(embed_fun=g, domain=unit_interval),
            "fixed": lambda: dict(embed_fun=FixedEmbedding(f, disc)),
            "trainable": lambda: dict(embed_fun=TrainableEmbedding(Table(3, e), disc)),
            "trainable with overlap": lambda: dict(embed_fun=looked_at()),
            "mlp": lambda: dict(embed_fun=init_mlp_embed(e, 2, [3])),
        }
        for form, cplx, bias in itertools.product(forms, [False, True], [False, True]):
            for cls, args in [(ProbMPS, (2, d, 2)), (ProbUnifMPS, (d, 2))]:
                ctx.trace = {"embedding dimension": e, "input_dim": d, "form": form}
                con = lambda: cls(*args, complex_params=cplx, use_bias=bias, **forms[form]())  # noqa: E731
                if d == e:
                    con()
                elif form in ("trainable", "mlp"):
                    # the dimension may become known only when evaluating
                    x = tens(gen([3, 2], "v") % 1) if form == "mlp" else torch.zeros(3, 2).long()
                    for flags in [{}, dict(parallel_eval=True)] + ([] if bias else [dict(slim_eval=True)]):
                        rejects(lambda: con()(x, **flags), f"{form} embedding of dimension {e} for input_dim {d}")
                        rejects(lambda: con().loss(x, **flags), f"{form} embedding of dimension {e} for input_dim {d}")
                else:
                    rejects(con, f"{form} embedding of dimension {e} for input_dim {d}")
                ctx.eval((d, e, form, cplx, bias, cls.__name__), nontrivial=d != e)
                ctx.outcome((d, e))
    for cls, args in [(ProbMPS, (2, 2, 2)), (ProbUnifMPS, (2, 2))]:
        rejects(lambda: cls(*args, embed_fun=lambda x: torch.ones(tuple(x.shape) + (2,))), "embedding without domain")
    for a, b in itertools.product([-1, 0, 1], repeat=2):
        if a >= b:
            rejects(lambda: DataDomain(True, b, a), f"continuous domain [{a}, {b}]")
    rejects(lambda: DataDomain(False, -1), "negative domain size")

"""
C17: initial parameters

The random source is an environment the check controls: every normal draw is
answered with one constant and every uniform draw with another, for all pairs
of constants in the alphabet, so that each initializer must return exactly
centre + scale * normal * exp(2 pi i uniform).  The same configurations are
then run on the real generator, where entries must be distinct (independent
draws), reproducible from torch's seed and independent of every other one.
"""
import contextlib
import itertools
import random
import warnings

import numpy as np
import torch

from . import ref
from .mpsutil import FixedMPS, expect, fresh, np64, same

LEVEL = "exploration"
RULE = (
    "Every shape, index order, method, cap and scale in the bounds x every answer of the "
    "random source over an alphabet of constants, and the real source. Non-trivial: the "
    "scale and the normal answer are not zero."
)
ASSUMPTIONS = [
    "all randomness comes from torch.randn/randn_like/rand/rand_like/normal or the "
    "in-place samplers, which the check answers",
    "that real draws are normal is checked by four moments of one large tensor per "
    "initializer (fixed seed), not decided",
]
NORMAL = [0.0, 1.0, -2.5]
UNIFORM = [0.0, 0.25, 0.6]


def bounds(tier):
    t = tier == "thorough"
    return {
        "init_tensor": f"all index strings with l, r and up to 2 others, sizes 1..{4 if t else 3}, 3 methods, caps 1..5, 4 scales",
        "near_eye_init / normal_init": f"all shapes with 3..5 axes of size 1..{4 if t else 3}",
        "wide": "one size up to 100 (257)",
        "models": "all constructor configurations over small sizes",
        "answers": f"normal {NORMAL} x uniform {UNIFORM}",
    }


def cases(tier):
    k = 4 if tier == "thorough" else 3
    out = []
    for extra in ["", "s", "si"]:
        for order in itertools.permutations("lr" + extra):
            out.append(["init_tensor", "".join(order), k])
    out += [["zero", "abcd"[:n], k] for n in range(1, 5)]
    for fun in ["near_eye", "normal"]:
        for nd in [3, 4, 5]:
            out.append([fun, nd, k if nd < 5 else 2])
    for n in range(1, 5):
        out.append(["MPS", n])
    out += [["TI_MPS", D] for D in range(1, 5)]
    out += [["Prob", d, D] for d in range(1, 4) for D in range(1, 5)]
    out += [["ends", D] for D in range(1, 5)]
    out += [["defaults", n, ad] for n in range(1, 6) for ad in [False, True]]
    out += [["wide", what] for what in ["init_tensor", "near_eye", "normal", "MPS", "TI_MPS", "Prob"]]
    out += [["real", what] for what in ["init_tensor", "near_eye", "normal", "MPS", "TI_MPS", "Prob"]]
    return out


@contextlib.contextmanager
def answers(normal, uniform, log=None):
    """Replace torch's samplers by constant answers"""
    names = ["randn", "randn_like", "rand", "rand_like", "normal"]
    keep = {n: getattr(torch, n) for n in names}
    keep_t = {n: getattr(torch.Tensor, n) for n in ["normal_", "uniform_"]}

    def shape_of(args, kw):
        size = kw.get("size", args)
        if len(size) == 1 and not isinstance(size[0], int):
            size = size[0]
        return tuple(int(s) for s in size)

    def opts(kw):
        return {k: v for k, v in kw.items() if k in ("dtype", "device", "requires_grad") and v is not None}

    torch.randn = lambda *a, **kw: torch.full(shape_of(a, kw), normal, **{"dtype": torch.get_default_dtype(), **opts(kw)})
    torch.rand = lambda *a, **kw: torch.full(shape_of(a, kw), uniform, **{"dtype": torch.get_default_dtype(), **opts(kw)})
    torch.randn_like = lambda t, **kw: torch.full_like(t, normal, **opts(kw))
    torch.rand_like = lambda t, **kw: torch.full_like(t, uniform, **opts(kw))

    def fake_normal(mean=0.0, std=1.0, size=None, **kw):
        if size is not None:
            return torch.full(tuple(size), float(mean) + float(std) * normal, **opts(kw))
        return mean + std * normal * torch.ones_like(mean if isinstance(mean, torch.Tensor) else std)

    def normal_(self, mean=0.0, std=1.0, generator=None):
        return self.fill_(mean + std * normal)

    def uniform_(self, a=0.0, b=1.0, generator=None):
        return self.fill_(a + (b - a) * uniform)

    torch.normal = fake_normal
    torch.Tensor.normal_ = normal_
    torch.Tensor.uniform_ = uniform_
    try:
        yield
    finally:
        for n, f in keep.items():
            setattr(torch, n, f)
        for n, f in keep_t.items():
            setattr(torch.Tensor, n, f)


def eye_center(shape, bonds, cap=None):
    """Identity in the l and r axes, truncated to its first cap entries"""
    li, ri = bonds.index("l"), bonds.index("r")
    out = np.zeros(shape)
    k = min(shape[li], shape[ri])
    if cap is not None:
        k = min(k, cap)
    for j in range(k):
        ind = [slice(None)] * len(shape)
        ind[li] = ind[ri] = j
        out[tuple(ind)] = 1
    return out


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case[0]](ctx, *case[1:])


def run_init_tensor(ctx, bonds, k):
    from torchmps.utils import init_tensor
    init_tensor = fresh(init_tensor)

    for shape in itertools.product(range(1, k + 1), repeat=len(bonds)):
        for std in [0.0, 1e-9, 0.5, 3.0]:
            methods = [(("random_eye", std), eye_center(shape, bonds), std)]
            methods.append((("random_zero", std), np.zeros(shape), std))
            # extra entries are allowed and ignored
            methods.append((("random_zero", std, 2), np.zeros(shape), std))
            for cap in range(1, 6):
                methods.append((("min_random_eye", std, cap), eye_center(shape, bonds, cap), std))
            if std == 1e-9:
                methods += [("random_eye", eye_center(shape, bonds), 1e-9), ("random_zero", np.zeros(shape), 1e-9)]
            for method, center, scale in methods:
                for nrm in NORMAL:
                    with answers(nrm, 0.3):
                        got = init_tensor(list(shape), bonds, method)
                    same(got, center + scale * nrm, 1e-12, "init_tensor", shape=shape, bonds=bonds, method=method, normal=nrm)
                    ctx.eval((shape, repr(method), nrm), nontrivial=scale * nrm != 0)
                ctx.outcome(center.tobytes())
    for bad in ["unknown", ("eye", 0.1)]:
        try:
            init_tensor(list(shape), bonds, bad)
            expect(False, "unknown method is accepted", method=bad)
        except ValueError:
            pass
    ctx.sample({"bond_str": bonds, "shape": shape, "methods": [repr(m[0]) for m in methods[:3]]})


def run_zero(ctx, bonds, k):
    from torchmps.utils import init_tensor
    init_tensor = fresh(init_tensor)

    for shape in itertools.product(range(1, k + 1), repeat=len(bonds)):
        for std, nrm in itertools.product([0.0, 1e-9, 0.5], NORMAL):
            with answers(nrm, 0.3):
                got = init_tensor(list(shape), bonds, ("random_zero", std))
            same(got, np.full(shape, std * nrm), 1e-12, "random_zero", shape=shape)
            ctx.eval((shape, std, nrm), nontrivial=std * nrm != 0)
    ctx.sample({"bond_str": bonds, "shape": shape})


def noise(nrm, uni, cplx):
    return nrm * np.exp(2j * np.pi * uni) if cplx else nrm


def prob_init(ctx, fun, nd, k, center, default, factor, argname):
    for shape in itertools.product(range(1, k + 1), repeat=nd):
        square = shape[-1] == shape[-2]
        if not square and np.prod(shape[:-3]) != 1:
            try:
                fun(shape)
                expect(False, "non-square slices of a batch are accepted", shape=shape)
            except ValueError:
                ctx.eval((shape, "rejected"), nontrivial=False)
            continue
        for cplx, nrm, uni in itertools.product([False, True], NORMAL, UNIFORM):
            for arg in [None, 0.0, 0.5, 2.0]:
                kw = {} if arg is None else {argname: arg}
                if not cplx and uni:
                    # real is the default
                    with answers(nrm, uni):
                        got = fun(shape, **kw)
                else:
                    with answers(nrm, uni):
                        got = fun(shape, is_complex=cplx, **kw)
                scale = default if arg is None else arg
                want = center(shape) + scale * factor(shape) * noise(nrm, uni, cplx)
                expect(got.is_complex() == cplx, "complex tensor", shape=shape, cplx=cplx)
                tol = 1e-12 if cplx else 1e-7  # slice size may be rounded to float32
                same(got, want * np.ones(shape), 1e-6, fun.__name__, shape=shape, cplx=cplx, arg=arg, normal=nrm, uniform=uni)
                if nrm and scale and center(shape).any():
                    same(np64(got) - center(shape), (want - center(shape)) * np.ones(shape), 1e-6,
                         "noise of " + fun.__name__, shape=shape, arg=arg)
                ctx.eval((shape, cplx, nrm, uni, arg), nontrivial=scale * nrm != 0)
    ctx.sample({"shape": shape, "initializer": fun.__name__})


def prob_eye(shape):
    return np.broadcast_to(np.eye(*shape[-2:]), shape)


def run_near_eye(ctx, nd, k):
    from torchmps.mps_base import near_eye_init
    near_eye_init = fresh(near_eye_init)

    prob_init(ctx, near_eye_init, nd, k, prob_eye, 1e-3, lambda s: 1 / np.sqrt(s[-1] * s[-2]), "noise")


def run_normal(ctx, nd, k):
    from torchmps.mps_base import normal_init
    normal_init = fresh(normal_init)

    prob_init(ctx, normal_init, nd, k, lambda s: np.zeros(s), 1.0, lambda s: 1 / s[-1], "rel_std")


def run_MPS(ctx, n):
    from torchmps import MPS

    for label, D, d, o, periodic in itertools.product(range(n + 1), [1, 2, 3], [1, 2, 3], [1, 2, 4], [False, True]):
        for std, nrm in itertools.product([None, 0.0, 0.5], NORMAL):
            kw = {} if std is None else {"init_std": std}
            scale = 1e-9 if std is None else std
            for bias in [True, False]:
                with answers(nrm, 0.3):
                    m = MPS(n, o, D, feature_dim=d, periodic_bc=periodic, label_site=label, use_bias=bias, **kw)
                fm = FixedMPS(m)
                a = fm.arrays()
                info = dict(n=n, label=label, D=D, d=d, o=o, bias=bias, std=std, normal=nrm)
                expect(a["label"] == label, "label site", **info)
                sizes = (len(m), m.core_len(), len(m.linear_region), m.linear_region.core_len())
                expect(sizes == (n, n + 1, n, n + 1), "input sites and cores", got=sizes, **info)
                learn = {id(p) for p in m.parameters() if p.requires_grad}
                expect(all(id(t) in learn for t in fm.params()), "not trainable", **info)
                same(a["cores"], np.full((n, D, D, d), scale * nrm), 1e-12, "input cores", **info)
                same(a["out_core"], eye_center((o, D, D), "olr") + scale * nrm, 1e-12, "output core", **info)
                if bias:
                    same(a["bias"], np.broadcast_to(np.eye(D), (n, D, D)), 1e-12, "bias", **info)
                ctx.eval((label, D, d, o, periodic, std, nrm, bias), nontrivial=scale * nrm != 0)
            if std is None or label % 2:
                continue
            # adaptive: cores near a truncated identity, merged pairwise
            with answers(nrm, 0.3):
                m = MPS(n, o, D, feature_dim=d, periodic_bc=periodic, label_site=label, adaptive_mode=True, **kw)
            from .adaptive import active_chain, contract_chain

            core = eye_center((D, D, d), "lri", o) + scale * nrm
            oc = eye_center((o, D, D), "olr", o) + scale * nrm
            x = ref.vals((2, n, d), "a17")
            want = ref.mps_output_fast(np.array([core] * n), oc, label, x, periodic)
            same(contract_chain(active_chain(m), x, periodic), want, 1e-10, "adaptive initial cores", **info)
            ctx.eval((label, D, d, o, periodic, std, nrm, "adaptive"), nontrivial=scale * nrm != 0)
    ctx.sample({"input_dim": n})


def run_wide(ctx, what):
    """The same with one of the sizes large"""
    from torchmps import MPS, TI_MPS
    from torchmps.mps_base import near_eye_init, normal_init
    from torchmps.prob_mps import ProbMPS, ProbUnifMPS
    from torchmps.utils import init_tensor

    large = [*range(4, 21), 31, 32, 33, 50, 64, 65, 100]
    if what == "init_tensor":
        for k, bonds, pos in itertools.product(large + [257], ["lr", "lri", "slri", "slrij"], range(5)):
            if pos >= len(bonds):
                continue
            for shape in [[2] * len(bonds), [3] * len(bonds), [k if c in "lr" and k < 70 else 2 for c in bonds]]:
                shape[pos] = k
                for method, center in [
                    (("random_eye", 0.5), eye_center(shape, bonds)), (("random_zero", 0.5), np.zeros(shape)),
                    (("min_random_eye", 0.5, 2), eye_center(shape, bonds, 2)), (("min_random_eye", 0.5, k), eye_center(shape, bonds, k)),
                ]:
                    with answers(-2.5, 0.3):
                        got = init_tensor(list(shape), bonds, method)
                    same(got, center - 1.25, 1e-12, "init_tensor", shape=shape, bonds=bonds, method=method)
                    ctx.eval((shape, bonds, repr(method)))
    elif what in ("near_eye", "normal"):
        for k in large:
            for shape in [(k, 3, 3), (2, k, k), (k, 4, 2, 2), (2, 3, k, k), (1, 2, k, 3), (1, 3, 2, k)]:
                for cplx in [False, True]:
                    with answers(1.0, 0.6):
                        if what == "near_eye":
                            got = near_eye_init(shape, is_complex=cplx, noise=0.5)
                            want = prob_eye(shape) + 0.5 / np.sqrt(shape[-1] * shape[-2]) * noise(1.0, 0.6, cplx)
                        else:
                            got = normal_init(shape, is_complex=cplx, rel_std=0.5)
                            want = np.ones(shape) * 0.5 / shape[-1] * noise(1.0, 0.6, cplx)
                    same(got, want, 1e-6, what, shape=shape, cplx=cplx)
                    ctx.eval((shape, cplx))
    elif what == "MPS":
        for n, o, D, d in [(k, 2, 2, 2) for k in large] + [(3, k, 2, 2) for k in large] + [(3, 2, k, 2) for k in large] + [(3, 2, 2, k) for k in large]:
            for periodic, ad in itertools.product([False, True], repeat=2):
                with answers(1.0, 0.3):
                    m = MPS(n, o, D, feature_dim=d, periodic_bc=periodic, init_std=0.01, adaptive_mode=ad)
                info = dict(n=n, o=o, D=D, d=d, periodic=periodic, adaptive=ad)
                if ad:
                    from .adaptive import active_chain, contract_chain

                    core, oc = eye_center((D, D, d), "lri", o) + 0.01, eye_center((o, D, D), "olr", o) + 0.01
                    x = ref.vals((2, n, d), "a17", lo=1, hi=2) / (1.5 * d)
                    want = ref.mps_output_fast(np.array([core] * n), oc, n // 2, x, periodic)
                    same(contract_chain(active_chain(m), x, periodic), want, 1e-8, "adaptive initial cores", **info)
                else:
                    a = FixedMPS(m).arrays()
                    same(a["cores"], np.full((n, D, D, d), 0.01), 1e-12, "input cores", **info)
                    same(a["out_core"], eye_center((o, D, D), "olr") + 0.01, 1e-12, "output core", **info)
                    same(a["bias"], np.broadcast_to(np.eye(D), (n, D, D)), 1e-12, "bias", **info)
                ctx.eval((n, o, D, d, periodic, ad))
    elif what == "TI_MPS":
        for o, D, d in [(k, 3, 2) for k in large] + [(2, k, 2) for k in large] + [(2, 3, k) for k in large]:
            for fixed, fb in itertools.product([False, True], repeat=2):
                if fixed and o > D:
                    continue
                with answers(1.0, 0.3):
                    m = TI_MPS(o, D, feature_dim=d, fixed_ends=fixed, fixed_bias=fb, init_std=0.01)
                info = dict(o=o, D=D, d=d, fixed=fixed, fixed_bias=fb)
                same(np64(m.core_tensor), np.full((D, D, d), 0.01), 1e-12, "core", **info)
                same(np64(m.init_vector.vec), np.ones(D), 1e-12, "initial vector", **info)
                same(np64(m.terminal_mat.mat), np.eye(D, o) + (0 if fixed else 1 / D), 1e-12, "terminal matrix", **info)
                if not fb:
                    same(np64(m.bias_mat), np.eye(D) + 0.01, 1e-12, "bias", **info)
                ctx.eval((o, D, d, fixed, fb))
    else:
        for n, d, D in [(k, 2, 2) for k in large] + [(3, k, 2) for k in large] + [(3, 2, k) for k in large]:
            for cplx, unif, bias in itertools.product([False, True], repeat=3):
                with answers(1.0, 0.6):
                    args = (d, D) if unif else (n, d, D)
                    m = (ProbUnifMPS if unif else ProbMPS)(*args, complex_params=cplx, use_bias=bias)
                    p = dict(m.named_parameters())
                shape = (d, D, D) if unif else (n, d, D, D)
                info = dict(n=n, d=d, D=D, cplx=cplx, uniform=unif, bias=bias)
                z = noise(1.0, 0.6, cplx)
                noisy = np64(p["core_tensors"]) - prob_eye(shape)
                same(noisy, 1e-3 / D * z * np.ones(shape), 1e-4, "noise of the core tensors", **info)
                same(p["edge_vecs"], np.full((2, D), z / np.sqrt(D)), 1e-6, "edge vectors", **info)
                expect(not bias or not np64(p["bias_mat"]).any(), "bias is not zero", **info)
                ctx.eval((n, d, D, cplx, unif, bias))
    ctx.outcome(what)
    ctx.sample({"wide": what})


def run_ends(ctx, D):
    """Initial vectors and terminal matrices on their own"""
    from torchmps.torchmps import InitialVector, TerminalOutput

    for fill, fixed, left, B in itertools.product([None] + list(range(D + 1)), [True, False], [True, False], [None, 1, 3]):
        m = InitialVector(D, fill_dim=fill, fixed_vec=fixed, is_left_vec=left)
        want = (np.arange(D) < (D if fill is None else fill)) * 1.0
        info = dict(D=D, fill=fill, fixed=fixed, left=left, batch=B)
        expect([k for k, _ in m.named_parameters()] == ([] if fixed else ["vec"]), "trainable parameters", **info)
        expect(list(m.state_dict()) == ["vec"], "state", **info)
        out = m(batch_size=3 if B is None else B)
        same(out.tensor, np.broadcast_to(want, (B or 3, D)), 0.0, "initial vector", **info)
        expect(out.bond_str == ("br" if left else "bl"), "open bond", **info)
        if B is None:  # without batch size: the last one set
            same(m().tensor, np.broadcast_to(want, (3, D)), 0.0, "initial vector", **info)
        expect(len(m) == 0 and m.core_len() == 1, "sizes", **info)
        ctx.eval(("vec", fill, fixed, left, B), nontrivial=fill != 0)
    m = InitialVector(D)  # by default: fixed, all ones
    expect(not list(m.parameters()), "the default initial vector is fixed", D=D)
    same(m(2).tensor, np.ones((2, D)), 0.0, "default initial vector", D=D)
    for o, fixed, left, nrm, B in itertools.product([1, 2, 4], [True, False], [True, False], NORMAL, [1, 3]):
        if fixed and o > D:
            try:
                TerminalOutput(D, o, fixed_mat=True)
                expect(False, "a fixed terminal matrix needs bond_dim >= output_dim", D=D, o=o)
            except ValueError:
                continue
        with answers(nrm, 0.3):
            m = TerminalOutput(D, o, fixed_mat=fixed, is_left_mat=left)
        want = np.eye(D, o) + (0 if fixed else nrm / D)
        info = dict(D=D, o=o, fixed=fixed, left=left, batch=B, normal=nrm)
        expect([k for k, _ in m.named_parameters()] == ([] if fixed else ["mat"]), "trainable parameters", **info)
        out = m(batch_size=B)
        same(out.tensor, np.broadcast_to(want, (B, D, o)), 1e-12, "terminal matrix", **info)
        expect(out.bond_str == ("bro" if left else "blo"), "open bond", **info)
        expect(len(m) == 0 and m.core_len() == 1, "sizes", **info)
        ctx.eval(("mat", o, fixed, left, nrm, B), nontrivial=nrm != 0)
    ctx.sample({"bond_dim": D})


def run_defaults(ctx, n, adaptive):
    """Leaving out arguments is the same as giving their documented defaults"""
    from torchmps import MPS, TI_MPS
    from torchmps.prob_mps import ProbMPS, ProbUnifMPS

    o, D = 2, 4
    # README.md and the class documentation
    doc = dict(
        feature_dim=2, periodic_bc=False, parallel_eval=False, label_site=n // 2, path=None, init_std=1e-9,
        use_bias=True, adaptive_mode=False, cutoff=1e-9, merge_threshold=2000,
    )
    doc["adaptive_mode"] = adaptive

    def history(kw):
        torch.manual_seed(5)
        m = MPS(n, o, D, **kw)
        seen = [(k, np64(v)) for k, v in sorted(m.state_dict().items())]
        x = torch.linspace(-1, 1, 4 * n).view(4, n)
        if adaptive:
            # singular values around the cutoff, inputs around the threshold
            for p in m.parameters():
                if p.dim() == 5:  # a pair of input cores, l x r x i x j
                    with torch.no_grad():
                        p.zero_()
                        for k, sv in enumerate([1.0, 1e-4, 4e-9, 4e-10]):
                            p[:, k, k, 0, 0] = sv
            sizes = [1999, 1, 1, 1999, 1, 4]
        else:
            sizes = [4, 1, 4]
        for b in sizes:
            y = m(x[torch.arange(b) % 4])
            seen.append(("call", np64(y[-4:])))
            seen += [("bonds", np.array(m.bond_list))] if adaptive else []
        return seen

    names = list(doc) if adaptive else [k for k in doc if k not in ("cutoff", "merge_threshold")]
    want = history(doc)
    for omit in [[k] for k in names] + [names]:
        kw = {k: v for k, v in doc.items() if k not in omit or (k == "adaptive_mode" and adaptive)}
        got = history(kw)
        expect([k for k, _ in got] == [k for k, _ in want], "state of the model", omitted=omit)
        for i, ((k, a), (_, b)) in enumerate(zip(got, want)):
            same(a, b, 1e-12, f"{k} with defaults", omitted=omit, step=i)
        ctx.eval((omit, "MPS"))
    if adaptive:
        ctx.outcome(repr([a.tolist() for k, a in want if k == "bonds"]))
        return
    docs = [
        (lambda **kw: TI_MPS(2, n, **kw), dict(feature_dim=2, parallel_eval=False, fixed_ends=False, init_std=1e-9, use_bias=True, fixed_bias=True)),
        (lambda **kw: ProbMPS(n, 2, 3, **kw), dict(complex_params=False, use_bias=False, init_method="near_eye", embed_fun=None, domain=None)),
        (lambda **kw: ProbUnifMPS(n, 3, **kw), dict(complex_params=False, use_bias=False, init_method="near_eye", embed_fun=None, domain=None)),
    ]
    for j, (make, doc2) in enumerate(docs):
        def state(kw):
            torch.manual_seed(5)
            return [(k, np64(v)) for k, v in sorted(make(**kw).state_dict().items())]

        want = state(doc2)
        for omit in [[k] for k in doc2] + [list(doc2)]:
            got = state({k: v for k, v in doc2.items() if k not in omit})
            expect([k for k, _ in got] == [k for k, _ in want], "state of the model", omitted=omit, model=j)
            for (k, a), (_, b) in zip(got, want):
                same(a, b, 0.0, f"{k} with defaults", omitted=omit, model=j)
            ctx.eval((omit, j))
    ctx.sample({"input_dim": n, "defaults": {k: repr(v) for k, v in doc.items()}})


def run_TI_MPS(ctx, D):
    from torchmps import TI_MPS

    for d, o, fixed, (ub, fb) in itertools.product(
        [1, 2, 3], [1, 2, 4], [False, True], [(True, True), (True, False), (False, True)]
    ):
        if fixed and o > D:
            continue
        for std, nrm in itertools.product([None, 0.0, 0.5], NORMAL):
            kw = {} if std is None else {"init_std": std}
            scale = 1e-9 if std is None else std
            with answers(nrm, 0.3):
                m = TI_MPS(o, D, feature_dim=d, fixed_ends=fixed, use_bias=ub, fixed_bias=fb, **kw)
            info = dict(D=D, d=d, o=o, fixed=fixed, bias=(ub, fb), std=std, normal=nrm)
            same(m.core_tensor, np.full((D, D, d), scale * nrm), 1e-12, "core", **info)
            same(m.init_vector.vec, np.ones(D), 1e-12, "initial vector", **info)
            want = np.eye(D, o) + (0 if fixed else nrm / D)
            same(m.terminal_mat.mat, want, 1e-12, "terminal matrix", **info)
            if ub:
                want = np.eye(D) + (0 if fb else scale * nrm)
                same(m.bias_mat, want, 1e-12, "bias", **info)
            else:
                expect(m.bias_mat is None, "bias", **info)
            train = {"core_tensor"} | (set() if fixed else {"init_vector.vec", "terminal_mat.mat"})
            if ub and not fb:
                train.add("bias_mat")
            expect({k for k, _ in m.named_parameters()} == train, "trainable parameters", **info)
            ctx.eval((d, o, fixed, ub, fb, std, nrm), nontrivial=scale * nrm != 0)
    ctx.sample({"bond_dim": D})


def run_Prob(ctx, d, D):
    from torchmps.prob_mps import ProbMPS, ProbUnifMPS

    for n, cplx, bias, method, nrm, uni in itertools.product(
        [None, 1, 2, 3], [False, True], [False, True], ["near_eye", "normal", None], NORMAL, UNIFORM
    ):
        kw = dict(complex_params=cplx, use_bias=bias)
        if method:
            kw["init_method"] = method
        with answers(nrm, uni):
            m = ProbUnifMPS(d, D, **kw) if n is None else ProbMPS(n, d, D, **kw)
        shape = (d, D, D) if n is None else (n, d, D, D)
        z = noise(nrm, uni, cplx)
        core = z / D * np.ones(shape) if method == "normal" else prob_eye(shape) + 1e-3 / D * z
        info = dict(n=n, d=d, D=D, cplx=cplx, bias=bias, method=method, normal=nrm, uniform=uni)
        same(m.core_tensors, core, 1e-6, "core tensors", **info)
        same(np64(m.core_tensors) - prob_eye(shape) * (method != "normal"), core - prob_eye(shape) * (method != "normal"), 1e-6, "noise", **info)
        same(m.edge_vecs, np.full((2, D), z / np.sqrt(D)), 1e-6, "edge vectors", **info)
        expect(m.core_tensors.is_complex() == cplx and m.edge_vecs.is_complex() == cplx, "dtype", **info)
        expect(m.use_bias == bias, "use_bias", **info)
        expect((m.input_dim, m.bond_dim) == (d, D) and (n is None or m.seq_len == n), "reported sizes", **info)
        names = {k for k, _ in m.named_parameters()}
        expect(names == {"core_tensors", "edge_vecs"} | ({"bias_mat"} if bias else set()), "parameters", **info)
        if bias:
            expect(tuple(m.bias_mat.shape) == (D, D) and not np64(m.bias_mat).any(), "bias is not zero", **info)
            expect(m.bias_mat.is_complex() == cplx, "dtype of the bias", **info)
        ctx.eval((n, cplx, bias, method, nrm, uni), nontrivial=nrm != 0)
    ctx.sample({"input_dim": d, "bond_dim": D})


def many(ctx, what):
    """Every size alone, small and large: the draws of all entries are different"""
    import torchmps
    from torchmps.mps_base import near_eye_init, normal_init
    from torchmps.prob_mps import ProbMPS, ProbUnifMPS
    from torchmps.utils import init_tensor
    near_eye_init, normal_init, init_tensor = fresh(near_eye_init), fresh(normal_init), fresh(init_tensor)

    # in single precision different draws can coincide
    torch.set_default_dtype(torch.float64)
    for size in list(range(1, 41)) + [48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025]:
        torch.manual_seed(size)
        made = []  # (name, array, number of entries whose noise is independent)
        if what == "init_tensor":
            for k, shape in enumerate([[size, 2, 2, 2], [2, size, 2, 2], [2, 2, size, 2], [2, 2, 2, size]]):
                for method in [("random_eye", 0.5), ("random_zero", 0.5), ("min_random_eye", 0.5, 2)]:
                    made.append(((k, method), init_tensor(shape, "slri", method)))
        elif what in ("near_eye", "normal"):
            fun = near_eye_init if what == "near_eye" else normal_init
            for c in [False, True]:
                made.append(((0, c), fun((size, 2, 3, 3), c, 0.5)))
                made.append(((1, c), fun((3, size, 2, 2), c, 0.5)))
                made.append(((2, c), fun((size, 2, 2), c, 0.5)))
                if size < 300:
                    made.append(((3, c), fun((2, 2, size, size), c, 0.5)))
        elif what == "MPS":
            if size < 300:
                mps = torchmps.MPS(size, 2, 3, label_site=size // 2, init_std=0.5)
                made.append(("cores", torch.cat([p.reshape(-1) for p in mps.parameters() if p.dim() > 2])))
                mps = torchmps.MPS(3, 2, size, init_std=0.5)
                made.append(("bonds", torch.cat([p.reshape(-1) for p in mps.parameters() if p.dim() > 2])))
            mps = torchmps.MPS(3, size, 3, init_std=0.5)
            made.append(("labels", torch.cat([p.reshape(-1) for p in mps.parameters() if p.dim() > 2])))
        elif what == "TI_MPS":
            for k, m in enumerate([torchmps.TI_MPS(size, 3, init_std=0.5), torchmps.TI_MPS(2, min(size, 300), init_std=0.5)]):
                made.append((k, torch.cat([p.reshape(-1) for p in m.parameters() if p.dim() > 2])))
        else:
            for c, m in itertools.product([False, True], ["near_eye", "normal"]):
                made.append((("sites", c, m), ProbMPS(size, 2, 3, c, False, m).core_tensors))
                made.append((("alphabet", c, m), ProbMPS(2, size, 3, c, False, m).core_tensors))
                made.append((("unif", c, m), ProbUnifMPS(size, 3, c, False, m).core_tensors))
                if size < 200:
                    made.append((("bond", c, m), ProbMPS(2, 2, size, c, False, m).core_tensors))
        for name, t in made:
            a = np64(t).reshape(-1)
            a = a[(a != 0) & (a != 1)]  # entries without noise
            expect(len(a) > 0, "no noise at all", what=name, size=size)
            # magnitudes of the offsets from 0 or 1: also entries of opposite sign are related
            for parts in [np.abs(a)] if what == "normal" else [np.abs(a), np.abs(a - 1)]:
                expect(len(np.unique(parts)) == len(parts), "noise entries are repeated", what=name, size=size)
        ctx.eval(("many", size), n=len(made))


def run_real(ctx, what):
    """The real random source"""
    import torchmps
    from torchmps.mps_base import near_eye_init, normal_init
    near_eye_init, normal_init = fresh(near_eye_init), fresh(normal_init)
    from torchmps.prob_mps import ProbMPS, ProbUnifMPS
    from torchmps.utils import init_tensor
    init_tensor = fresh(init_tensor)

    many(ctx, what)
    makers = []
    if what == "init_tensor":
        for method in [("random_eye", 0.5), ("random_zero", 0.5), ("min_random_eye", 0.5, 2)]:
            makers.append((lambda m=method: [init_tensor([3, 4, 4, 2], "slri", m)], 0.5))
            makers.append((lambda m=method: [init_tensor([9, 40, 40], "olr", m)], 0.5))
    elif what == "near_eye":
        for c in [False, True]:
            makers.append((lambda c=c: [near_eye_init((5, 3, 6, 6), c, 0.6)], 0.1))
            makers.append((lambda c=c: [near_eye_init((9, 40, 40), c, 4.0)], 0.1))
    elif what == "normal":
        for c in [False, True]:
            makers.append((lambda c=c: [normal_init((5, 3, 6, 6), c, 1.2)], 0.2))
            makers.append((lambda c=c: [normal_init((9, 40, 40), c)], 1 / 40))
    elif what == "MPS":
        for ad in [False, True]:
            makers.append((lambda ad=ad: list(torchmps.MPS(6, 3, 4, label_site=3, adaptive_mode=ad, use_bias=False, init_std=0.5).parameters()), None))
    elif what == "TI_MPS":
        makers.append((lambda: list(torchmps.TI_MPS(3, 4, init_std=0.5, fixed_bias=False).parameters()), None))
    else:
        for c, m in itertools.product([False, True], ["near_eye", "normal"]):
            makers.append((lambda c=c, m=m: list(ProbMPS(5, 2, 3, c, False, m).parameters()), None))
            makers.append((lambda c=c, m=m: list(ProbUnifMPS(2, 3, c, True, m).parameters()), None))
    for i, (make, scale) in enumerate(makers):
        for seed in [0, 1]:
            for others in [0, 5]:
                np.random.seed(others)
                random.seed(others)
                state = (np.random.get_state()[1].copy(), random.getstate())
                torch.manual_seed(seed)
                got = [np64(t) for t in make()]
                after = torch.rand(1).item()
                expect(
                    np.array_equal(np.random.get_state()[1], state[0]) and random.getstate() == state[1],
                    "consumes randomness other than torch's", maker=i,
                )
                if others == 0:
                    first, first_after = got, after
                else:
                    expect(
                        len(got) == len(first) and all(np.array_equal(a, b) for a, b in zip(got, first)) and after == first_after,
                        "not determined by torch's seed", maker=i,
                    )
            if seed == 0:
                zero = first
            else:
                expect(any(not np.array_equal(a, b) for a, b in zip(zero, first)), "seed has no effect", maker=i)
            if scale is not None:
                a = first[0]
                ident = np.abs(a.reshape(-1)) if np.iscomplexobj(a) else a.reshape(-1)
                frac = a.reshape(-1)
                rounded = np.round(frac.real) if what != "normal" else 0
                expect(len(np.unique(frac)) == a.size, "noise entries are repeated", maker=i, size=a.size)
                if a.size > 5000:
                    if what == "near_eye":
                        a = a - np.eye(40)
                    elif "eye" in repr(i) or what == "init_tensor":
                        k = i // 2
                        a = a - (eye_center(a.shape, "olr", 2 if k == 2 else None) if k != 1 else 0)
                    z = np.abs(a.reshape(-1)) / scale if np.iscomplexobj(a) else a.reshape(-1) / scale
                    m2, m4 = (z**2).mean(), (z**4).mean()
                    expect(abs(m2 - 1) < 0.15 and abs(m4 - 3) < 1.2, "noise is not standard normal", moments=(m2, m4), maker=i)
                    if np.iscomplexobj(a):
                        ph = np.exp(2j * np.angle(a.reshape(-1)))
                        expect(abs(ph.mean()) < 0.1, "phases are not uniform", maker=i)
                    else:
                        expect(abs(z.mean()) < 0.1 and abs((z**3).mean()) < 0.4, "noise is not centred", maker=i)
            if what == "Prob":
                edges = [np.abs(a) for a in first if a.ndim == 2 and len(a) == 2 and a.shape[1] == 3][0]
                same(edges[0], edges[1], 1e-6, "magnitudes of the edge vectors", maker=i)
            if scale is None and not (what == "MPS" and i == 1):
                # noise of different entries is independent, within and between the cores
                noisy = [np.abs(a).reshape(-1) for a in first if a.any() and not (a == a.flat[0]).all()]
                if what == "Prob":
                    noisy = [a for a in noisy if a.size != 6] + [edges[0]]
                noisy = [a[(a != 0) & (a != 1)] for a in noisy]
                for k, a in enumerate(noisy):
                    expect(len(a) and len(np.unique(a)) == len(a), "noise entries are repeated", maker=i, parameter=k)
                    for b in noisy[:k]:
                        if len(a) == len(b):
                            expect(not np.intersect1d(a, b).size, "noise of another parameter", maker=i, parameter=k)
            ctx.eval((i, seed), n=2)
    ctx.sample({"initializer": what})

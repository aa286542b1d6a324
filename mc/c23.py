"""C23: norms of cores, their rescaling, and the balance that merge shifts keep"""
import copy
import itertools

import numpy as np
import torch

from . import ref
from .adaptive import active_chain, active_modules, build, contract_chain, fill_active, split
from .core import Violation
from .mpsutil import expect, np64, put, same, tens
from .ref import gen

LEVEL = "model_checking"
RULE = (
    "Modules alone: every kind of core module, every shape in the bounds, families of values (every unit "
    "entry for the small ones), all tuples of scales from a set, every way to give the scales, wrong numbers "
    "of scales. Models: every history of steps up to a depth (N norms, R rescaling of every core, U new "
    "values, B backward pass, 1 and 3 calls with so many inputs); at every state in which the next call "
    "shifts, copies whose cores carry other scales are shifted too. Non-trivial: a history with a rescaling "
    "or a shift."
)
ASSUMPTIONS = [
    "the balance is compared where no kept singular value is negligible (counted as 'ambiguous' otherwise)",
]
T = 2
SCALES = [0.0, 1.0, -1.0, 2.0, 1e-3]
CLASSES = ["InputRegion", "MergedInput", "InputSite", "OutputSite", "MergedOutput L", "MergedOutput R"]
MANY = [*range(4, 41), 63, 64, 65, 100, 128, 129, 256, 257]
STEPS = ["N", "R", "U", "B", "1", "3"]


def bounds(tier):
    t = tier == "thorough"
    return {
        "modules": "6 kinds; bond dimension, feature dimension, outputs 1..3; 1..3 cores; up to 257 cores, dimensions to 65 alone",
        "scales": SCALES, "dtypes": "float64, float32",
        "models": f"adaptive, n 1..{6 if t else 4}, every label site, open and periodic; fixed, n 1..4",
        "depth": 4 if t else 3,
        "balance": "each core times 2^20 or 2^-20, alternating 2^30 and 2^-30, all times 2^7 or 2^-7",
    }


def cases(tier):
    t = tier == "thorough"
    out = []
    for cls, f32 in itertools.product(CLASSES, [False, True]):
        out += [["norm", cls, f32], ["rescale", cls, f32], ["wide", cls, f32]]
    for n in range(1, 7 if t else 5):
        for label in range(n + 1):
            for periodic in [False, True]:
                for D, d, o in [(2, 2, 2)] + ([(3, 2, 1), (2, 3, 3)] if n <= 3 else []):
                    out.append(["hist", n, label, periodic, D, d, o, 4 if t else 3])
    for n in list(range(5, 13)) + [16, 17, 20] + ([33, 40] if t else []):
        for label in sorted({0, 1, n // 2, n - 1, n}):
            for periodic in [False, True]:
                out.append(["balance", n, label, periodic])
    for n in range(1, 5):
        for label in range(n + 1):
            for periodic in [False, True]:
                out.append(["fixed", n, label, periodic])
    return out


def weight(case):
    if case[0] == "hist":
        return 20 * case[1]
    return case[1] if case[0] == "balance" else 10


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    globals()["run_" + case[0]](ctx, *case[1:])
    ctx.states = max(ctx.states, len(ctx.outcomes))
    ctx.sample({"case": case, "evaluations": ctx.evaluations})


# -- modules alone ----------------------------------------------------------


def shapes(cls):
    for D, d, k in itertools.product(range(1, 4), repeat=3):
        if cls == "InputRegion":
            yield (k, D, D, d)
        elif cls == "MergedInput":
            yield (k, D, D, d, d)
        elif cls == "InputSite":
            if k == 1:
                yield (D, D, d)
        elif cls == "OutputSite":
            if d == 1:
                yield (k, D, D)
        else:
            yield (k, D, D, d)


def module(cls, array, f32, grad=True):
    import torchmps.torchmps as tm

    t = torch.tensor(array, dtype=torch.float32 if f32 else torch.float64)
    if cls.startswith("MergedOutput"):
        mod = tm.MergedOutput(t, cls.endswith("L"))
    else:
        mod = getattr(tm, cls)(t)
    mod.tensor.requires_grad_(grad)
    return mod


def cores_of(cls, array):
    """The separate cores of a module"""
    return list(array) if cls in ("InputRegion", "MergedInput") else [array]


def check_norms(mod, cores, eps, **info):
    before = mod.tensor.detach().clone()
    got = mod.get_norm()
    expect(isinstance(got, (list, tuple)) and len(got) == len(cores), "get_norm: number of norms", n=len(got), **info)
    for k, (g, c) in enumerate(zip(got, cores)):
        g, want = float(g), float(np.sqrt((np.abs(c) ** 2).sum()))
        expect(abs(g - want) <= eps * want, f"norm of core {k} is {g!r}, not {want!r}", **info)
    expect(torch.equal(mod.tensor, before), "get_norm changes the core", **info)


def run_norm(ctx, cls, f32):
    eps = 1e-5 if f32 else 1e-12
    top = 12 if f32 else 100
    for shape in shapes(cls):
        size = int(np.prod(shape))
        values = [gen(shape, "norm", k) for k in range(2)] + [np.zeros(shape), np.ones(shape)]
        values += [gen(shape, "norm", 3) * 10.0**e for e in (-top, -top // 2, top // 2, top)]
        if shape[0] > 1 and cls in ("InputRegion", "MergedInput"):
            values.append(gen(shape, "s") * (10.0 ** np.arange(-3, shape[0] - 3)).reshape((-1,) + (1,) * (len(shape) - 1)))
        if size <= 36:
            values += [np.eye(size)[k].reshape(shape) * (k - 2.5) for k in range(size)]
        for k, a in enumerate(values):
            for grad in [True, False]:
                mod = module(cls, a, f32, grad)
                check_norms(mod, cores_of(cls, np64(mod.tensor)), eps, cls=cls, shape=shape, values=k)
                with torch.no_grad():
                    check_norms(mod, cores_of(cls, np64(mod.tensor)), eps, cls=cls, shape=shape, values=k)
            ctx.eval((shape, k), n=4)
            ctx.outcome(a.tobytes())


def ways(scales, single, f32):
    dt = torch.float32 if f32 else torch.float64
    yield "list", list(scales)
    yield "tensors", [torch.tensor(s, dtype=dt) for s in scales]
    if single:
        yield "scalar", scales[0]
        yield "tensor", torch.tensor(scales[0], dtype=dt)


def run_rescale(ctx, cls, f32):
    eps = 3e-7 if f32 else 1e-15
    single = cls not in ("InputRegion", "MergedInput")
    for shape in shapes(cls):
        n = 1 if single else shape[0]
        a = gen(shape, "rescale")
        for scales in itertools.product(SCALES, repeat=n):
            for way, arg in ways(scales, single, f32):
                mod = module(cls, a, f32, grad=scales[0] != 2.0)
                rescaled(mod, cls, arg, scales, eps, shape=shape, scales=scales, way=way)
                if scales == scales[::-1]:
                    with torch.no_grad():
                        rescaled(mod, cls, arg, scales, eps, shape=shape, scales=scales, way=way)
                ctx.eval((shape, scales, way), nontrivial=any(s != 1 for s in scales))
        # scales of several calls multiply; scales of the wrong number are rejected
        mod = module(cls, a, f32)
        for bad in {n - 1, n + 1, n + 2} - {n}:
            before = mod.tensor.detach().clone()
            try:
                mod.rescale_norm([2.0] * bad)
            except Exception:
                pass
            else:
                raise Violation(f"{bad} scales accepted for {n} cores", cls=cls, shape=shape)
            expect(torch.equal(mod.tensor, before), "a rejected rescaling changes the core", cls=cls, shape=shape)
            ctx.eval((shape, "bad", bad))


def rescaled(mod, cls, arg, factors, eps, **info):
    p, grad = mod.tensor, mod.tensor.requires_grad
    p.grad = torch.full_like(p, 0.25)
    old = np64(p).copy()
    keep = [x.clone() if isinstance(x, torch.Tensor) else x for x in arg] if isinstance(arg, list) else arg
    mod.rescale_norm(arg)
    expect(mod.tensor is p and list(mod.parameters())[0] is p, "another parameter object after rescale_norm", **info)
    expect(p.requires_grad == grad and p.is_leaf and p.grad_fn is None, "rescale_norm is recorded by autograd", **info)
    expect(bool((p.grad == 0.25).all()), "rescale_norm changes the gradient", **info)
    want = np.stack([c * s for c, s in zip(cores_of(cls, old), factors)]) if cls in ("InputRegion", "MergedInput") else old * factors[0]
    bad = np.abs(np64(p) - want) > eps * np.abs(want)
    expect(not bad.any(), "rescale_norm: core is not the old one times its scale", got=np64(p), want=want, **info)
    if isinstance(arg, list):
        expect(len(arg) == len(keep) and all(bool(x == y) for x, y in zip(arg, keep)), "scales changed", **info)


def run_wide(ctx, cls, f32):
    eps = 1e-5 if f32 else 1e-12
    single = cls not in ("InputRegion", "MergedInput")
    for size in MANY:
        for pos in range(3):
            small = [2, 2, 2]  # cores/outputs, bond, feature
            small[pos] = size
            if pos and size > 65:
                continue
            k, D, d = small
            shape = {"InputRegion": (k, D, D, d), "MergedInput": (k, D, D, d, d), "InputSite": (D, D, d), "OutputSite": (k, D, D)}
            shape = shape.get(cls, (k, D, D, d))
            a = gen(shape, "wide")
            mod = module(cls, a, f32)
            check_norms(mod, cores_of(cls, np64(mod.tensor)), eps, cls=cls, shape=shape)
            n = 1 if single else shape[0]
            scales = [float(s) for s in 0.5 + np.abs(gen([n], "wide scales"))]
            for way, arg in ways(scales, single, f32):
                rescaled(mod, cls, arg, scales, 3e-7 if f32 else 1e-15, shape=shape, way=way)
            try:
                mod.rescale_norm(scales + [1.0])
            except Exception:
                pass
            else:
                raise Violation(f"{n + 1} scales accepted for {n} cores", cls=cls, shape=shape)
            ctx.eval((shape,), n=3)


# -- models -----------------------------------------------------------------


def stacked(mod):
    return mod.tensor.dim() == 5 or type(mod).__name__ == "InputRegion"


def sites(mod):
    """Number of cores of a module, and of single cores merged in each"""
    merged = mod.tensor.dim() == 5 or mod.tensor.dim() == 4 and not stacked(mod)
    return len(mod.tensor) if stacked(mod) else 1, 2 if merged else 1


def arrays(mod):
    a = np64(mod.tensor)
    return list(a) if stacked(mod) else [a]


def along(mod, scales):
    return scales.reshape((-1,) + (1,) * (mod.tensor.dim() - 1)) if stacked(mod) else scales[0]


def rescale_all(model, fun):
    """Rescale every core through its module; fun(position) is the scale"""
    pos, total = 0, 1.0
    for mod in active_modules(model):
        k, _ = sites(mod)
        scales = [fun(pos + j) for j in range(k)]
        mod.rescale_norm(scales)
        total *= np.prod(scales)
        pos += k
    return total


def balance(ctx, model, label, D, d, n, cutoff=0.0):
    """The next call shifts: the norms after it depend on the total scale alone"""
    pre = active_chain(model)
    _, bonds, ambiguous = split(pre, label, D, cutoff, 1e-13)
    for svs, _, _ in bonds.values():
        s = np.asarray(svs)[:D]
        ambiguous = ambiguous or not len(s) or s[-1] < 1e-6 * s[0] or (len(svs) > D and svs[D] > 0.999 * s[-1])
    if ambiguous or any(not np.any(a) for _, a in pre):
        ctx.add("ambiguous")
        return
    x = tens(gen([1, n, d], "balance"))
    base = copy.deepcopy(model)
    y = np64(base(x))
    norms = [[float(v) for v in m.get_norm()] for m in active_modules(base)]
    size = np.abs(contract_chain([(k, np.abs(a)) for k, a in pre], np.abs(np64(x)), model_periodic(model))).max()
    number = sum(sites(m)[0] for m in active_modules(model))
    profiles = [lambda i, p=p, e=e: 2.0 ** (e if i == p else 0) for p in range(min(number, 6)) for e in (20, -20)]
    profiles += [lambda i: 2.0 ** (30 if i % 2 else -30), lambda i: 2.0**7, lambda i: 2.0**-7]
    for k, fun in enumerate(profiles):
        other = copy.deepcopy(model)
        pos, log = 0, 0.0
        for mod in active_modules(other):
            m, _ = sites(mod)
            scale = np.array([fun(pos + j) for j in range(m)])
            a = np64(mod.tensor)
            put(mod.tensor, a * along(mod, scale))
            log += np.log2(scale).sum()
            pos += m
        z = np64(other(x)) * 2.0**-log
        expect(np.abs(z - y).max() <= 1e-8 * size, "a shift of rescaled cores gives another function", profile=k, got=z, want=y)
        for mod, want in zip(active_modules(other), norms):
            _, merged = sites(mod)
            got = [float(v) for v in mod.get_norm()]
            factor = 2.0 ** (log * merged / (n + 1))
            for g, w in zip(got, want):
                expect(
                    abs(g - w * factor) <= 1e-6 * w * factor,
                    f"norms are not balanced: {g!r} instead of {w * factor!r} after scales of profile {k}",
                )
        ctx.evaluations += 1
        ctx.transitions += 1


def model_periodic(model):
    return bool(model.linear_region.periodic_bc)


def compare_call(model, got, pre, x, periodic, **info):
    want = contract_chain(pre, np64(x), periodic)
    size = np.abs(contract_chain([(k, np.abs(a)) for k, a in pre], np.abs(np64(x)), periodic)).max()
    expect(np.abs(np64(got) - want).max() <= 1e-10 * max(size, 1e-300), "output", **info)


def run_hist(ctx, n, label, periodic, D, d, o, depth):
    for hist in itertools.product(STEPS, repeat=depth):
        ctx.trace = {"history": hist}
        model = build(n, label, D, d, o, periodic, T, 0.0)
        fill_active(model, "start")
        counter, shifts, scaled = 0, 0, 0
        for k, step in enumerate(hist):
            ctx.transitions += 1
            if step in "13":
                x = tens(gen([int(step), n, d], "x", k))
                pre = active_chain(model)
                if counter >= T:
                    if step == "1" and k == depth - 1 or k == 1:
                        balance(ctx, model, label, D, d, n)
                    counter -= T
                    shifts += 1
                    model(x)
                else:
                    compare_call(model, model(x), pre, x, periodic, step=k)
                counter += int(step)
            elif step == "U":
                fill_active(model, "U", k)
            elif step == "B":
                model.zero_grad()
                x = tens(gen([1, n, d], "xb", k))
                if counter >= T:
                    counter -= T
                    shifts += 1
                counter += 1
                model(x).sum().backward()
            elif step == "R":
                scaled += 1
                pre = active_chain(model)
                ids = [(id(p), p.requires_grad, None if p.grad is None else p.grad.clone(), p.detach().clone()) for p in model.parameters()]
                act = {id(m.tensor) for m in active_modules(model)}
                fun = lambda i: [2.0, -0.5, 4.0, 0.25, -8.0][(i + k) % 5]
                rescale_all(model, fun)
                post = active_chain(model)
                expect(
                    all(np.array_equal(b, a * fun(i)) for i, ((_, a), (_, b)) in enumerate(zip(pre, post))),
                    "rescaled cores are not the old ones times their scales", step=k,
                )
                for (i, r, g, v), p in zip(ids, model.parameters()):
                    expect(id(p) == i and p.requires_grad == r, "rescaling replaces parameters", step=k)
                    expect((g is None) == (p.grad is None) and (g is None or torch.equal(g, p.grad)), "rescaling changes gradients", step=k)
                    if i not in act:
                        expect(torch.equal(p, v), "rescaling changes another parameter", step=k)
            for m in active_modules(model):
                check_norms(m, arrays(m), 1e-12, step=k)
        x = tens(ref.vals((3, n, d), "last"))
        pre = active_chain(model)
        if counter >= T:
            balance(ctx, model, label, D, d, n)
        else:
            compare_call(model, model(x), pre, x, periodic, step="last")
        ctx.traces += 1
        ctx.eval(hist, nontrivial=bool(shifts or scaled))
        ctx.outcome([round(float(v), 6) for _, a in active_chain(model) for v in a.reshape(-1)[:3]])


def run_balance(ctx, n, label, periodic):
    for D, d, o in [(2, 2, 2), (3, 2, 1)]:
        model = build(n, label, D, d, o, periodic, T, 0.0)
        for k, m in enumerate(active_modules(model)):
            put(m.tensor, 0.7 * gen(tuple(m.tensor.shape), "b", k))
        x = tens(gen([2, n, d], "bx"))
        model(x)
        for step in range(4):
            for m in active_modules(model):
                check_norms(m, arrays(m), 1e-12, step=step)
            balance(ctx, model, label, D, d, n)
            model(x)
            ctx.outcome([round(float(v), 6) for m in active_modules(model) for v in m.get_norm()])
        ctx.traces += 1
        ctx.eval((D, d, o))


def run_fixed(ctx, n, label, periodic):
    """Cores of a fixed-bond MPS"""
    from torchmps import MPS

    for D, d, o, bias, par in itertools.product([1, 2, 3], [1, 2], [1, 3], [False, True], [False, True]):
        if bias and (d == 1 or o == 1):
            continue
        model = MPS(n, o, D, feature_dim=d, label_site=label, periodic_bc=periodic, parallel_eval=par, use_bias=bias)
        mods = [m for m in model.linear_region.module_list]
        for k, m in enumerate(mods):
            put(m.tensor, gen(tuple(m.tensor.shape), "fixed", k))
            check_norms(m, arrays(m), 1e-12, D=D, d=d)
        x = tens(gen([2, n, d], "fx"))
        y = np64(model(x))
        old = [np64(m.tensor).copy() for m in mods]
        total, pos = 1.0, 0
        for m, a in zip(mods, old):
            s = [[2.0, -0.5, 4.0][(pos + j) % 3] for j in range(len(arrays(m)))]
            pos += len(s)
            m.rescale_norm(s)
            want = a * along(m, np.array(s))
            expect(np.array_equal(np64(m.tensor), want), "rescaled core", D=D, d=d, o=o)
            total *= np.prod(s)
        if not bias:
            z = np64(model(x))
            expect(np.abs(z - y * total).max() <= 1e-10 * np.abs(total) * max(1.0, np.abs(y).max()), "output is not multiplied by the scales", D=D, d=d, o=o)
        ctx.eval((D, d, o, bias, par))
        ctx.outcome(y.tobytes())

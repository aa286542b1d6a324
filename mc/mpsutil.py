"""Access to the parameters of the models under test, as numpy arrays"""
import numpy as np
import torch

from .core import Violation
from .ref import err, vals


def np64(t):
    t = t.detach()
    return t.numpy().astype(np.complex128 if t.is_complex() else np.float64)


def put(param, array):
    """
    Overwrite a parameter (or buffer) in place

    Through .data, which leaves no trace in the version counter: results kept
    for unchanged versions are stale then
    """
    with torch.no_grad():
        t = torch.as_tensor(np.array(array))
        if tuple(t.shape) != tuple(param.shape):
            raise Violation(f"parameter of shape {tuple(param.shape)}, expected {tuple(t.shape)}")
        param.data.copy_(t)


def tens(array, dtype=None):
    t = torch.as_tensor(np.array(array))
    if dtype is None and t.is_floating_point():
        dtype = torch.get_default_dtype()
    return t.to(dtype) if dtype else t


def expect(cond, msg, **data):
    if not cond:
        raise Violation(msg, **data)


def same(got, want, tol, what, **data):
    """Compare a tensor of the implementation with the reference value"""
    if isinstance(got, torch.Tensor):
        got = np64(got)
    e = err(got, want)
    if not e <= tol:
        raise Violation(f"{what}: error {e:.3g} > {tol:g}", got=got, want=want, **data)


def _tensors(x):
    if isinstance(x, torch.Tensor):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _tensors(y)
    elif isinstance(x, dict):
        yield from _tensors(list(x.values()))


_spoiled = {}


def fresh(fn):
    """
    A pure function of the library, whose results must belong to the caller: each
    result is copied for the check and then overwritten, as a caller may do, which
    must not show in later results, nor later calls in it
    """
    name = getattr(fn, "__qualname__", None) or fn.func.__qualname__
    spoiled = _spoiled.setdefault(name, [])

    def call(*args, **kwargs):
        out = fn(*args, **kwargs)
        for old, copy in spoiled[-3:]:
            expect(torch.equal(old, copy), f"a call of {name} changed an earlier result")
        mine = {t.untyped_storage().data_ptr() for t in _tensors([args, kwargs])}

        def take(x):
            if isinstance(x, (list, tuple)):
                return type(x)(take(y) for y in x)
            if not isinstance(x, torch.Tensor) or x.requires_grad or not x.numel():
                return x
            if x.untyped_storage().data_ptr() in mine or 0 in x.stride():
                return x
            copy = x.clone()
            x.fill_(7)
            spoiled.append((x, x.clone()))
            return copy

        out = take(out)
        del spoiled[:-3]
        return out

    return call


class FixedMPS:
    """Parameters of a fixed-bond MPS in chain order"""

    def __init__(self, model):
        mods = list(model.linear_region.module_list)
        self.inputs, self.output = [], None
        self.label = 0
        for m in mods:
            if len(m) == 0:
                self.output = m
                self.label = sum(len(x) for x in self.inputs)
            else:
                self.inputs.append(m)
        self.model = model
        self.use_bias = model.use_bias
        self.periodic = model.periodic_bc

    def params(self):
        out = [m.tensor for m in self.inputs] + [self.output.tensor]
        if self.use_bias:
            out += [m.bias_mat for m in self.inputs]
        return out

    def fill(self, *tag, **kw):
        for i, p in enumerate(self.params()):
            put(p, vals(tuple(p.shape), *tag, i, **kw))

    def arrays(self):
        cores = [np64(m.tensor) for m in self.inputs]
        n = sum(len(c) for c in cores)
        cores = np.concatenate(cores) if cores else np.zeros([0])
        bias = None
        if self.use_bias:
            bias = []
            for m in self.inputs:
                b = np64(m.bias_mat)
                bias += list(np.broadcast_to(b, (len(m.tensor),) + b.shape[-2:]))
            bias = np.stack(bias)
        assert len(cores) == n
        return dict(
            cores=cores, out_core=np64(self.output.tensor), label=self.label,
            periodic=self.periodic, bias=bias,
        )

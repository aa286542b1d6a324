"""C22: training histories of fixed-structure models"""
import itertools

import numpy as np
import torch

from . import tref
from .kinds import KINDS
from .mpsutil import FixedMPS, expect, np64, tens
from .ref import err

LEVEL = "model_checking"
RULE = (
    "Every sequence of training operations up to a depth, for every model kind and optimizer, replayed on the real "
    "model and on a twin: plain parameter tensors trained with the defining contraction (mc/tref.py) and an optimizer "
    "of the same class. States: distinct (parameters, gradients) of the twin; transitions: operations whose effect on "
    "outputs, parameters, gradients and requires_grad was compared."
)
ASSUMPTIONS = ["torch.autograd on the elementary operations of mc/tref.py", "torch.optim"]
NOTE = (
    "All operation sequences within the bounds are executed on the real model in step with a reference model built on plain torch operations; "
    "nothing is claimed about deeper histories or other optimizers."
)

OPS = ["back A", "back B", "back A+B", "quiet", "step", "zero", "freeze", "freeze rest", "edit", "mode"]
OPTS = {
    "sgd": lambda ps: torch.optim.SGD(ps, lr=0.03, momentum=0.9),
    "adam": lambda ps: torch.optim.Adam(ps, lr=0.02, weight_decay=0.01),
    "lbfgs": lambda ps: torch.optim.LBFGS(ps, lr=0.05, max_iter=2),
}
A, B = [1, 2, 6], [5]


def depth(tier, opt):
    return (3 if opt != "lbfgs" else 2) + (tier == "thorough")


def bounds(tier):
    return {
        "kinds": sorted(KINDS),
        "histories": {o: f"all sequences of {depth(tier, o)} of {OPS}, each followed by backward and step" for o in OPTS},
    }


def cases(tier):
    out = []
    for k in sorted(KINDS):
        for o in OPTS:
            if depth(tier, o) >= 3:
                out += [[k, o, first] for first in OPS]
            else:
                out.append([k, o, None])
    return out


def weight(case):
    return 2 if case[0].startswith("prob") or case[0].startswith("unif") else 1


# -- the twin ------------------------------------------------------------------


def log_norm(cores, edges, lamb):
    """log of the weighted squared norm, with plain loops (D and d are small)"""
    dm = edges[0][:, None] * edges[0].conj()[None]
    for c in cores:
        new = 0.0
        for i in range(c.shape[0]):
            for j in range(c.shape[0]):
                new = new + lamb[i, j] * (c[i].transpose(0, 1) @ dm @ c[j].conj())
        dm = new
    tot = edges[1] @ dm @ edges[1].conj()
    return torch.log(tot.real if tot.is_complex() else tot)


class Twin:
    """The parameters by name and the defining contraction of them"""

    def __init__(self, kind, model):
        self.kind = kind
        self.names = [n for n, _ in model.named_parameters()]
        self.params = {n: p.detach().clone().requires_grad_() for n, p in model.named_parameters()}
        self.buffers = {n: b.detach().clone() for n, b in model.named_buffers()}
        k = kind
        self.is_mps = not k.prob and hasattr(model, "linear_region")
        if self.is_mps:
            # where the cores are in the chain, by parameter name
            byid = {id(p): n for n, p in list(model.named_parameters()) + list(model.named_buffers())}
            fm = FixedMPS(model)
            self.regions = [(byid[id(m.tensor)], byid.get(id(m.bias_mat)) if fm.use_bias else None) for m in fm.inputs]
            self.out = byid[id(fm.output.tensor)]
            self.label, self.periodic, self.bias = fm.label, fm.periodic, fm.use_bias
        elif k.prob:
            self.unif, self.mode, self.n = k.unif, k.mode, k.n
            self.table = getattr(k, "table", None)
        self.kmode = k.mode

    def get(self, name):
        return self.params.get(name, self.buffers.get(name))

    def outputs(self, rows):
        raw = self.kind.raw(rows)
        if self.is_mps:
            x = tens(raw)
            if self.kmode == "scalar":
                x = torch.stack([x, 1 - x], 2)
            elif self.kmode == "map":
                x = torch.stack([torch.ones_like(x), x, x * x], 2)
            path = self.kind.kw.get("path")
            if path is not None:
                x = x[:, path]
            cores, mats = [], []
            for tensor, bias in self.regions:
                t = self.get(tensor)
                for s in range(len(t)):
                    cores.append(t[s])
                    if bias:
                        b = self.get(bias)
                        mats.append(b[s] if b.ndim == 3 and len(b) == len(t) else b.reshape(t.shape[1:3]))
            return tref.mps(cores, self.get(self.out), self.label, x, self.periodic, mats if self.bias else None)
        if not self.kind.prob:
            seqs = []
            for x in raw:
                x = tens(x)
                seqs.append(torch.stack([x, 1 - x], 1) if self.kmode in ("scalar", "list") else x)
            return tref.ti(
                self.get("core_tensor"), self.get("init_vector.vec"), self.get("terminal_mat.mat"), seqs, self.get("bias_mat")
            )
        core, edges, bias = self.get("core_tensors"), self.get("edge_vecs"), self.get("bias_mat")
        cores = [core] * self.n if self.unif else list(core)
        d = core.shape[-3]
        lamb = torch.eye(d)
        if self.mode in ("index", "onehot"):
            x = torch.eye(d)[torch.as_tensor(raw).long()]
        elif self.mode in ("table", "train"):
            t = tens(self.table) if self.mode == "table" else self.get([n for n in self.names if n.endswith("weight")][0])
            x, lamb = t[torch.as_tensor(raw).long()], t.transpose(0, 1) @ t
        elif self.mode == "cont":
            pts = np.linspace(0, 1, 1000)
            v = np.stack([np.ones_like(pts), pts], 1)
            m = v[:, :, None] * v[:, None, :]
            lamb = tens(((m[1:] + m[:-1]) / 2).sum(0) / 999)
            x = tens(raw)
            x = torch.stack([torch.ones_like(x), x], -1)
        else:
            x = tens(raw)
        x, lamb = x.to(core.dtype), lamb.to(core.dtype)
        if bias is not None:
            cores = [c + bias for c in cores]
        norm = log_norm(cores, edges, lamb)
        out = []
        for seq in x:
            a = tref.amplitude(cores, edges, seq)
            out.append(torch.log((a * a.conj()).real if a.is_complex() else a * a) - norm)
        return torch.stack(out)


def loss_of(out, prob):
    """A smooth bounded-below function of the outputs"""
    if prob:
        return -out.mean()
    target = torch.linspace(-1, 1, out.numel()).view(out.shape)
    return ((out - target) ** 2 / (1 + (out - target) ** 2)).mean()


class Side:
    """One of the two sides of a comparison: model or twin"""

    def __init__(self, call, params, opt, prob, loss=None):
        self.call, self.params, self.prob = call, params, prob
        self.opt = OPTS[opt](list(params.values()))
        self.lbfgs = opt == "lbfgs"
        self.loss_fun = loss

    def loss(self, rows):
        if self.prob and self.loss_fun is not None:
            return self.loss_fun(rows)
        return loss_of(self.call(rows), self.prob)

    def do(self, op):
        def back(value):
            # nothing to do where everything that matters is frozen
            if value.requires_grad:
                value.backward()

        if op == "back A":
            back(self.loss(A))
        elif op == "back B":
            back(loss_of(self.call(B), self.prob))
        elif op == "back A+B":
            one, two = self.loss(A), self.loss(B)
            back(two)
            back(one)
        elif op == "quiet":
            with torch.no_grad():
                self.call(B)
            with torch.inference_mode():
                self.call(A)
        elif op == "step":
            if self.lbfgs:

                def closure():
                    self.opt.zero_grad()
                    val = self.loss(A)
                    back(val)
                    return val

                self.opt.step(closure)
            else:
                self.opt.step()
        elif op == "zero":
            self.opt.zero_grad()
        elif op == "freeze":
            first = sorted(self.params)[0]
            self.params[first].requires_grad_(not self.params[first].requires_grad)
        elif op == "freeze rest":
            for name in sorted(self.params)[1:]:
                self.params[name].requires_grad_(not self.params[name].requires_grad)
        elif op == "edit":
            with torch.no_grad():
                for p in self.params.values():
                    p.mul_(1.125)


def run_case(case, ctx):
    torch.set_default_dtype(torch.float64)
    name, opt, first = case
    kind = KINDS[name]
    dep = depth(ctx.tier, opt)
    states = set()
    for hist in itertools.product(OPS, repeat=dep):
        if first is not None and hist[0] != first:
            continue
        ctx.trace = hist
        model = kind.build()
        # small enough for the derivatives to stay moderate
        with torch.no_grad():
            for p in model.parameters():
                p.mul_(0.8)
        twin = Twin(kind, model)

        def call(rows):
            return kind.call(model, kind.inputs(rows))

        def loss(rows):
            return model.loss(kind.inputs(rows), **kind.flags)

        mine = Side(call, dict(model.named_parameters()), opt, kind.prob, loss)
        other = Side(twin.outputs, twin.params, opt, kind.prob)
        for step, op in enumerate(hist + ("back A", "step")):
            if op == "mode":
                model.train(not model.training)
            else:
                mine.do(op)
                other.do(op)
            info = dict(kind=name, optimizer=opt, history=hist, after=step)
            now = dict(model.named_parameters())
            expect(list(now) == twin.names, "the names of the parameters changed", **info)
            rec = []
            for n in twin.names:
                p, q = now[n], twin.params[n]
                expect(p is mine.params[n], f"parameter {n} was replaced", **info)
                expect(p.requires_grad == q.requires_grad, f"requires_grad of {n}", **info)
                a, b = np64(p), np64(q)
                e = err(a, b)
                expect(e <= 1e-7, f"parameter {n} differs from the twin's by {e:.3g}", got=a, want=b, **info)
                g = np.zeros(a.shape) if p.grad is None else np64(p.grad)
                w = np.zeros(a.shape) if q.grad is None else np64(q.grad)
                size = max(1e-2, np.abs(w).max(initial=0))
                d = np.abs(g - w).max(initial=0)
                expect(d <= 1e-7 * size, f"gradient of {n} differs from the twin's by {d:.3g}", got=g, want=w, **info)
                rec.append((np.round(b, 8).tobytes(), np.round(w, 8).tobytes(), q.requires_grad))
            states.add(hash(tuple(rec)))
            ctx.transitions += 1
        with torch.no_grad():
            a, b = np64(call(A)), np64(twin.outputs(A))
        e = err(a, b)
        expect(e <= 1e-6, f"outputs differ by {e:.3g} after the history", got=a, want=b, kind=name, history=hist)
        ctx.traces += 1
        ctx.eval(hist, nontrivial=any(o.startswith("back") for o in hist))
        ctx.outcome(np.round(b, 5).tobytes())
    ctx.states += len(states)
    ctx.trace = None
    ctx.sample({"kind": name, "optimizer": opt, "history": hist})

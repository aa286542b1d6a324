"""
Small models of every fixed-structure kind, each with inputs and a reference

Kind.build()              fresh model, parameters set to fixed generic values
Kind.inputs(rows, dtype)  batch with one row per entry of rows (row numbers)
Kind.call(model, inputs)  one evaluation, output of shape [batch, ...]
Kind.ref(model, rows)     the same from the current parameters, in numpy
Kind.bad(dtype)           an input the model must reject
"""
import numpy as np
import torch

from . import ref
from .mpsutil import FixedMPS, np64, put, tens
from .ref import gen


def fmap(x):
    """Feature map of dimension 3 on scalars (elementwise, torch)"""
    x = x.to(torch.get_default_dtype()) if not x.is_floating_point() else x
    return torch.stack([torch.ones_like(x), x, x * x])


class Kind:
    prob = False
    row_seed = "row"

    def __init__(self, name, **kw):
        self.name = name
        self.kw = kw

    def fill(self, model, *tag):
        for k, (name, p) in enumerate(sorted(model.named_parameters())):
            arr = gen(tuple(p.shape), "kind", self.name, name, *tag) * 0.7
            if p.is_complex():
                arr = arr + 0.7j * gen(tuple(p.shape), "kindi", self.name, name, *tag)
            put(p, arr)
        return model

    def build(self):
        return self.fill(self.make(), 0)

    def call(self, model, inputs):
        return model(inputs)


class MPSKind(Kind):
    n, label, d, o, D = 3, 1, 2, 2, 2

    def make(self):
        from torchmps import MPS

        kw = dict(self.kw)
        self.mode = kw.pop("mode", "vec")
        width = kw.pop("width", self.n)
        self.width = width
        if "map" in self.mode:
            kw["feature_dim"] = 3
        kw.setdefault("label_site", self.label)
        model = MPS(self.n, self.o, self.D, **kw)
        if "map" in self.mode:
            model.register_feature_map(fmap)
        return model

    def raw(self, rows):
        d = 3 if "map" in self.mode else self.kw.get("feature_dim", 2)
        shape = [self.width] if self.mode in ("scalar", "map") else [self.width, d]
        return np.stack([gen(shape, self.row_seed, self.mode, r) for r in rows])

    def inputs(self, rows, dtype=None):
        return tens(self.raw(rows), dtype)

    def bad(self, dtype=None):
        return tens(np.ones([4, self.width, 5]), dtype)

    def ref(self, model, rows):
        x = self.raw(rows)
        if self.mode == "scalar":
            x = np.stack([x, 1 - x], 2)
        elif self.mode == "map":
            x = np.stack([np.ones_like(x), x, x * x], 2)
        path = self.kw.get("path")
        if path is not None:
            x = x[:, [int(p) for p in path]]
        return ref.mps_output_fast(x=x, **FixedMPS(model).arrays())


class TIKind(Kind):
    d, o, D = 2, 2, 2

    def make(self):
        from torchmps import TI_MPS

        kw = dict(self.kw)
        self.mode = kw.pop("mode", "vec")
        return TI_MPS(self.o, self.D, **kw)

    def raw(self, rows):
        lens = [3] * len(rows) if self.mode in ("vec", "scalar") else [1 + r % 3 for r in rows]
        shape = [] if self.mode in ("scalar", "list") else [self.kw.get("feature_dim", 2)]
        return [gen([n] + shape, self.row_seed, self.mode, r) for n, r in zip(lens, rows)]

    def bad(self, dtype=None):
        return tens(np.ones([2, 3, 5]), dtype)

    def inputs(self, rows, dtype=None):
        x = [tens(a, dtype) for a in self.raw(rows)]
        return torch.stack(x) if self.mode in ("vec", "scalar") else x

    def ref(self, model, rows):
        core = np64(model.core_tensor)
        init, term = np64(model.init_vector.vec), np64(model.terminal_mat.mat)
        bias = np64(model.bias_mat) if model.bias_mat is not None else None
        out = []
        for x in self.raw(rows):
            if self.mode in ("scalar", "list"):
                x = np.stack([x, 1 - x], 1)
            out.append(ref.ti_output(core, init, term, x, bias))
        return np.stack(out)


class ProbKind(Kind):
    prob = True
    n, d, D = 3, 2, 2

    def make(self):
        from torchmps import ProbMPS, ProbUnifMPS
        from torchmps.embeddings import DataDomain, TrainableEmbedding, onehot_embed, unit_interval

        kw = dict(self.kw)
        self.mode = kw.pop("mode", "index")
        self.flags = {k: kw.pop(k) for k in ["slim_eval", "parallel_eval"] if k in kw}
        unif = self.unif = kw.pop("unif", False)
        dim = self.d
        if self.mode == "table":
            # non-orthogonal embedding of three symbols
            self.table = np.array([[1.0, 0.0], [0.5, 1.0], [-1.0, 2.0]])
            tt = tens(self.table)
            kw["embed_fun"] = lambda x: tt.to(torch.get_default_dtype())[x]
            kw["domain"] = DataDomain(continuous=False, max_val=3)
        elif self.mode == "cont":
            kw["embed_fun"] = lambda x: torch.stack([torch.ones_like(x), x], -1)
            kw["domain"] = unit_interval
        elif self.mode == "train":
            kw["embed_fun"] = TrainableEmbedding(Table(3, 2), DataDomain(continuous=False, max_val=3))
        elif self.mode == "onehot":
            kw["embed_fun"] = lambda x: onehot_embed(x, 2)
            kw["domain"] = DataDomain(continuous=False, max_val=2)
        cls = ProbUnifMPS if unif else ProbMPS
        return cls(*(() if unif else (self.n,)), dim, self.D, **kw)

    def raw(self, rows):
        if self.mode in ("index", "onehot"):
            return np.array([[(r >> k) & 1 for k in range(self.n)] for r in rows])
        if self.mode in ("table", "train"):
            return np.array([[(r // 3**k) % 3 for k in range(self.n)] for r in rows])
        if self.mode == "cont":
            return np.stack([np.abs(gen([self.n], self.row_seed, r)) % 1 for r in rows])
        return np.stack([gen([self.n, self.d], self.row_seed, r) for r in rows])

    def inputs(self, rows, dtype=None):
        raw = self.raw(rows)
        return torch.as_tensor(raw).long() if raw.dtype.kind == "i" else tens(raw, dtype)

    def bad(self, dtype=None):
        if self.mode == "vec":
            return tens(np.ones([2, self.n, self.d + 1]), dtype)
        if self.mode == "cont":
            return tens(np.full([2, self.n + 1], 0.5), dtype)
        return torch.full([2, self.n], 3)

    def call(self, model, inputs):
        return model(inputs, **self.flags)

    def ref(self, model, rows):
        core, edges = np64(model.core_tensors), np64(model.edge_vecs)
        bias = np64(model.bias_mat) if model.use_bias else None
        cores = [core] * self.n if self.unif else list(core)
        x, lamb = self.raw(rows), None
        if self.mode in ("table", "train"):
            t = self.table if self.mode == "table" else np64(model.embedding.emb_module.weight)
            x, lamb = t[x], np.einsum("mi,mj->ij", t, t)
        elif self.mode == "cont":
            # trapezoid rule on 1000 points, as documented by num_points
            pts = np.linspace(0, 1, 1000)
            v = np.stack([np.ones_like(pts), pts], 1)
            m = v[:, :, None] * v[:, None, :]
            lamb = ((m[1:] + m[:-1]) / 2).sum(0) / 999
            x = np.stack([np.ones_like(x), x], -1)
        norm = ref.log_norm2(cores, edges, bias, lamb)
        return np.array([ref.log_amp2(cores, edges, s, bias) - norm for s in x])


class Table(torch.nn.Module):
    """Trainable table; embeds values of shape [..., 1] as [..., dim]"""

    def __init__(self, size, dim):
        super().__init__()
        self.weight = torch.nn.Parameter(torch.randn(size, dim))

    def forward(self, x):
        return self.weight[x[..., 0].long()]


KINDS = {
    k.name: k
    for k in [
        MPSKind("mps"),
        MPSKind("mps par", parallel_eval=True),
        MPSKind("mps periodic", periodic_bc=True, use_bias=False),
        MPSKind("mps scalar left", mode="scalar", label_site=0),
        MPSKind("mps right", label_site=3, parallel_eval=True, use_bias=False),
        MPSKind("mps map", mode="map"),
        MPSKind("mps path", mode="scalar", width=4, path=[3, 0, 2]),
        TIKind("ti"),
        TIKind("ti par", parallel_eval=True, fixed_bias=False),
        TIKind("ti list", mode="list"),
        TIKind("ti veclist", mode="veclist", parallel_eval=True, fixed_ends=True),
        TIKind("ti nobias", mode="scalar", use_bias=False),
        ProbKind("prob"),
        ProbKind("prob slim", slim_eval=True),
        ProbKind("prob par bias", parallel_eval=True, use_bias=True),
        ProbKind("prob complex", complex_params=True, use_bias=True),
        ProbKind("prob vec", mode="vec"),
        ProbKind("prob vec slim", mode="vec", slim_eval=True, complex_params=True),
        ProbKind("prob table", mode="table"),
        ProbKind("prob complex table", mode="table", complex_params=True),
        ProbKind("prob cont", mode="cont", parallel_eval=True),
        ProbKind("prob train", mode="train"),
        ProbKind("unif", unif=True),
        ProbKind("unif onehot", unif=True, mode="onehot", use_bias=True),
        ProbKind("unif slim vec", unif=True, mode="vec", slim_eval=True),
        ProbKind("unif par complex", unif=True, parallel_eval=True, complex_params=True),
        ProbKind("unif train bias", unif=True, mode="train", use_bias=True),
    ]
}

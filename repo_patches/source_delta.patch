From 4b0043916fefad5568c0a90fe492329cb2a2f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 01/33] fix: let an input region hold a single site

MPS with label_site 1 or input_dim - 1 (including every default MPS with
input_dim <= 3) failed on its first call, since a one-site InputRegion was
handed an input without its site index.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..311c5b6 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -631,7 +631,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if mod_len == 1 and not isinstance(module, InputRegion):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From c664df608596ac6df0fa8505b2fb1e67f4103d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 02/33] fix: do not take the batch size of a call from shared
 state

MPS and TI_MPS expanded their batch-free tensors to the batch size last seen
by any Contractable in the process.  With label_site=0 that is the size of the
previous call (an error when it differs, or when there was none), and with
several threads it may be the size of a call in another thread.
---
 torchmps/torchmps.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 311c5b6..4ab66ff 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -101,8 +101,8 @@ class TI_MPS(nn.Module):
         contractable_list = [input_region(batch_input)]
 
         # Prepend an EdgeVec and append an OutputMat
-        contractable_list = [self.init_vector()] + contractable_list
-        contractable_list.append(self.terminal_mat())
+        contractable_list = [self.init_vector(batch_size)] + contractable_list
+        contractable_list.append(self.terminal_mat(batch_size))
 
         # Wrap contractable_list as a ContractableList instance
         contractable_list = ContractableList(contractable_list)
@@ -678,6 +678,7 @@ class LinearRegion(nn.Module):
 
             for vec in end_vecs:
                 vec[0] = 1
+            end_vecs = [vec.expand([input_data.size(0), -1]) for vec in end_vecs]
             contractable_list.insert(0, EdgeVec(end_vecs[0], is_left_vec=True))
             contractable_list.append(EdgeVec(end_vecs[1], is_left_vec=False))
 
@@ -1298,7 +1299,7 @@ class OutputSite(nn.Module):
         """
         Return the OutputSite wrapped as an OutputCore contractable
         """
-        return OutputCore(self.tensor)
+        return OutputCore(self.tensor.expand([input_data.size(0), -1, -1, -1]))
 
     def get_norm(self):
         """
@@ -1457,11 +1458,14 @@ class InitialVector(nn.Module):
         assert isinstance(is_left_vec, bool)
         self.is_left_vec = is_left_vec
 
-    def forward(self):
+    def forward(self, batch_size=None):
         """
         Return our initial vector wrapped as an EdgeVec contractable
         """
-        return EdgeVec(self.vec, self.is_left_vec)
+        vec = self.vec
+        if batch_size is not None:
+            vec = vec.expand([batch_size, -1])
+        return EdgeVec(vec, self.is_left_vec)
 
     def core_len(self):
         return 1
@@ -1507,11 +1511,14 @@ class TerminalOutput(nn.Module):
         assert isinstance(is_left_mat, bool)
         self.is_left_mat = is_left_mat
 
-    def forward(self):
+    def forward(self, batch_size=None):
         """
         Return our terminal matrix wrapped as an OutputMat contractable
         """
-        return OutputMat(self.mat, self.is_left_mat)
+        mat = self.mat
+        if batch_size is not None:
+            mat = mat.expand([batch_size, -1, -1])
+        return OutputMat(mat, self.is_left_mat)
 
     def core_len(self):
         return 1
-- 
2.43.0


From e8a90d07d177014117753dea318af254eb0248cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 03/33] fix: adaptive MPS with one or two cores on a side of
 the output

Two stray input sites left by unmerging were never joined into a region, and
a list holding a single merged core was dropped, so that adaptive models with
two inputs on one side of the label site (or one input in all) failed at the
second merge shift.
---
 torchmps/torchmps.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 4ab66ff..e7b8cd6 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -820,10 +820,9 @@ class MergedLinearRegion(LinearRegion):
                     mod_num += 2
                     site_num += new_core.core_len()
 
-                # Add the last core if there's nothing to merge it with
-                if mod_num == len(merged_list) - 1:
-                    combined_list.append(merged_list[mod_num])
-                    mod_num += 1
+            # Add the last core if there's nothing to merge it with
+            if mod_num == len(merged_list) - 1:
+                combined_list.append(merged_list[mod_num])
 
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(merged_list):
@@ -896,10 +895,9 @@ class MergedLinearRegion(LinearRegion):
                     combined_list.append(new_core)
                     mod_num += 2
 
-                # Add the last core if there's nothing to combine it with
-                if mod_num == len(unmerged_list) - 1:
-                    combined_list.append(unmerged_list[mod_num])
-                    mod_num += 1
+            # Add the last core if there's nothing to combine it with
+            if mod_num == len(unmerged_list) - 1:
+                combined_list.append(unmerged_list[mod_num])
 
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(unmerged_list):
@@ -971,6 +969,14 @@ class MergedLinearRegion(LinearRegion):
 
             return InputRegion(new_tensor)
 
+        # Combine two stray InputSites, return an InputRegion
+        elif (
+            not merging
+            and isinstance(left_core, InputSite)
+            and isinstance(right_core, InputSite)
+        ):
+            return InputRegion(torch.stack([left_core.tensor, right_core.tensor]))
+
         # If this situation doesn't belong to the above cases, return None
         else:
             return None
-- 
2.43.0


From 40763f07d8f00bdaf2255b9e24087b8d1d6599f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 04/33] fix: accept a tensor as the path of an MPS

The constructor allows a Tensor, but its truth value was tested.
---
 torchmps/torchmps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index e7b8cd6..e11c639 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -432,7 +432,7 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
-        if path:
+        if path is not None:
             assert isinstance(path, (list, torch.Tensor))
             assert len(path) == input_dim
 
@@ -468,7 +468,7 @@ class MPS(nn.Module):
                                  which act on different parts of the input.
         """
         # For custom paths, rearrange our input into the desired order
-        if self.path:
+        if self.path is not None:
             path_inputs = []
             for site_num in self.path:
                 path_inputs.append(input_data[:, site_num])
-- 
2.43.0


From 97cacea697d6dd821fb4b5fbc9868a9974915b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 05/33] fix: allow a feature map module to be replaced by a
 function

register_feature_map raised a TypeError for any plain function once a Module
had been registered, even after resetting to the default map.
---
 torchmps/torchmps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index e11c639..bec45cd 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -270,6 +270,8 @@ class TI_MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # A Module can't be overwritten by a plain function, so remove it first
+        del self.feature_map
         self.feature_map = feature_map
 
 
@@ -567,6 +569,8 @@ class MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # A Module can't be overwritten by a plain function, so remove it first
+        del self.feature_map
         self.feature_map = feature_map
 
     def core_len(self):
-- 
2.43.0


From 73617b34f6f475454466ae7bcb12981f0b8fdcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 06/33] fix: pad TI_MPS sequences after embedding them

Unembedded sequences were padded with the scalar zero, which the feature map
sends to a nonzero vector, so that the output for a sequence depended on the
length of the other sequences in its batch.
---
 torchmps/torchmps.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index bec45cd..a147b56 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -180,12 +180,15 @@ class TI_MPS(nn.Module):
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
-                full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = torch.zeros([batch_size, max_len, feature_dim])
 
-                # Copy each sequence into batch_input
+                # Copy each (embedded) sequence into batch_input. Embedding must
+                # come first, so that all of the padding consists of zero vectors
                 for i, seq in enumerate(input_data):
-                    batch_input[i, : seq.size(0)] = seq
+                    if seq.size(0) > 0:
+                        if num_modes == 1:
+                            seq = self.embed_input(seq[None])[0]
+                        batch_input[i, : seq.size(0)] = seq
             else:
                 batch_input = torch.stack(input_data)
 
-- 
2.43.0


From a28bad118ec8700b2d5afbfd071db177a646a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 07/33] fix: evaluate MPS and TI_MPS in the dtype of their
 parameters

A model converted with double() (or half()) failed, as the end vectors of an
open MPS and the embedded inputs of a TI_MPS were always in the default dtype.
---
 torchmps/torchmps.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index a147b56..122f209 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -180,7 +180,9 @@ class TI_MPS(nn.Module):
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
-                batch_input = torch.zeros([batch_size, max_len, feature_dim])
+                batch_input = torch.zeros(
+                    [batch_size, max_len, feature_dim], dtype=self.core_tensor.dtype
+                )
 
                 # Copy each (embedded) sequence into batch_input. Embedding must
                 # come first, so that all of the padding consists of zero vectors
@@ -241,7 +243,7 @@ class TI_MPS(nn.Module):
                     f"self.feature_dim = {feature_dim}, but "
                     "default feature_map requires self.feature_dim = 2"
                 )
-            embedded_data = torch.empty(embedded_shape)
+            embedded_data = torch.empty(embedded_shape, dtype=self.core_tensor.dtype)
 
             embedded_data[:, :, 0] = input_data
             embedded_data[:, :, 1] = 1 - input_data
@@ -681,7 +683,8 @@ class LinearRegion(nn.Module):
             ]
 
             # Build dummy end vectors and insert them at the ends of our list
-            end_vecs = [torch.zeros(dim).to(device) for dim in bond_dims]
+            dtype = end_items[0].tensor.dtype
+            end_vecs = [torch.zeros(dim, dtype=dtype).to(device) for dim in bond_dims]
 
             for vec in end_vecs:
                 vec[0] = 1
-- 
2.43.0


From 74e3662d8b7839b7b3c8019dc9fded547aba71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 08/33] fix: load_HV_data with current numpy

np.int was removed in numpy 1.24.
---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..ba46460 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -316,7 +316,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=np.int64)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From 599eaf05ad84466ece01b2c3fbd4a8b145a6cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 09/33] fix: min_random_eye initialization with unequal bond
 dimensions

An init_dim above the smaller bond dimension is documented to be capped, but
raised an error unless both bond dimensions agree.
---
 torchmps/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index ba46460..d53b7d2 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -219,10 +219,8 @@ def init_tensor(shape, bond_str, init_method):
             # The dimensions for our initial identity matrix. These will each
             # be init_dim, unless init_dim exceeds one of the bond dimensions
             bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
-            if all([init_dim <= full_dim for full_dim in bond_dims]):
-                bond_dims = [init_dim, init_dim]
-            else:
-                init_dim = min(bond_dims)
+            init_dim = min([init_dim] + bond_dims)
+            bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
-- 
2.43.0


From d44a10fab6b0ed7278f3f0d54ede2b440771af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 10/33] fix: trig_embed without scipy

scipy is no requirement of torchmps, so trig_embed and sincos_embed failed in
an installation made from its requirements.
---
 torchmps/embeddings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..2b72c57 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -20,7 +20,7 @@
 # CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 """Uniform and non-uniform probabilistic MPS classes"""
-from math import sqrt, pi
+from math import factorial, sqrt, pi
 from functools import partial
 from typing import Union, Optional, Callable
 
@@ -242,15 +242,15 @@ def trig_embed(data, emb_dim=2):
 
     Written by Raphaëlle Tihon
     """
-    from scipy.special import binom
-
     emb_data = []
     for s in range(emb_dim):
         comp = (
             torch.cos(data * pi / 2) ** (emb_dim - s - 1)
             * torch.sin(data * pi / 2) ** s
         )
-        comp *= sqrt(binom(emb_dim - 1, s))
+        comp *= sqrt(
+            factorial(emb_dim - 1) / (factorial(s) * factorial(emb_dim - 1 - s))
+        )
         emb_data.append(comp)
     emb_data = torch.stack(emb_data, dim=-1)
     assert emb_data.shape == data.shape + (emb_dim,)
-- 
2.43.0


From 20a38df9db892158ad71b85c7ea0444d3db6d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 11/33] fix: contract matrices whose product is zero

An intermediate product of zero was divided by its norm, so contract_matseq
returned NaN, and a probabilistic MPS failed for every batch holding an input
of zero probability (whose log is -inf).
---
 torchmps/mps_base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..939397d 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -106,6 +106,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
         # Rescale vectors, update log_scale
         rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = nonzero_scale(rescale)
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -115,6 +116,13 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
     return contraction.squeeze(dim=1), log_scale
 
 
+def nonzero_scale(scale: Tensor) -> Tensor:
+    """
+    Replace scale factors of zero by one, so they leave zero tensors unchanged
+    """
+    return torch.where(scale == 0, torch.ones_like(scale), scale)
+
+
 def contract_matseq(
     matrices: TensorSeq,
     left_vec: Optional[Tensor] = None,
@@ -293,6 +301,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = nonzero_scale(rescales)
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -326,6 +335,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = nonzero_scale(rescale)
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
-- 
2.43.0


From 25d73b0a281bd20e1c8ee227b1a0354fd380f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 12/33] fix: reject inputs shorter than a fixed-length ProbMPS

Discrete inputs with too few sites were contracted with the first cores and
given a meaningless probability.  slim_eval already rejects them.
---
 torchmps/mps_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 939397d..aee0402 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -368,6 +368,7 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     uniform = core_tensor.ndim == 3
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
+    assert uniform or len(core_tensor) == seq_len
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
-- 
2.43.0


From 70f77ea7b9708d309ed640fd6e6346099a54ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 13/33] fix: use the rel_std argument of normal_init

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index aee0402..d565a47 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -563,7 +563,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From e34c172243ef35bc9e3fafeb6fa534e0985f6034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 14/33] fix: judge imaginary rounding errors relative to the
 magnitude

The norm of a complex model is real up to rounding, which grows with the norm,
so that complex models with large parameters failed an absolute test.
---
 torchmps/utils2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index a3fb72b..8aca94c 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -183,7 +183,7 @@ def realify(tensor: Tensor) -> Tensor:
     Input must be approximately real, `realify` will raise error if not
     """
     if tensor.is_complex():
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=1e-4)
+        assert torch.all(tensor.imag.abs() <= 1e-4 * tensor.abs().clamp(min=1.0))
         return tensor.real
     else:
         return tensor
-- 
2.43.0


From 658a53454d5dd6030344014636212718dde0f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 15/33] fix: register the module of a TrainableEmbedding

The module was only reachable from a lambda, so its parameters were missing
from parameters() and state_dict(), and hence never trained, saved, moved to
another device or copied with the model.
---
 torchmps/embeddings.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 2b72c57..728bb56 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -88,9 +88,14 @@ class TrainableEmbedding(nn.Module):
 
         # Save defining data
         self.domain = data_domain
+        self.emb_module = emb_fun
+
+    def emb_fun(self, input_data):
+        """
+        Apply the embedding module to every value in input data
+        """
         # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        return self.emb_module(input_data[..., None])
 
     def make_lambda(self, num_points: int = 1000):
         """
-- 
2.43.0


From 26a87883f0556bbe5b5d0bb1c6b280ada014d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 16/33] fix: derive the normalization of a TrainableEmbedding
 when it is used

The matrix was computed in forward() and kept, so log_norm() failed before the
first call and ignored later parameter updates, the model could not be copied
after a call, and where the matrix happened to be diagonal the gradient of its
off-diagonal entries was lost.
---
 torchmps/embeddings.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 728bb56..6a8c93c 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -99,7 +99,7 @@ class TrainableEmbedding(nn.Module):
 
     def make_lambda(self, num_points: int = 1000):
         """
-        Compute the lambda matrix used for normalization
+        Compute and return the lambda matrix used for normalization
         """
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
@@ -129,21 +129,22 @@ class TrainableEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
-        self.lamb_mat = lamb_mat
 
-        # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
-            lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
-                self.lamb_mat = lamb_mat.mean()
-            else:
-                self.lamb_mat = lamb_mat
+        # Being diagonal at the current parameters doesn't make the gradient of
+        # the matrix diagonal, so don't simplify as FixedEmbedding does
+        return lamb_mat
+
+    @property
+    def lamb_mat(self):
+        """
+        Lambda matrix for the current parameters of the embedding function
+        """
+        return self.make_lambda()
 
     def forward(self, input_data):
         """
         Embed input data via the user-specified embedding function
         """
-        self.make_lambda()
         return self.emb_fun(input_data)
 
 
-- 
2.43.0


From 0eaf78cddaf37b686d04ee044cb53028182a9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 17/33] fix: normalize embeddings with small values

The test whether the lambda matrix is a multiple of the identity had an
absolute tolerance, which every matrix with entries below 1e-8 passes.
---
 torchmps/embeddings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6a8c93c..9334b98 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -206,9 +206,10 @@ class FixedEmbedding(nn.Module):
         self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        atol = 1e-8 * lamb_mat.abs().max().item()
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                 self.lamb_mat = lamb_mat.mean()
             else:
                 self.lamb_mat = lamb_mat
-- 
2.43.0


From 7e6f5ffffb182f4ace85b726e5335f4fa093e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 18/33] fix: load the parameters of an adaptive MPS in either
 merge state

The state dict of an adaptive MPS describes its active merged cores, but
load_state_dict failed unless the receiving model happened to be in the same
merge state (which a new model isn't after an odd number of shifts).
---
 torchmps/torchmps.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 122f209..dea628e 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -774,6 +774,25 @@ class MergedLinearRegion(LinearRegion):
         else:
             return output
 
+    def _load_from_state_dict(self, state_dict, prefix, *args, **kwargs):
+        """
+        Switch to the merge state of the loaded parameters before loading them
+        """
+        list_prefix = prefix + "module_list."
+        saved_shapes = {
+            key: value.shape
+            for key, value in state_dict.items()
+            if key.startswith(list_prefix)
+        }
+        for offset in [0, 1]:
+            module_list = getattr(self, f"module_list_{offset}")
+            list_dict = module_list.state_dict(prefix=list_prefix)
+            if saved_shapes == {key: val.shape for key, val in list_dict.items()}:
+                self.offset = offset
+                self.module_list = module_list
+
+        super()._load_from_state_dict(state_dict, prefix, *args, **kwargs)
+
     @torch.no_grad()
     def _merge(self, offset):
         """
-- 
2.43.0


From a39e0a23f0276c5f69865a7819a25a567bcce9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 19/33] fix: split tensors in their own dtype in svd_flex

Padding the factors to max_D put them in default precision, so the output
of a double precision tensor was only accurate to single precision.
---
 torchmps/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index d53b7d2..ff6ae80 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = svs.new_zeros([max_D])
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = left_mat.new_zeros([left_mat.size(0), max_D])
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = right_mat.new_zeros([max_D, right_mat.size(1)])
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From 1608cda813197a83666aa24f227bac0073779116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 20/33] fix: random_eye initialization with the right index
 before the left

The identity was built with its left size first but viewed in the order of
the indices, which scrambled it for non-square slices.
---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index ff6ae80..9d73786 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -233,7 +233,7 @@ def init_tensor(shape, bond_str, init_method):
                 shape[i] if c in bond_chars else 1 for i, c in enumerate(bond_str)
             ]
             expand_shape = shape
-            bond_dims = [shape[bond_str.index(c)] for c in bond_chars]
+            bond_dims = [shape[i] for i, c in enumerate(bond_str) if c in bond_chars]
 
         eye_tensor = torch.eye(bond_dims[0], bond_dims[1]).view(eye_shape)
         eye_tensor = eye_tensor.expand(expand_shape)
-- 
2.43.0


From 76ecc909aaff2a4a88b80e71669c22ac135c9748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 21/33] fix: reject vector inputs of size one in get_mat_slices

---
 torchmps/mps_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index d565a47..5104178 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -369,6 +369,7 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     input_dim, bond_dim = core_tensor.shape[-3:-1]
     seq_len = seq_input.shape[1]
     assert uniform or len(core_tensor) == seq_len
+    assert indexing or seq_input.shape[2] == input_dim
 
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
-- 
2.43.0


From e9aa31f76a4aaa24a16779ae4cfc0d0d9143a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 22/33] fix: shift an adaptive MPS with a zero core

---
 torchmps/torchmps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index dea628e..573fec7 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -941,10 +941,12 @@ class MergedLinearRegion(LinearRegion):
         log_scale = sum([sum(ns) for ns in log_norms])
         log_scale /= sum([len(ns) for ns in log_norms])
 
-        # Now rescale all cores so that their norms are roughly equal
+        # Now rescale all cores so that their norms are roughly equal, which
+        # isn't possible if any core is zero
         scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
-        for core, these_scales in zip(unmerged_list, scales):
-            core.rescale_norm(these_scales)
+        if torch.isfinite(log_scale):
+            for core, these_scales in zip(unmerged_list, scales):
+                core.rescale_norm(these_scales)
 
         # Add our unmerged module list as a new attribute and return
         # the updated bond dimensions
-- 
2.43.0


From 4aa62d544a49e86415abb25a40126a634c1f57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 23/33] fix: embedded inputs in another dtype than the cores

---
 torchmps/mps_base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 5104178..cbce4b2 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -83,8 +83,8 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
     if vec_input:
         assert seq_input.shape[-1] == core_tensor.shape[-3]
 
-    # Promote seq_input to complex dtype if core_tensor is complex
-    if core_tensor.is_complex() and seq_input.is_floating_point():
+    # Convert real vector inputs to the (maybe complex) dtype of core_tensor
+    if seq_input.is_floating_point():
         seq_input = seq_input.to(core_tensor.dtype)
 
     # Condition on cases of vector inputs and non-uniform MPS
@@ -374,8 +374,8 @@ def get_mat_slices(seq_input: Tensor, core_tensor: Tensor) -> Tensor:
     # TODO: Deal with packing if/when we have variable-len sequences,
     #       likely using pad_mat_slices function
 
-    # Promote seq_input to complex dtype if core_tensor is complex
-    if core_tensor.is_complex() and seq_input.is_floating_point():
+    # Convert real vector inputs to the (maybe complex) dtype of core_tensor
+    if seq_input.is_floating_point():
         seq_input = seq_input.to(core_tensor.dtype)
 
     # Perform the indexing/contraction on a case-by-case basis
@@ -439,6 +439,10 @@ def get_log_norm(
     assert not (uniform and length is None)
     fixed_len = not uniform or length != -1
 
+    # Convert lambda matrix to the (maybe complex) dtype of core_tensor
+    if lamb_mat is not None and (core_tensor.is_complex() or not lamb_mat.is_complex()):
+        lamb_mat = lamb_mat.to(core_tensor.dtype)
+
     # Initialize all variables needed for log norm calculation
     uniform = core_tensor.ndim == 3
     left_vec, r_vec = boundary_vecs
-- 
2.43.0


From 2e8dab6b16cc106468acfbe59c47203d7f4c1dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 24/33] fix: evaluate a trainable continuous embedding after
 double()

The points used to compute the lambda matrix had the default dtype, so a
model with an MLP embedding couldn't be evaluated in any other precision.
---
 torchmps/embeddings.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 9334b98..5b1a185 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -103,8 +103,13 @@ class TrainableEmbedding(nn.Module):
         """
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
+            # Use points with the same precision as the embedding parameters
+            dtypes = [p.dtype for p in self.parameters() if p.is_floating_point()]
             points = torch.linspace(
-                self.domain.min_val, self.domain.max_val, steps=num_points
+                self.domain.min_val,
+                self.domain.max_val,
+                steps=num_points,
+                dtype=dtypes[0] if dtypes else None,
             )
             self.num_points = num_points
             emb_vecs = self.emb_fun(points)
-- 
2.43.0


From 101f9eaeabfbfe3b52d49e25a6a97e2516ba58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 25/33] fix: normalize Born machines with bias and embedding

The bias was added to every contracted core, but the norm adds it to every
slice of the core, which only agrees for vectors with unit sum. Probabilities
of embedded inputs therefore didn't sum to one.
---
 torchmps/prob_mps.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..b9c82ee 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -178,10 +178,12 @@ class ProbMPS(nn.Module):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core tensors, as in log norm calculation, and
+            # contract inputs with these
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None, None]
+                core_tensors = core_tensors + self.bias_mat[None, None]
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
@@ -406,10 +408,12 @@ class ProbUnifMPS(ProbMPS):
                 input_data, self.core_tensors, self.edge_vecs
             )
         else:
-            # Contract inputs with core tensors and add bias matrices
-            mat_slices = get_mat_slices(input_data, self.core_tensors)
+            # Add bias matrices to core tensors, as in log norm calculation, and
+            # contract inputs with these
+            core_tensors = self.core_tensors
             if self.use_bias:
-                mat_slices = mat_slices + self.bias_mat[None]
+                core_tensors = core_tensors + self.bias_mat[None]
+            mat_slices = get_mat_slices(input_data, core_tensors)
 
             #  Contract all bond dims to get (unnormalized) prob amplitudes
             psi_vals, log_scales = contract_matseq(
-- 
2.43.0


From c67f01502d72a494fef39c5d8c8c48023e4331ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 26/33] fix: evaluate empty sequences with slim_eval

slim_eval_fun returned a single value instead of one per batch entry for
sequences of length zero, and failed its own shape check.
---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index cbce4b2..1c276ca 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -99,7 +99,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
     # Process input sequentially, from left to right
     log_scale = torch.zeros(batch)
-    vecs = bound_vecs[0][None, None]
+    vecs = bound_vecs[0].expand(batch, 1, bond_dim)
     for inps, core in zip(seq_input, all_cores):
         mats = slice_fun(inps, core)
         vecs = torch.matmul(vecs, mats)
-- 
2.43.0


From 68eeb00f5ad2416b2f82abcdbc8ebb18c0d4eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 27/33] fix: keep gradients finite in batches with inputs of
 probability zero

The derivative of log(abs(0)) turned the gradients of every parameter into
NaN, even those of the log probabilities of the other inputs.
---
 torchmps/prob_mps.py |  6 +++---
 torchmps/utils2.py   | 13 +++++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index b9c82ee..73e5fb1 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -34,7 +34,7 @@ from torchmps.mps_base import (
     get_log_norm,
     slim_eval_fun,
 )
-from torchmps.utils2 import phaseify
+from torchmps.utils2 import phaseify, log_abs
 from torchmps.embeddings import DataDomain, FixedEmbedding, TrainableEmbedding
 
 
@@ -200,7 +200,7 @@ class ProbMPS(nn.Module):
         assert torch.all(psi_vals.isfinite())
 
         # Compute unnormalized log probabilities
-        log_uprobs = torch.log(torch.abs(psi_vals)) + log_scales
+        log_uprobs = log_abs(psi_vals) + log_scales
 
         # Return normalized probabilities
         return 2 * log_uprobs - log_norm
@@ -430,7 +430,7 @@ class ProbUnifMPS(ProbMPS):
         assert torch.all(psi_vals.isfinite())
 
         # Compute unnormalized log probabilities
-        log_uprobs = torch.log(torch.abs(psi_vals)) + log_scales
+        log_uprobs = log_abs(psi_vals) + log_scales
         assert log_uprobs.shape == (batch,)
 
         # Return normalized probabilities
diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index 8aca94c..d1ccfd5 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -189,6 +189,19 @@ def realify(tensor: Tensor) -> Tensor:
         return tensor
 
 
+def log_abs(tensor: Tensor) -> Tensor:
+    """
+    Log of absolute value, with -inf for zero elements
+
+    Same as `torch.log(torch.abs(tensor))`, but zero elements give a gradient
+    of zero, rather than turning the gradients of everything into NaN
+    """
+    abs_vals = torch.abs(tensor)
+    is_zero = abs_vals == 0
+    log_vals = torch.log(abs_vals.masked_fill(is_zero, 1.0))
+    return log_vals.masked_fill(is_zero, -float("inf"))
+
+
 def floor2(tensor: Tensor) -> Tensor:
     """
     Get the smallest powers of two which is greater than the tensor elements
-- 
2.43.0


From e345d4dc20061062e797268ac2673701d633932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 28/33] fix: reject empty lists in ContractableList and
 LinearRegion

Both check for an empty list with "is []", which is never true.
---
 torchmps/contractables.py | 2 +-
 torchmps/torchmps.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..8d3e1b5 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -174,7 +174,7 @@ class ContractableList(Contractable):
 
     def __init__(self, contractable_list):
         # Check that input list is nonempty and has contractables as entries
-        if not isinstance(contractable_list, list) or contractable_list is []:
+        if not isinstance(contractable_list, list) or contractable_list == []:
             raise ValueError("Input to ContractableList must be nonempty list")
         for i, item in enumerate(contractable_list):
             if not isinstance(item, Contractable):
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 573fec7..1526c9b 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -600,7 +600,7 @@ class LinearRegion(nn.Module):
         self, module_list, periodic_bc=False, parallel_eval=False, module_states=None
     ):
         # Check that module_list is a list whose entries are Pytorch modules
-        if not isinstance(module_list, list) or module_list is []:
+        if not isinstance(module_list, list) or module_list == []:
             raise ValueError("Input to LinearRegion must be nonempty list")
         for i, item in enumerate(module_list):
             if not isinstance(item, nn.Module):
-- 
2.43.0


From 5316a1d370ce2861b38a7cd0d18a12dc90f860c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 29/33] fix: multiply edge vectors and output matrices by
 scalars

Scalar.__mul__ rebuilt them without their is_left argument, OutputMat raised
NotImplemented instead of returning it, and scalars without any axis, which
the documentation allows, were rejected.
---
 torchmps/contractables.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 8d3e1b5..47b3f2c 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -371,7 +371,7 @@ class OutputMat(Contractable):
         Multiply with an edge vector along the shared linear index
         """
         if not isinstance(edge_vec, EdgeVec):
-            raise NotImplemented  # noqa: F901
+            return NotImplemented
         else:
             return super().__mul__(edge_vec, rmul)
 
@@ -428,7 +428,7 @@ class Scalar(Contractable):
     def __init__(self, scalar):
         # Add dummy dimension if we have a torch scalar
         shape = list(scalar.shape)
-        if shape is []:
+        if shape == []:
             scalar = scalar.view([1])
             shape = [1]
 
@@ -455,10 +455,12 @@ class Scalar(Contractable):
 
         # Wrap the result in the same class right_contractable belongs to
         contract_class = type(contractable)
-        if contract_class is not Contractable:
-            return contract_class(out_tensor)
-        else:
+        if contract_class is Contractable:
             return Contractable(out_tensor, bond_str)
+        elif contract_class in (EdgeVec, OutputMat):
+            return contract_class(out_tensor, "r" in bond_str)
+        else:
+            return contract_class(out_tensor)
 
     def __rmul__(self, contractable):
         # Scalar multiplication is commutative
-- 
2.43.0


From 0090ca2c70767acc1275b6a33d8f93bfe9e226e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 30/33] fix: multiply a contractable by the items of a
 ContractableList

The product was started from a bare tensor, which no item can be multiplied
with, and every item was put on the wrong side.
---
 torchmps/contractables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 47b3f2c..28fb7c9 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -191,15 +191,15 @@ class ContractableList(Contractable):
         """
         # The input cannot be a composite contractable
         assert hasattr(contractable, "tensor")
-        output = contractable.tensor
+        output = contractable
 
         # Multiply by everything in ContractableList, in the correct order
         if rmul:
             for item in self.contractable_list:
-                output = item * output
+                output = output * item
         else:
             for item in self.contractable_list[::-1]:
-                output = output * item
+                output = item * output
 
         return output
 
-- 
2.43.0


From 2c8f1d310670ceac7feeb10a4059d7d0bd6d9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 31/33] fix: use the documented default cutoff of MPS

README.md and the class documentation give 1e-9, the code had 1e-10.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 1526c9b..b608a56 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -358,7 +358,7 @@ class MPS(nn.Module):
         initializer=None,
         use_bias=True,
         adaptive_mode=False,
-        cutoff=1e-10,
+        cutoff=1e-9,
         merge_threshold=2000,
     ):
         super().__init__()
-- 
2.43.0


From 4c3b8b43b49891b51dc171108966cc901da9a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 32/33] fix: let parallel_eval override slim_eval, as
 documented

---
 torchmps/prob_mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 73e5fb1..debf0a6 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -171,7 +171,7 @@ class ProbMPS(nn.Module):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
@@ -401,7 +401,7 @@ class ProbUnifMPS(ProbMPS):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
-- 
2.43.0


From 4f3279188ccff888362f18e9fa1bdd278256e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 33/33] fix: keep the caller's list in ContractableList.reduce

---
 torchmps/contractables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index 28fb7c9..795c722 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -213,7 +213,7 @@ class ContractableList(Contractable):
         """
         Reduce all the contractables in list before multiplying them together
         """
-        c_list = self.contractable_list
+        c_list = list(self.contractable_list)
         # For parallel_eval, reduce all contractables in c_list
         if parallel_eval:
             c_list = [item.reduce() for item in c_list]
-- 
2.43.0


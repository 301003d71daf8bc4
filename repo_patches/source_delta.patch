From 8f77691162541405832aac5690fd1d9c51b1531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:39 +0000
Subject: [PATCH 001/135] fix: do not merge Hamiltonian evolutions into
 single-qubit matmuls

A chain of single-qubit operations containing a HamEvo raised a TypeError in
the pyqtorch backend, since pyq.Merge only accepts primitive operations.
---
 qadence/backends/pyqtorch/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..bc2c3f0 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -74,7 +74,7 @@ def is_single_qubit_chain(block: AbstractBlock) -> bool:
         isinstance(block, (ChainBlock))
         and block.n_supports == 1
         and all([isinstance(b, (ParametricBlock, PrimitiveBlock)) for b in block])
-        and not any([isinstance(b, (ScaleBlock, U)) for b in block])
+        and not any([isinstance(b, (ScaleBlock, TimeEvolutionBlock, U)) for b in block])
     )
 
 
-- 
2.43.0


From 799f6544925e40267c3e69ef1087a7daa631be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:59 +0000
Subject: [PATCH 002/135] fix: give different constants different parameter
 names

stringify named constants after their Python hash, but hash(-1) == hash(-2), so
that a gate with constant -1 silently received the value of one with -2. A
negative constant also made an invalid identifier ('fix_-2'), which broke scale
factors in parametric generators.
---
 qadence/parameters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..6e9ecd4 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -289,8 +289,12 @@ def stringify(expr: Basic) -> str:
         return str(np.array(expr.tolist())).replace(".", "_")
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            # use the literal and not its hash, e.g. hash(-1) == hash(-2),
+            # and keep the name a valid identifier
+            literal = repr(sympy_to_numeric(expr))
+            for char, replacement in ((".", "_"), ("-", "m"), ("+", "p"), ("(", ""), (")", "")):
+                literal = literal.replace(char, replacement)
+            name = "fix_" + literal
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From 3ade8429307253aa835218ee6cc33ad54a14eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:59 +0000
Subject: [PATCH 003/135] fix: run a list of circuits

run([circuit, ...]) always raised a TypeError, adding a tensor to a tuple.
---
 qadence/execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..32f8a45 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -105,7 +105,7 @@ def _(block: AbstractBlock, **kwargs: Any) -> Tensor:
 def _(circs: list, **kwargs: Any) -> Tensor:  # type: ignore[misc]
     results = ()
     for c in circs:
-        results += run(c, **kwargs)  # type:ignore[assignment]
+        results += (run(c, **kwargs),)  # type:ignore[assignment]
     return concat(results, dim=0)
 
 
-- 
2.43.0


From eb3f9184ebc796e5b5c09f1a7d6756da063c3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:55 +0000
Subject: [PATCH 004/135] fix: do not read the size of a generator matrix as
 the batch size

The leading dimension of a constant generator matrix was taken for a batch size,
so that running HamEvo with a 2**n x 2**n tensor generator returned 2**n identical
states instead of one.
---
 qadence/blocks/embedding.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qadence/blocks/embedding.py b/qadence/blocks/embedding.py
index 4fa6fab..914f80c 100644
--- a/qadence/blocks/embedding.py
+++ b/qadence/blocks/embedding.py
@@ -176,10 +176,8 @@ def embedding(
             for expr in constant_expressions
         }
     )
-    params.update(
-        {
-            stringify(expr): cast_dtype(nparray(expr.tolist(), dtype=npcdouble))
-            for expr in unique_const_matrices
-        }
-    )
+    for expr in unique_const_matrices:
+        const_array = nparray(expr.tolist(), dtype=npcdouble)
+        # the leading dimension of a parameter is its batch size, which is 1 for a matrix
+        params[stringify(expr)] = cast_dtype(const_array[None] if expr.rank() == 2 else const_array)
     return params, embedding_fn
-- 
2.43.0


From 04202e3feb893b720ccf90d52a07a8d621296d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:30 +0000
Subject: [PATCH 005/135] fix: accept imaginary factors in parametric scales

1j * (theta * X(0)) raised KeyError: 'I', since the imaginary unit was taken for
the name of a parameter.
---
 qadence/backends/pyqtorch/convert_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index bc2c3f0..80648d1 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -144,6 +144,8 @@ def sympy_to_pyq(expr: sympy.Expr) -> ConcretizedCallable | Tensor:
 
     # base case - independent argument
     if len(expr.args) == 0:
+        if expr is sympy.I:
+            return torch.as_tensor(1j, dtype=cdouble)
         try:
             res = torch.as_tensor(float(expr))
         except Exception as e:
-- 
2.43.0


From 29101e5ad6b83f2135d854854430b658590dcba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:37 +0000
Subject: [PATCH 006/135] fix: n_qubits of a block covers its highest qubit

U, T, TDagger, Toffoli, parametric controlled gates, MatrixBlock and HamEvo with a
tensor generator reported the number of qubits they act on instead of the size of
the register they need (MatrixBlock even as a float), so that e.g. run(T(1)) or
block_to_tensor(CRX(1, 2, 0.5), use_full_support=True) failed or were truncated.
---
 qadence/blocks/matrix.py          |  4 ----
 qadence/blocks/primitive.py       |  4 ----
 qadence/operations/control_ops.py | 24 ++++++++++--------------
 qadence/operations/ham_evo.py     |  3 +--
 qadence/operations/parametric.py  |  4 ----
 qadence/operations/primitive.py   |  8 --------
 6 files changed, 11 insertions(+), 36 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 440d5fb..c25ae5a 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -100,10 +100,6 @@ class MatrixBlock(PrimitiveBlock):
         _, indices = torch.sort(ev.real)
         return ev[indices]
 
-    @property
-    def n_qubits(self) -> int:
-        return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
-
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..3746c8f 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -456,10 +456,6 @@ class ParametricControlBlock(ParametricBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         raise NotImplementedError
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..f4cc941 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -72,11 +72,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_qubits - 1)))
+        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
@@ -119,13 +119,13 @@ class MCRX(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRX(MCRX):
@@ -162,13 +162,13 @@ class MCRY(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRY(MCRY):
@@ -201,13 +201,13 @@ class MCRZ(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRZ(MCRZ):
@@ -245,13 +245,13 @@ class MCPHASE(ParametricControlBlock):
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.cat(
-            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_qubits - 2)))
+            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_supports - 2)))
         )
 
     @property
     def eigenvalues(self) -> Tensor:
         v = evaluate(self.parameters.parameter, as_torch=True)
-        return torch.cat((torch.ones(2**self.n_qubits - 1), torch.exp(1j * v)))
+        return torch.cat((torch.ones(2**self.n_supports - 1), torch.exp(1j * v)))
 
     def __rich_tree__(self, tree: Tree = None) -> Tree:
         if tree is None:
@@ -334,10 +334,6 @@ class Toffoli(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], X(target) - I(target))
         super().__init__(control, X(target), noise=noise)
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor(
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c796f02..e0ee83b 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -5,7 +5,6 @@ from functools import cached_property
 from logging import getLogger
 from typing import Any, Union
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor
@@ -194,7 +193,7 @@ class HamEvo(TimeEvolutionBlock):
     @property
     def n_qubits(self) -> int:
         if isinstance(self.generator, Tensor):
-            n_qubits = int(np.log2(self.generator.shape[-1]))
+            n_qubits = max(self.qubit_support) + 1
         else:
             n_qubits = self.generator.n_qubits  # type: ignore [union-attr]
 
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..d0d363d 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -190,10 +190,6 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..f12063d 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -310,10 +310,6 @@ class T(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> TDagger:
         return TDagger(self.qubit_support[0])
 
@@ -340,10 +336,6 @@ class TDagger(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> T:
         return T(self.qubit_support[0])
 
-- 
2.43.0


From 91c21353aba0e36b866f106713eed8c4eca12773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:45 +0000
Subject: [PATCH 007/135] fix: apply a batch of scale factors per batch element
 in block_to_tensor

A batch of values for the scale of a ScaleBlock was broadcast over the columns of
the matrix instead of over the batch dimension.
---
 qadence/blocks/block_to_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c280908..aa43e02 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -454,7 +454,8 @@ def _block_to_tensor_embedded(
 
     elif isinstance(block, ScaleBlock):
         (scale,) = _gate_parameters(block, values)
-        mat = scale * _block_to_tensor_embedded(
+        # align the batch of scales with the batch dimension of the matrices
+        mat = scale.reshape(-1, 1, 1) * _block_to_tensor_embedded(
             block.block, values, qubit_support, endianness=endianness, device=device
         )
 
-- 
2.43.0


From 50f18b5b0d14303d2f072f1b0402b051e8fe14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:45 +0000
Subject: [PATCH 008/135] fix: matrix of evolutions with parametric generators
 or batched times

block_to_tensor failed to unpack the parameters of a HamEvo with a parametric
generator, and broadcast a batch of times over matrix columns.
---
 qadence/blocks/block_to_tensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index aa43e02..bed6fb5 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -415,15 +415,15 @@ def _block_to_tensor_embedded(
                 )
 
                 # calculate evolution matrix
-                (p,) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                p = _gate_parameters(block, values)[0]
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
                 gen_mat = block.generator.to(device)
 
                 # calculate evolution matrix
-                (p, _) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                p = _gate_parameters(block, values)[0]
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
 
                 # add missing identities on unused qubits
-- 
2.43.0


From e58238be0b14ad90255c632ddc2d4b79d7c0ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:13 +0000
Subject: [PATCH 009/135] fix: matrix of multi-qubit blocks on unsorted, gapped
 or reversed supports

block_to_tensor padded multi-qubit matrices (MatrixBlock, Projector, HamEvo of a
tensor) as if their qubits were sorted and adjacent, and did not reverse their
qubits in little endian.
---
 qadence/blocks/block_to_tensor.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index bed6fb5..f3c50f8 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -80,9 +80,24 @@ def _fill_identities(
         or a tensor (2**n_qubits) if diag_only
     """
     full_qubit_support = tuple(sorted(full_qubit_support))
-    qubit_support = tuple(sorted(qubit_support))
     block_mat = block_mat.to(device)
     identity_mat = IMAT.to(device)
+    if len(qubit_support) > 1 and not diag_only:
+        # place identities last, and then move every qubit to its position
+        unsqueezed = block_mat.ndim == 2
+        mat = block_mat.unsqueeze(0) if unsqueezed else block_mat
+        order = tuple(qubit_support)
+        for i in full_qubit_support:
+            if i not in qubit_support:
+                mat = torch.kron(mat.contiguous(), identity_mat)
+                order += (i,)
+        nqubits = len(order)
+        target = full_qubit_support[::-1] if endianness == Endianness.LITTLE else full_qubit_support
+        perm = [order.index(i) for i in target]
+        mat = mat.reshape(-1, *(2,) * (2 * nqubits))
+        mat = mat.permute(0, *(1 + i for i in perm), *(1 + nqubits + i for i in perm))
+        mat = mat.reshape(-1, 2**nqubits, 2**nqubits)
+        return mat.squeeze(0) if unsqueezed else mat
     if diag_only:
         block_mat = torch.diag(block_mat.squeeze(0))
         identity_mat = torch.diag(identity_mat.squeeze(0))
-- 
2.43.0


From 6f88b3c0c4a4e5e6282bba87757bcb519ca8b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:21 +0000
Subject: [PATCH 010/135] fix: diagonal of a block on the requested qubits and
 bit order

block_to_tensor(..., tensor_type='SparseDiagonal') ignored qubit_support and
use_full_support, and composite blocks ignored the endianness.
---
 qadence/blocks/block_to_tensor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index f3c50f8..6bb0a7e 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -298,16 +298,22 @@ def block_to_diagonal(
     if isinstance(block, (ChainBlock, KronBlock)):
         v = torch.ones(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            v *= block_to_diagonal(b, values, qubit_support, device=device)
+            v *= block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
     if isinstance(block, AddBlock):
         t = torch.zeros(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            t += block_to_diagonal(b, values, qubit_support, device=device)
+            t += block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
         v = t
     elif isinstance(block, ScaleBlock):
         _s = evaluate(block.scale, values, as_torch=True)  # type: ignore[attr-defined]
         _s = _s.detach().squeeze(0)  # type: ignore[union-attr]
-        v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
+        v = _s * block_to_diagonal(
+            block.block, values, qubit_support, endianness=endianness, device=device
+        )
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
             OPERATIONS_DICT[block.name],
@@ -370,7 +376,9 @@ def block_to_tensor(
         )
 
     elif tensor_type == TensorType.SPARSEDIAGONAL:
-        t = block_to_diagonal(block, values, endianness=endianness)
+        t = block_to_diagonal(
+            block, values, qubit_support, use_full_support, endianness=endianness, device=device
+        )
         indices, values, size = torch.nonzero(t), t[t != 0], len(t)
         indices = torch.stack((indices.flatten(), indices.flatten()))
         return torch.sparse_coo_tensor(indices, values, (size, size))
-- 
2.43.0


From 1b9390b9ed9519e6bd10cbf1f5d9697eebb253d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:54 +0000
Subject: [PATCH 011/135] fix: matrix of TDagger

The matrix of TDagger was that of T, and could not be looked up since the name of
the gate ('T_dagger') was not the registered one ('TDagger').
---
 qadence/blocks/block_to_tensor.py | 2 +-
 qadence/operations/primitive.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 6bb0a7e..062b4d0 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -33,7 +33,7 @@ NMAT = torch.tensor([[0, 0], [0, 1]], dtype=torch.cdouble).unsqueeze(0)
 SMAT = torch.tensor([[1, 0], [0, 1j]], dtype=torch.cdouble).unsqueeze(0)
 SDAGMAT = torch.tensor([[1, 0], [0, -1j]], dtype=torch.cdouble).unsqueeze(0)
 TMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
-TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
+TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(-J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
 HMAT = (
     1
     / torch.sqrt(torch.tensor(2))
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index f12063d..15d2181 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -318,7 +318,7 @@ class TDagger(PrimitiveBlock):
     """The Hermitian adjoint/conjugate transpose of the T gate."""
 
     # FIXME: this gate is not support by any backend
-    name = "T_dagger"
+    name = OpName.TDAGGER
 
     def __init__(
         self,
-- 
2.43.0


From e572cc9bd4e4ad1aa1f48076c650a2927a4b32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 012/135] fix: honour the state of N(target, state='0')

N with state '0' is the projector |0><0|, but was executed and converted to a matrix
as |1><1|.
---
 qadence/backends/pyqtorch/convert_ops.py | 7 +++----
 qadence/blocks/block_to_tensor.py        | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 80648d1..7407145 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -282,12 +282,11 @@ def convert_block(
             return [pyq.Sequence(ops)]  # for kron and chain
     elif isinstance(block, tuple(non_unitary_gateset)):
         if isinstance(block, ProjectorBlock):
-            projector = getattr(pyq, block.name)
-            if block.name == OpName.N:
-                return [projector(target=qubit_support, noise=noise)]
+            if block.name == OpName.N and block.ket == "1":
+                return [pyq.N(target=qubit_support, noise=noise)]
             else:
                 return [
-                    projector(
+                    pyq.Projector(
                         qubit_support=qubit_support,
                         ket=block.ket,
                         bra=block.bra,
diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 062b4d0..302a8ff 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -505,7 +505,7 @@ def _block_to_tensor_embedded(
             swap_block, values, qubit_support, endianness=endianness, device=device
         )
 
-    elif block.name in OPERATIONS_DICT.keys():
+    elif block.name in OPERATIONS_DICT.keys() and getattr(block, "ket", "1") == "1":
         block_mat = OPERATIONS_DICT[block.name]
 
         # add missing identities on unused qubits
-- 
2.43.0


From 9997809b0870255b0e8f7d94471f39103f4b666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:50 +0000
Subject: [PATCH 013/135] fix: adjoint expectation of several observables has
 one column per observable

The results were stacked as extra batch entries.
---
 qadence/engines/torch/differentiable_expectation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index febc13b..392bc63 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -162,7 +162,7 @@ class DifferentiableExpectation:
             )  # we expect (batch_size, n_observables) shape
 
         expectation_list = [expectation_fn(i) for i in range(len(self.observable))]
-        return torch.vstack(expectation_list)
+        return torch.hstack(expectation_list)
 
     def psr(self, psr_fn: Callable, **psr_args: int | float | None) -> Tensor:
         # wrapper which unpacks the parameters
-- 
2.43.0


From 2e5a5e2957404d588f76c810d73d9c3ebf6f9b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:31 +0000
Subject: [PATCH 014/135] fix: mix observables with and without batched
 parameters

With a single initial state, an expectation of several observables of which only
some have batched parameters failed to stack the results.
---
 qadence/backends/pyqtorch/backend.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8ade90e..2612202 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -204,10 +204,12 @@ class Backend(BackendInterface):
             unpyqify_state=False,
         )
         observable = observable if isinstance(observable, list) else [observable]
-        _expectation = torch.hstack(
-            [obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable]
-        )
-        return _expectation
+        expvals = [
+            obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable
+        ]
+        # observables without batched parameters are constant along the batch
+        batch_size = max(e.size(0) for e in expvals)
+        return torch.hstack([e.expand(batch_size, 1) for e in expvals])
 
     def _looped_expectation(
         self,
-- 
2.43.0


From 12f6ff6ebd845725fafe16022d6f02410f3a2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:28 +0000
Subject: [PATCH 015/135] fix: parameter-shift modes with scaled number
 operators in a generator

The placeholder spectrum of non-unitary operators was real, on which the rounding of
spectral gaps raises a TypeError.
---
 qadence/blocks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 1759b9a..7e0abcd 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -299,7 +299,7 @@ def uuid_to_eigen(
         try:
             eigs_generator = b.eigenvalues_generator
         except ValueError:
-            result[uuid] = (torch.zeros(2), 1.0)
+            result[uuid] = (torch.zeros(2, dtype=torch.cdouble), 1.0)
         else:
             if eigs_generator is not None:
                 if eigs_generator.numel() > 0:
-- 
2.43.0


From 0508e4e637fef71867b0133a386aedce6e42bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:34 +0000
Subject: [PATCH 016/135] fix: do not parse parameter names as sympy names in
 parametric scales

---
 qadence/backends/pyqtorch/convert_ops.py | 42 ++----------------------
 1 file changed, 3 insertions(+), 39 deletions(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 7407145..d8e2379 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import re
 from functools import partial, reduce
 from itertools import chain as flatten
 from typing import Any, Callable, Sequence
@@ -99,39 +98,6 @@ def extract_parameter(block: ScaleBlock | ParametricBlock, config: Configuration
     return config.get_param_name(block)[0]
 
 
-def replace_underscore_floats(s: str) -> str:
-    """Replace underscores with periods for all floats in given string.
-
-    Needed for correct parsing of string by sympy parser.
-
-    Args:
-        s (str): string expression
-
-    Returns:
-        str: transformed string expression
-    """
-
-    # Regular expression to match floats written with underscores instead of dots
-    float_with_underscore_pattern = r"""
-        (?<!\w)            # Negative lookbehind to ensure not part of a word
-        -?                 # Optional negative sign
-        \d+                # One or more digits (before underscore)
-        _                  # The underscore acting as decimal separator
-        \d+                # One or more digits (after underscore)
-        ([eE][-+]?\d+)?    # Optional exponent part for scientific notation
-        (?!\w)             # Negative lookahead to ensure not part of a word
-    """
-
-    # Function to replace the underscore with a dot
-    def underscore_to_dot(match: re.Match) -> Any:
-        return match.group(0).replace("_", ".")
-
-    # Compile the regular expression
-    pattern = re.compile(float_with_underscore_pattern, re.VERBOSE)
-
-    return pattern.sub(underscore_to_dot, s)
-
-
 def sympy_to_pyq(expr: sympy.Expr) -> ConcretizedCallable | Tensor:
     """Convert sympy expression to pyqtorch ConcretizedCallable object.
 
@@ -213,12 +179,10 @@ def convert_block(
         scaled_ops = convert_block(block.block, n_qubits, config)
         scale = extract_parameter(block, config=config)
 
-        # replace underscore by dot when underscore is between two numbers in string
-        if isinstance(scale, str):
-            scale = replace_underscore_floats(scale)
-
         if isinstance(scale, str) and not config._use_gate_params:
-            param = sympy_to_pyq(sympy.parse_expr(scale))
+            # convert the expression itself and not its text: parsing the text would
+            # confuse parameters with sympy names, e.g. "beta", "E" or "pi"
+            param = sympy_to_pyq(block.parameters.parameter)
         else:
             param = scale
 
-- 
2.43.0


From 14e46bb616820655b33f317d9bd85d06af39fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 017/135] fix: evaluate powers of expressions containing the
 parameter

---
 qadence/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 6e9ecd4..476c361 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -278,7 +278,9 @@ def evaluate(expr: Expr, values: dict | None = None, as_torch: bool = False) ->
         if as_torch:
             res_value = make_differentiable(expr)(**{s.name: tensor(v) for s, v in query.items()})
         else:
-            res = expr.subs(query)
+            # replace exactly the symbols: subs compares sub-expressions with Parameter.__eq__
+            # which also holds for any expression containing the parameter, e.g. (x + 1)**2
+            res = expr.xreplace({s: sympify(v) for s, v in query.items()})
             res_value = sympy_to_numeric(res)
         return res_value
 
-- 
2.43.0


From 2269b1271b20c30d28a61551fbd3471ee2d4dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:09 +0000
Subject: [PATCH 018/135] fix: adjoint of a MatrixBlock is its conjugate
 transpose

---
 qadence/blocks/matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index c25ae5a..cb82ad9 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -118,6 +118,11 @@ class MatrixBlock(PrimitiveBlock):
         i = torch.eye(m.shape[0], dtype=torch.complex128)
         return torch.allclose(prod, i)  # type:ignore[no-any-return]
 
+    def dagger(self) -> MatrixBlock:
+        return MatrixBlock(
+            self.matrix.t().conj(), self.qubit_support, noise=self.noise, check_unitary=False
+        )
+
     def expand_to(self, n_qubits: int = 1) -> torch.Tensor:
         from qadence.blocks.block_to_tensor import _fill_identities
 
-- 
2.43.0


From b33dbe8ff598f5bedea206c930bf4c077e3b73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 019/135] fix: adjoint of a projector swaps its ket and bra

---
 qadence/operations/primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 15d2181..971cb7e 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 from logging import getLogger
 from typing import Union
 
@@ -142,6 +143,11 @@ class Projector(ProjectorBlock):
     ) -> None:
         super().__init__(ket=ket, bra=bra, qubit_support=qubit_support, noise=noise)
 
+    def dagger(self) -> Projector:
+        blk = deepcopy(self)
+        blk.ket, blk.bra = self.bra, self.ket
+        return blk
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
-- 
2.43.0


From 33e4e1dc7067e7444878ebf9ed746768dd284a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 020/135] fix: adjoint of an evolution keeps its support,
 duration and noise operators

---
 qadence/operations/ham_evo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index e0ee83b..5445571 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -201,7 +201,13 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p))
+        return HamEvo(
+            deepcopy(self.generator),
+            -extract_original_param_entry(p),
+            qubit_support=self.qubit_support,
+            duration=self.duration,
+            noise_operators=self.noise_operators,
+        )
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
-- 
2.43.0


From c644fd3dfc7c4f1d2c1df88c957cf56af2f3f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 021/135] fix: adjoint of U reverses the order of its rotations

---
 qadence/operations/parametric.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index d0d363d..5d5988e 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -20,6 +20,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     evaluate,
+    extract_original_param_entry,
 )
 from qadence.types import OpName, TNumber, TParameter
 
@@ -190,6 +191,12 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
+    def dagger(self) -> U:
+        phi, theta, omega = (
+            -extract_original_param_entry(param) for param in self.parameters.expressions()
+        )
+        return U(self.qubit_support[0], omega, theta, phi, noise=self.noise)
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
-- 
2.43.0


From 9af023b270ae3683e30625b89f7560712a3f070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 022/135] fix: adjoint of a circuit keeps its register

---
 qadence/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/circuit.py b/qadence/circuit.py
index fd266fe..5d97849 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -116,7 +116,7 @@ class QuantumCircuit:
 
     def dagger(self) -> QuantumCircuit:
         """Reverse the QuantumCircuit by calling dagger on the block."""
-        return QuantumCircuit(self.n_qubits, self.block.dagger())
+        return QuantumCircuit(self.register, self.block.dagger())
 
     def get_blocks_by_tag(self, tag: str) -> list[AbstractBlock]:
         """Extract one or more blocks using the human-readable tag.
-- 
2.43.0


From 8d2ce71053432a74ab40d9bded9aba05bbb95d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:49 +0000
Subject: [PATCH 023/135] fix: copying or pickling a parameter keeps its value

---
 qadence/parameters.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 476c361..0ff825c 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -152,6 +152,13 @@ class Parameter(Symbol):
     def __hash__(self) -> Any:
         return super().__hash__()
 
+    def __reduce__(self) -> tuple:
+        # sympy keeps assumptions as booleans only, hence copies and
+        # pickles must carry the attributes themselves
+        _, assumptions = self.__getnewargs_ex__()
+        attributes = {k: getattr(self, k) for k in ("trainable", "value", "is_time")}
+        return _restore_parameter, (type(self), self.name, assumptions, attributes)
+
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
         try:
@@ -172,6 +179,13 @@ class Parameter(Symbol):
             return None
 
 
+def _restore_parameter(cls: type, name: str, assumptions: dict, attributes: dict) -> Parameter:
+    p: Parameter = Symbol.__new__(cls, name, **assumptions)
+    for key, value in attributes.items():
+        setattr(p, key, value)
+    return p
+
+
 def FeatureParameter(name: str, **kwargs: Any) -> Parameter:
     """Shorthand for `Parameter(..., trainable=False)`."""
     return Parameter(name, trainable=False, **kwargs)
-- 
2.43.0


From 6c8b8e31206da81a3e981fcce87d5de5f5beb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:11 +0000
Subject: [PATCH 024/135] fix: adjoint of a symbolic scale factor stays
 evaluable

---
 qadence/parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 0ff825c..4d453cf 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -9,7 +9,6 @@ import numpy as np
 import sympy
 from sympy import *
 from sympy import Array, Basic, Expr, Symbol, sympify
-from sympy.physics.quantum.dagger import Dagger
 from sympytorch import SymPyModule as torchSympyModule
 from torch import Tensor, heaviside, no_grad, rand, tensor
 
@@ -20,7 +19,11 @@ __all__ = ["FeatureParameter", "Parameter", "VariationalParameter", "ParamMap",
 
 logger = getLogger(__name__)
 
-dagger_expression = Dagger
+
+def dagger_expression(expr: Basic) -> Basic:
+    """Complex conjugate of an expression of real-valued parameters."""
+    return expr.xreplace({sympy.I: -sympy.I})
+
 
 ParameterJSONSchema = {
     "$schema": "http://json-schema.org/draft-07/schema#",
-- 
2.43.0


From d424f5e375ecc22da12e41428f2c0389c6cde73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:24 +0000
Subject: [PATCH 025/135] fix: decompose evolutions under any product of Pauli
 operators

---
 qadence/decompose.py | 129 +++++++++++++++++++++++++++++++------------
 1 file changed, 93 insertions(+), 36 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index d26d56b..14af86c 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -7,8 +7,8 @@ from typing import Any, List, Tuple, Union
 
 import sympy
 
-from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
+from qadence.blocks import AbstractBlock, AddBlock, CompositeBlock, ScaleBlock
+from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.parameters import Parameter, evaluate
 
 # from qadence.types import TNumber, TParameter
@@ -102,46 +102,103 @@ def lie_trotter_suzuki(
             return (2 * outer + inner + outer * 2) * t_steps
 
 
+def pauli_strings(block: AbstractBlock) -> list[tuple[Any, dict[int, Any]]]:
+    """Expand a block of Pauli operations into a sum of Pauli strings.
+
+    Returns:
+        A list of coefficients with the (X, Y, Z) operators of the string by qubit.
+    """
+    # import here due to circular import issue
+    from qadence.operations import I, N, X, Y, Z
+
+    if isinstance(block, ScaleBlock):
+        return [(block.scale * c, p) for c, p in pauli_strings(block.block)]
+    if isinstance(block, AddBlock):
+        return flatten([pauli_strings(b) for b in block.blocks])
+    if isinstance(block, CompositeBlock):
+        result: list[tuple[Any, dict[int, Any]]] = [(1, {})]
+        for b in block.blocks:
+            # blocks are applied from first to last
+            result = [
+                multiply_pauli_strings(left, right)
+                for right in result
+                for left in pauli_strings(b)
+            ]
+        return result
+    qubit = block.qubit_support[0]
+    if isinstance(block, I):
+        return [(1, {})]
+    if isinstance(block, N):
+        sign = 1 if block.ket == "0" else -1
+        return [(sympy.Rational(1, 2), {}), (sympy.Rational(sign, 2), {qubit: Z})]
+    if isinstance(block, (X, Y, Z)):
+        return [(1, {qubit: type(block)})]
+    raise NotImplementedError(f"{block.name} is not a Pauli operation.")
+
+
+def multiply_pauli_strings(
+    left: tuple[Any, dict[int, Any]], right: tuple[Any, dict[int, Any]]
+) -> tuple[Any, dict[int, Any]]:
+    # import here due to circular import issue
+    from qadence.operations import X, Y, Z
+
+    order = [X, Y, Z]
+    coeff, paulis = left[0] * right[0], dict(right[1])
+    for qubit, op in left[1].items():
+        if qubit not in paulis:
+            paulis[qubit] = op
+        elif paulis[qubit] == op:
+            del paulis[qubit]
+        else:
+            i, j = order.index(op), order.index(paulis[qubit])
+            coeff = coeff * (sympy.I if (j - i) % 3 == 1 else -sympy.I)
+            paulis[qubit] = order[3 - i - j]
+    return coeff, paulis
+
+
 def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) -> list[AbstractBlock]:
     """A simple function to do decompositions of Pauli exponential operators into digital gates."""
 
     # import here due to circular import issue
-    from qadence.operations import CNOT, RZ
+    from qadence.operations import CNOT, PHASE, RZ, X
 
-    blocks = []
+    blocks: list[AbstractBlock] = []
 
     for bl, scale in block_list:
-        # extract Pauli operations and raise an error in case
-        # a non-Pauli operation is found since it cannot be
-        # decomposed
-        n_blocks = len(get_pauli_blocks(bl))
-
-        # ensure that we keep the parameter as trainable
-        fact = 2.0 * parameter * scale
-
-        blist: list[AbstractBlock] = bl if n_blocks >= 2 else [bl]  # type: ignore[assignment]
-        indx = [b.qubit_support[0] for b in blist]
-        ztarget = max(indx)
-
-        cnot_sequence = [CNOT(i, i + 1) for i in range(min(indx), max(indx))]
-        basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
-        rot = [RZ(parameter=Parameter(fact), target=ztarget)]
-        basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
-
-        # NOTE
-        # perform the following operations in sequence to perform the decomposition of a
-        # polynomial Pauli term, for more details, see: https://arxiv.org/abs/1001.3855
-        # - change to Z basis for all the needed qubit operators
-        # - apply a CNOT ladder on the full qubit support where operators are acting
-        # - apply a RZ rotation on the last qubit
-        # - apply the reverse CNOT ladder
-        # - go back to the original basis
-        blocks.extend(
-            flatten(basis_fwd)
-            + cnot_sequence
-            + rot
-            + list(reversed(cnot_sequence))
-            + flatten(basis_bkd)
-        )
+        for coeff, paulis in pauli_strings(bl):
+            # ensure that we keep the parameter as trainable
+            fact = 2.0 * parameter * scale * coeff
+
+            # a term without Pauli operators is a global phase
+            if len(paulis) == 0:
+                phase = PHASE(bl.qubit_support[0], Parameter(-fact / 2))
+                flip = X(bl.qubit_support[0])
+                blocks.extend([phase, flip, phase, flip])
+                continue
+
+            indx = sorted(paulis)
+            blist = [paulis[i](i) for i in indx]
+            ztarget = max(indx)
+
+            cnot_sequence = [CNOT(i, j) for i, j in zip(indx, indx[1:])]
+            basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
+            rot = [RZ(parameter=Parameter(fact), target=ztarget)]
+            basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
+
+            # NOTE
+            # perform the following operations in sequence to perform the decomposition of a
+            # polynomial Pauli term, for more details, see: https://arxiv.org/abs/1001.3855
+            # - change to Z basis for all the needed qubit operators
+            # - apply a CNOT ladder on the qubits where operators are acting
+            # - apply a RZ rotation on the last qubit
+            # - apply the reverse CNOT ladder
+            # - go back to the original basis
+            blocks.extend(
+                flatten(basis_fwd)
+                + cnot_sequence
+                + rot
+                + list(reversed(cnot_sequence))
+                + flatten(basis_bkd)
+            )
 
     return blocks
-- 
2.43.0


From efcd68faf7098931731a0b87456ef0bd4abed24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:24 +0000
Subject: [PATCH 026/135] fix: second half of a symmetric product formula keeps
 the basis changes

---
 qadence/decompose.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index 14af86c..ce99c29 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -91,7 +91,10 @@ def lie_trotter_suzuki(
         if order == Order.ST2:  # Suzuki-Trotter 2nd order
             outer = decompose_pauli_exp(block_list[:-1], Parameter(t_delta / 2.0))
             inner = decompose_pauli_exp([block_list[-1]], Parameter(t_delta))
-            return (outer + inner + list(reversed(outer))) * t_steps
+            outer_reversed = decompose_pauli_exp(
+                list(reversed(block_list[:-1])), Parameter(t_delta / 2.0)
+            )
+            return (outer + inner + outer_reversed) * t_steps
 
         else:  # Suzuki-Trotter 4th order
             p2 = (4 - 4 ** (1 / 3)) ** -1  # minimises the 'ideal' error in the recursive formula
-- 
2.43.0


From a3181e276b3a8cdd5e39731d0b806b69adda8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:53 +0000
Subject: [PATCH 027/135] fix: commutation check of Pauli terms compares the
 terms pairwise

---
 qadence/blocks/utils.py | 47 +++++++----------------------------------
 1 file changed, 8 insertions(+), 39 deletions(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 7e0abcd..97a74c1 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -1,8 +1,8 @@
 from __future__ import annotations
 
 import typing
-from enum import Enum
 from itertools import chain as _flatten
+from itertools import combinations
 from logging import getLogger
 from typing import Generator, List, Type, TypeVar, Union, get_args
 
@@ -347,41 +347,6 @@ def block_is_qubit_hamiltonian(block: AbstractBlock) -> bool:
         return False
 
 
-def _support_primitive_block(
-    block: PrimitiveBlock, support: dict[int, set[str]]
-) -> dict[int, set[str]]:
-    pauli = block.name.value if isinstance(block.name, Enum) else block.name
-    index = block.qubit_support[0]
-    if index in support.keys():
-        support[index].add(pauli)
-    else:
-        support[index] = set(pauli)
-
-    return support
-
-
-def _check_commutation(block: AbstractBlock, support: dict[int, set[str]] | None = None) -> dict:
-    # avoid circular import
-
-    if support is None:
-        support = {}
-
-    if isinstance(block, AddBlock) or isinstance(block, KronBlock):
-        for subblock in block.blocks:
-            support = dict(_check_commutation(subblock, support=support))
-
-    elif isinstance(block, ScaleBlock):
-        support = dict(_check_commutation(block.block, support=support))
-
-    elif isinstance(block, PrimitiveBlock):
-        support = dict(_support_primitive_block(block, support))
-
-    else:
-        raise TypeError("Original block was not a Pauli-based QubitHamiltonian!")
-
-    return support
-
-
 def block_is_commuting_hamiltonian(block: AbstractBlock) -> bool:
     """Check whether a Pauli block is composed by commuting set of operators.
 
@@ -392,10 +357,14 @@ def block_is_commuting_hamiltonian(block: AbstractBlock) -> bool:
         bool: flag which tells whether all the elements in the
             Pauli block are commuting or not
     """
+    # avoid circular import
+    from qadence.decompose import pauli_strings
+
     assert block_is_qubit_hamiltonian(block), "Only working for Pauli blocks"
-    support = _check_commutation(block)
-    for v in support.values():
-        if len(v) > 1:
+    strings = [paulis for _, paulis in pauli_strings(block)]
+    for p1, p2 in combinations(strings, 2):
+        # Pauli strings commute if they differ on an even number of common qubits
+        if sum(p1[q] != p2[q] for q in p1.keys() & p2.keys()) % 2:
             return False
     return True
 
-- 
2.43.0


From 890f9a14bce6fe39553955e85e5fc4bb9aa5f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:53 +0000
Subject: [PATCH 028/135] fix: honour the requested product formula for
 non-commuting generators

---
 qadence/operations/ham_evo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 5445571..0af1863 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -246,10 +246,9 @@ class HamEvo(TimeEvolutionBlock):
         ), "Only a generator represented as a block can be decomposed"
 
         if block_is_qubit_hamiltonian(self.generator):
-            try:
-                block_is_commuting_hamiltonian(self.generator)
+            if block_is_commuting_hamiltonian(self.generator):
                 approximation = LTSOrder.BASIC  # use the simpler approach if the H is commuting
-            except TypeError:
+            else:
                 logger.warning(
                     """Non-commuting terms in the Pauli operator.
                     The Suzuki-Trotter approximation is applied."""
-- 
2.43.0


From 560b39aa9b0407ec9793087f917fb4ff8c5244d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:15 +0000
Subject: [PATCH 029/135] fix: relabelling qubits relabels generators and
 controls

---
 qadence/transpile/invert.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 5b49f04..950eb79 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -22,13 +22,22 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
     from qadence.blocks import CompositeBlock, ControlBlock, ParametricControlBlock, ScaleBlock
     from qadence.blocks.utils import _construct
 
+    def _update_generator(block: AbstractBlock) -> None:
+        generator = vars(block).get("generator")
+        if isinstance(generator, AbstractBlock):
+            block.generator = reassign(generator, qubit_map)
+
     def _block_with_updated_support(block: AbstractBlock) -> AbstractBlock:
         if isinstance(block, ControlBlock) or isinstance(block, ParametricControlBlock):
             old_qs = block.qubit_support
             new_control_block = deepcopy(block)
             new_control_block._qubit_support = tuple(qubit_map[i] for i in old_qs)
+            new_control_block.control = tuple(qubit_map[i] for i in block.control)
             (subblock,) = block.blocks
             new_control_block.blocks = (reassign(subblock, qubit_map),)  # type: ignore [assignment]
+            if isinstance(new_control_block, ControlBlock):
+                new_control_block.target = new_control_block.blocks[0].qubit_support
+            _update_generator(new_control_block)
             return new_control_block
         elif isinstance(block, CompositeBlock):
             subblocks = tuple(_block_with_updated_support(b) for b in block.blocks)
@@ -43,6 +52,7 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
             blk = deepcopy(block)  # type: ignore [assignment]
             qs = tuple(qubit_map[i] for i in block.qubit_support)
             blk._qubit_support = qs  # type: ignore[attr-defined]
+            _update_generator(blk)
             return blk
 
     return _block_with_updated_support(block)
-- 
2.43.0


From acccb7762e2e7cb84dab4dd368db88ccc8444151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:15 +0000
Subject: [PATCH 030/135] fix: filling idle qubits does not remove the tags of
 its input

---
 qadence/transpile/block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 26fce48..0d65d25 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from copy import deepcopy
+from copy import copy, deepcopy
 from logging import getLogger
 from functools import singledispatch
 from typing import Callable, Iterable, Type
@@ -293,6 +293,7 @@ def _(block: PrimitiveBlock, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)
     block.tag = None
     bs = [block] + [I(i) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
@@ -306,6 +307,7 @@ def _(block: SWAP, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)
     block.tag = None
     bs = [block] + [chain(I(i), I(i)) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
-- 
2.43.0


From 338a14591ab9cb5ab090f7d9ce2c63264326196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:15 +0000
Subject: [PATCH 031/135] fix: circuit transformations keep the register

---
 qadence/transpile/circuit.py    | 2 +-
 qadence/transpile/digitalize.py | 2 +-
 qadence/transpile/flatten.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/transpile/circuit.py b/qadence/transpile/circuit.py
index ee1829c..22df840 100644
--- a/qadence/transpile/circuit.py
+++ b/qadence/transpile/circuit.py
@@ -9,5 +9,5 @@ def fill_identities(circ: QuantumCircuit) -> QuantumCircuit:
     empty_wires = set(range(circ.n_qubits)) - set(circ.block.qubit_support)
     if len(empty_wires) > 0:
         ids = chain(I(i) for i in empty_wires)
-        return QuantumCircuit(circ.n_qubits, chain(circ.block, ids))
+        return QuantumCircuit(circ.register, chain(circ.block, ids))
     return circ
diff --git a/qadence/transpile/digitalize.py b/qadence/transpile/digitalize.py
index 12eed3e..e87f667 100644
--- a/qadence/transpile/digitalize.py
+++ b/qadence/transpile/digitalize.py
@@ -41,4 +41,4 @@ def _(block: AbstractBlock, approximation: LTSOrder = LTSOrder.BASIC) -> Abstrac
 
 @digitalize.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, approximation: LTSOrder = LTSOrder.BASIC) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, digitalize(circuit.block, approximation))
+    return QuantumCircuit(circuit.register, digitalize(circuit.block, approximation))
diff --git a/qadence/transpile/flatten.py b/qadence/transpile/flatten.py
index 863f845..5acaf6e 100644
--- a/qadence/transpile/flatten.py
+++ b/qadence/transpile/flatten.py
@@ -105,4 +105,4 @@ def _(block: AbstractBlock, types: list = [ChainBlock, KronBlock, AddBlock]) ->
 
 @flatten.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, types: list = [ChainBlock, KronBlock, AddBlock]) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, flatten(circuit.block, types=types))
+    return QuantumCircuit(circuit.register, flatten(circuit.block, types=types))
-- 
2.43.0


From a069a080805a1bebcb6144ab5d4ed817164b68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:03 +0000
Subject: [PATCH 032/135] fix: fill idle qubits of tensor products with gapped
 blocks

---
 qadence/transpile/block.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 0d65d25..6fb8914 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -335,22 +335,31 @@ def _fill_kron(block: KronBlock, start: int, stop: int) -> list[AbstractBlock]:
 
     def append_ids(block: AbstractBlock, total: int) -> AbstractBlock:
         qs = block.qubit_support
-        ids = [I(i) for i in range(min(qs), max(qs)) for _ in range(length(block), total)]
+        ids = [I(i) for i in sorted(qs)[:-1] for _ in range(length(block), total)]
         bs = [block] + ids
         return chain(*bs)
 
     def id_chain(i: int, max_len: int) -> AbstractBlock:
         return chain(I(i) for _ in range(max_len))
 
+    def fill(b: AbstractBlock) -> AbstractBlock:
+        start, stop = min(b.qubit_support), max(b.qubit_support)
+        # wires crossed by `b` can be occupied by other subblocks
+        others = set(block.qubit_support) - set(b.qubit_support)
+        if others.intersection(range(start, stop + 1)):
+            return b
+        return fill_identities(b, start, stop)
+
     # fill subblocks with identities
-    bs = [fill_identities(b, min(b.qubit_support), max(b.qubit_support)) for b in block]
+    bs = [fill(b) for b in block]
+    filled = {i for b in bs for i in b.qubit_support}
 
     # make all subblocks equally "long" horizontally
     max_len = length(bs)
     bs = [append_ids(b, max_len) for b in bs]
 
     # fill potentially completely empty wires
-    bs += [id_chain(i, max_len) for i in (set(range(start, stop + 1)) - set(block.qubit_support))]
+    bs += [id_chain(i, max_len) for i in (set(range(start, stop + 1)) - filled)]
 
     return sorted(bs, key=lambda x: x.qubit_support)
 
-- 
2.43.0


From 55819b5bae3e20b1ae7bf013b09b0d34b2c068ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:12 +0000
Subject: [PATCH 033/135] fix: iterating over a composite block does not share
 state between loops

---
 qadence/blocks/composite.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..9c53c2c 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import Tuple
+from typing import Iterator, Tuple
 
 import torch
 from rich.columns import Columns
@@ -55,12 +55,8 @@ class CompositeBlock(AbstractBlock):
     def depth(self) -> int:
         return 1 + max([b.depth for b in self.blocks])
 
-    def __iter__(self) -> CompositeBlock:
-        self._iterator = iter(self.blocks)
-        return self
-
-    def __next__(self) -> AbstractBlock:
-        return next(self._iterator)
+    def __iter__(self) -> Iterator:
+        return iter(self.blocks)
 
     def __getitem__(self, item: int) -> AbstractBlock:
         return self.blocks[item]
-- 
2.43.0


From f1a16fbcad4f2896b292552d19959ad65598596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:12 +0000
Subject: [PATCH 034/135] fix: equality of sums and tensor products compares
 every term once

---
 qadence/blocks/composite.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 9c53c2c..e25c0eb 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -145,6 +145,19 @@ class CompositeBlock(AbstractBlock):
         return hash(self._to_json())
 
 
+def _same_blocks(blocks: Tuple[AbstractBlock, ...], others: Tuple[AbstractBlock, ...]) -> bool:
+    """Check that two collections hold equal blocks, in any order."""
+    remaining = list(others)
+    for block in blocks:
+        for i, other in enumerate(remaining):
+            if block == other:
+                del remaining[i]
+                break
+        else:
+            return False
+    return len(remaining) == 0
+
+
 class PutBlock(CompositeBlock):
     name = "put"
 
@@ -240,7 +253,7 @@ class KronBlock(CompositeBlock):
         if isinstance(other, KronBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
 
 
@@ -265,5 +278,5 @@ class AddBlock(CompositeBlock):
         if isinstance(other, AddBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
-- 
2.43.0


From c9b12520f8ea686a884c130df19bfed2806b44f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:12 +0000
Subject: [PATCH 035/135] fix: repeating a parametric gate keeps its parameter

---
 qadence/blocks/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 3746c8f..d6837c9 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -179,7 +179,7 @@ class ParametricBlock(PrimitiveBlock):
             B = type(self)
             (start,) = self.qubit_support
             (param,) = self.parameters.expressions()
-            return repeat(B, range(start, start + other), stringify(param))
+            return repeat(B, range(start, start + other), param)
         else:
             raise ValueError(f"PrimitiveBlocks cannot use ^ on type {type(other)}")
 
-- 
2.43.0


From 24913ca30c6af51cecba0c7bc6cbacd6980b917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:12 +0000
Subject: [PATCH 036/135] fix: reject negative powers of blocks instead of
 returning the identity

---
 qadence/blocks/abstract.py  | 2 ++
 qadence/blocks/primitive.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qadence/blocks/abstract.py b/qadence/blocks/abstract.py
index 85c2e99..cad6acf 100644
--- a/qadence/blocks/abstract.py
+++ b/qadence/blocks/abstract.py
@@ -184,6 +184,8 @@ class AbstractBlock(ABC):
     def __pow__(self, power: int) -> AbstractBlock:
         from qadence.blocks.utils import chain
 
+        if power < 0:
+            raise ValueError("Negative powers of blocks are not supported.")
         return chain(self for _ in range(power))
 
     def __neg__(self) -> AbstractBlock:
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index d6837c9..e0b8885 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -247,6 +247,8 @@ class ScaleBlock(ParametricBlock):
     def __pow__(self, power: int) -> AbstractBlock:
         from qadence.blocks.utils import chain
 
+        if power < 0:
+            raise ValueError("Negative powers of blocks are not supported.")
         expr = self.parameters.parameter
         return ScaleBlock(chain(self.block for _ in range(power)), expr**power)
 
-- 
2.43.0


From 701b64d6ae836f35dd80a86b142b8ce160f640f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:11 +0000
Subject: [PATCH 037/135] fix: blocks with different parameters, generators or
 matrices do not compare equal

---
 qadence/blocks/matrix.py      |  8 ++++++++
 qadence/blocks/primitive.py   | 25 +++++++++++++++++++------
 qadence/operations/ham_evo.py | 20 ++++++++++++++++++++
 qadence/parameters.py         | 13 +++++++++++++
 4 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index cb82ad9..e6d532b 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -90,6 +90,14 @@ class MatrixBlock(PrimitiveBlock):
             raise ValueError("Provided matrix does not match the qubit_support length.")
         super().__init__(qubit_support, noise)
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and torch.equal(
+            self.matrix, other.matrix  # type: ignore[attr-defined]
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
     @cached_property
     def eigenvalues_generator(self) -> torch.Tensor:
         return torch.log(self.eigenvalues) * 1j
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index e0b8885..9f8176a 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -16,6 +16,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     dagger_expression,
+    equal_expressions,
     evaluate,
     extract_original_param_entry,
     stringify,
@@ -187,8 +188,13 @@ class ParametricBlock(PrimitiveBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.parameters.parameter.equals(
-                other.parameters.parameter
+            return (
+                self.qubit_support == other.qubit_support
+                and list(self.parameters.names()) == list(other.parameters.names())
+                and all(
+                    equal_expressions(p1, p2)
+                    for p1, p2 in zip(self.parameters.expressions(), other.parameters.expressions())
+                )
             )
         return False
 
@@ -297,10 +303,7 @@ class ScaleBlock(ParametricBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         elif isinstance(other, ScaleBlock):
-            return (
-                self.block == other.block
-                and self.parameters.parameter == other.parameters.parameter
-            )
+            return self.block == other.block and equal_expressions(self.scale, other.scale)
         return False
 
     def __contains__(self, other: object) -> bool:
@@ -546,3 +549,13 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            super().__eq__(other)
+            and self.ket == other.ket  # type: ignore[attr-defined]
+            and self.bra == other.bra  # type: ignore[attr-defined]
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 0af1863..6edf092 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -22,6 +22,7 @@ from qadence.decompose import lie_trotter_suzuki
 from qadence.parameters import (
     Parameter,
     ParamMap,
+    equal_expressions,
     evaluate,
     extract_original_param_entry,
 )
@@ -168,6 +169,25 @@ class HamEvo(TimeEvolutionBlock):
                 raise ValueError("Parametric operators are not supported")
         self.noise_operators = noise_operators
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, AbstractBlock):
+            raise TypeError(f"Cant compare {type(self)} to {type(other)}")
+        if not isinstance(other, HamEvo) or type(self.generator) is not type(other.generator):
+            return False
+        if isinstance(self.generator, Tensor):
+            same_generator = torch.equal(self.generator, other.generator)
+        else:
+            same_generator = self.generator == other.generator
+        return (
+            same_generator
+            and self.qubit_support == other.qubit_support
+            and equal_expressions(self.parameters.parameter, other.parameters.parameter)
+            and self.duration == other.duration
+        )
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
     @classmethod
     def num_parameters(cls) -> int:
         return 2
diff --git a/qadence/parameters.py b/qadence/parameters.py
index 4d453cf..a9a7f42 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -319,6 +319,19 @@ def stringify(expr: Basic) -> str:
         return name
 
 
+def equal_expressions(lhs: Basic, rhs: Basic) -> bool:
+    """Check whether two parameter expressions are the same function of the same parameters.
+
+    `Parameter.__eq__` is also true for any expression which contains the parameter.
+    """
+    if isinstance(lhs, Array) or isinstance(rhs, Array):
+        return type(lhs) is type(rhs) and bool(lhs == rhs)
+    if isinstance(lhs, Parameter) and isinstance(rhs, Parameter):
+        return lhs == rhs
+    lhs, rhs = (e.xreplace({p: Symbol(p.name) for p in e.free_symbols}) for e in (lhs, rhs))
+    return bool((lhs - rhs).equals(0))
+
+
 class ParamMap:
     """Connects UUIDs of parameters to their expressions and names.
 
-- 
2.43.0


From d8bb9aa071211de906d4b8318e969056c1cc0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:47 +0000
Subject: [PATCH 038/135] fix: horqrux expectation of circuits without
 parameters

---
 qadence/backends/horqrux/backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/horqrux/backend.py b/qadence/backends/horqrux/backend.py
index 5e32152..605c7b0 100644
--- a/qadence/backends/horqrux/backend.py
+++ b/qadence/backends/horqrux/backend.py
@@ -139,8 +139,8 @@ class Backend(BackendInterface):
             raise NotImplementedError("The Horqrux backend does not support separated parameters.")
         else:
             merged_params = param_values
-            batch_size = max([arr.size for arr in param_values.values()])  # type: ignore[union-attr]
-        n_obs = len(observable)
+            batch_size = max([arr.size for arr in param_values.values()], default=1)  # type: ignore[union-attr]
+        n_obs = len(observables)
 
         def _expectation(params: ParamDictType) -> ArrayLike:
             param_circuits = params["circuit"] if "circuit" in params else params
-- 
2.43.0


From 6b0b40bbdfd014ce68d692181a6832414f6aa706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:50 +0000
Subject: [PATCH 039/135] fix: parameter shift rule of the JAX engine uses the
 spectral gaps of each gate

---
 .../engines/jax/differentiable_expectation.py | 55 ++++++++++++-------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/qadence/engines/jax/differentiable_expectation.py b/qadence/engines/jax/differentiable_expectation.py
index 4549d71..75fc9e1 100644
--- a/qadence/engines/jax/differentiable_expectation.py
+++ b/qadence/engines/jax/differentiable_expectation.py
@@ -4,13 +4,11 @@ from dataclasses import dataclass
 from typing import Any, Tuple
 
 import jax.numpy as jnp
+import numpy as np
 from jax import Array, custom_vjp, vmap
 
 from qadence.backend import Backend as QuantumBackend
 from qadence.backend import ConvertedCircuit, ConvertedObservable
-from qadence.backends.jax_utils import (
-    tensor_to_jnp,
-)
 from qadence.blocks.utils import uuid_to_eigen
 from qadence.measurements import Measurements
 from qadence.mitigations import Mitigations
@@ -18,10 +16,19 @@ from qadence.noise import NoiseHandler
 from qadence.types import Endianness, Engine, ParamDictType
 
 
-def compute_single_gap(eigen_vals: Array, default_val: float = 2.0) -> Array:
-    eigen_vals = eigen_vals.reshape(1, 2)
-    gaps = jnp.abs(jnp.tril(eigen_vals.T - eigen_vals))
-    return jnp.unique(jnp.where(gaps > 0.0, gaps, default_val), size=1)
+def compute_gaps_and_shifts(
+    eigen_vals: np.ndarray, shift_factor: float = 1.0
+) -> tuple[np.ndarray, np.ndarray]:
+    """The unique spectral gaps of a generator and as many parameter shifts."""
+    eigen_vals = eigen_vals.reshape(1, -1)
+    gaps = np.unique(np.round(np.abs(eigen_vals.T - eigen_vals), 4))
+    gaps = gaps[gaps > 0.0]
+    if len(gaps) == 1:
+        shifts = np.pi / gaps
+    else:
+        shifts = np.linspace(np.pi / 2 - np.pi / 4, np.pi / 2 + np.pi / 5, len(gaps))
+        shifts = 0.5 * shift_factor * shifts
+    return gaps, shifts
 
 
 @dataclass
@@ -51,8 +58,11 @@ class DifferentiableExpectation:
         def expectation(state: Array, values: ParamDictType, psr_params: ParamDictType) -> Array:
             return expectation_fn(state, values, psr_params)
 
-        uuid_to_eigs = {
-            k: tensor_to_jnp(v[0]) for k, v in uuid_to_eigen(self.circuit.abstract.block).items()
+        # evolutions are generated by H and not H/2, hence their spectrum is rescaled
+        uuid_to_eigs = uuid_to_eigen(self.circuit.abstract.block, rescale_eigenvals_timeevo=True)
+        psr_rules = {
+            k: compute_gaps_and_shifts(v[0].detach().numpy(), v[1])
+            for k, v in uuid_to_eigs.items()
         }
         self.psr_params = {
             k: self.param_values[k] for k in uuid_to_eigs.keys()
@@ -68,25 +78,28 @@ class DifferentiableExpectation:
         def expectation_bwd(res: Tuple[Array, ParamDictType, ParamDictType], tangent: Array) -> Any:
             state, values, psr_params = res
             grads = {}
-            # FIXME Hardcoding the single spectral_gap to 2.
-            spectral_gap = 2.0
-            shift = jnp.pi / 2
 
-            def shift_circ(param_name: str, values: dict) -> Array:
+            def shift_circ(param_name: str, values: dict, shifts: np.ndarray) -> Array:
                 shifted_values = values.copy()
-                shiftvals = jnp.array(
-                    [shifted_values[param_name] + shift, shifted_values[param_name] - shift]
-                )
+                val = shifted_values[param_name]
+                shiftvals = jnp.array([val + s for s in shifts] + [val - s for s in shifts])
 
                 def _expectation(val: Array) -> Array:
                     shifted_values[param_name] = val
                     return expectation(state, shifted_values, psr_params)
 
-                return vmap(_expectation, in_axes=(0,))(shiftvals)
-
-            for param_name, _ in psr_params.items():
-                f_plus, f_min = shift_circ(param_name, values)
-                grad = spectral_gap * (f_plus - f_min) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+                f_plus, f_min = jnp.split(vmap(_expectation, in_axes=(0,))(shiftvals), 2)
+                return f_plus - f_min
+
+            for param_name, param_value in psr_params.items():
+                gaps, shifts = psr_rules[param_name]
+                if len(gaps) == 0:
+                    grads[param_name] = jnp.zeros_like(param_value)
+                    continue
+                diffs = shift_circ(param_name, values, shifts)
+                M = 4.0 * jnp.sin(jnp.outer(shifts, gaps) / 2.0)
+                R = jnp.linalg.solve(M, diffs.reshape(len(gaps), -1))
+                grad = (gaps @ R).reshape(tangent.shape)
                 grads[param_name] = jnp.sum(tangent * grad, axis=1) if n_obs > 1 else tangent * grad
             return None, None, grads
 
-- 
2.43.0


From fea82683978289deabdcc46a8613687c309cadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:57 +0000
Subject: [PATCH 040/135] fix: negative detunings on the pulser backend

---
 qadence/backends/pulser/waveforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/backends/pulser/waveforms.py b/qadence/backends/pulser/waveforms.py
index aac0a65..30bf8fe 100644
--- a/qadence/backends/pulser/waveforms.py
+++ b/qadence/backends/pulser/waveforms.py
@@ -70,9 +70,11 @@ class SquareWaveform(ConstantWaveform):
             duration_steps * np.round(duration / duration_steps),
             min_duration,
         )
+        # detunings can be negative, in which case `max_amp` is the lower bound
         amplitude = min(
             amp_steps * np.ceil(max_amp / (amp_steps + EPS) * 1e3),
             max_amp,
+            key=abs,
         )
 
         return cls(duration, amplitude)
-- 
2.43.0


From 96abe61b1ca1ee90cc72d684a20cc828127dddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:57 +0000
Subject: [PATCH 041/135] fix: sign of the phase of analog rotations on the
 pulser backend

---
 qadence/backends/pulser/pulses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 976ee8c..45a8b32 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -235,7 +235,8 @@ def analog_rot_pulse(
         min_duration=channel.min_duration,
     )
 
-    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=abs(phase))
+    # Pulser orders the basis states oppositely, which reverses the sign of the phase
+    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=-1.0 * phase)
 
 
 def entangle_pulse(
-- 
2.43.0


From 1deec2b168fba20c6b1bc6abcf27ae99910ba39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:23 +0000
Subject: [PATCH 042/135] fix: analog tensor products keep nested rotations and
 pure waits

---
 qadence/analog/parse_analog.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index d4b6403..0d8df3a 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from typing import Iterator
+
 from qadence.analog.hamiltonian_terms import (
     rydberg_drive_hamiltonian,
     rydberg_interaction_hamiltonian,
@@ -8,6 +10,8 @@ from qadence.analog.hamiltonian_terms import (
 from qadence.blocks import chain
 from qadence.blocks.abstract import AbstractBlock
 from qadence.blocks.analog import (
+    AnalogBlock,
+    AnalogComposite,
     AnalogKron,
     ConstantAnalogRotation,
     InteractionBlock,
@@ -82,6 +86,15 @@ def _build_rot_ham_evo(
     return HamEvo(h_block, duration / 1000)
 
 
+def _kron_members(block: AnalogComposite) -> Iterator[AnalogBlock]:
+    """Members of an `AnalogKron`, which can be nested, e.g. in `a @ b @ c`."""
+    for b in block.blocks:
+        if isinstance(b, AnalogComposite):
+            yield from _kron_members(b)
+        else:
+            yield b
+
+
 def _analog_to_hevo(
     block: AbstractBlock, register: Register, h_int: AbstractBlock, h_addr: AbstractBlock | None
 ) -> AbstractBlock:
@@ -109,12 +122,17 @@ def _analog_to_hevo(
         # the same duration, and clean this code accordingly.
         # https://github.com/pasqal-io/qadence/issues/226
         ops = []
-        for block in block.blocks:
+        duration = block.duration
+        members = list(_kron_members(block))
+        for block in members:
             if isinstance(block, ConstantAnalogRotation):
                 h_drive = rydberg_drive_hamiltonian(block, register)
                 ops.append(_build_rot_ham_evo(block, h_int, h_addr, h_drive))
         if len(ops) == 0:
-            ops.append(HamEvo(h_background, duration / 1000))  # type: ignore [arg-type]
+            h_background = h_int
+            if h_addr is not None and any(b.add_pattern for b in members):  # type: ignore
+                h_background += h_addr
+            ops.append(HamEvo(h_background, duration / 1000))
         return chain(*ops)
 
     return block
-- 
2.43.0


From 9df2759dd797c1acd51eafa527b99b44a6a1083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:03 +0000
Subject: [PATCH 043/135] fix: analog rotations with feature parameters on the
 pulser backend

---
 qadence/backends/pulser/pulses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 45a8b32..57d129a 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -158,8 +158,10 @@ def add_pulses(
         p = evaluate(phase) if phase.is_number else sequence.declare_variable(p_uuid)
         d = evaluate(detuning) if detuning.is_number else sequence.declare_variable(d_uuid)
 
-        # calculate generator eigenvalues
-        block.eigenvalues_generator = block.compute_eigenvalues_generator(block, qc_register)
+        # calculate generator eigenvalues, which are unknown if they depend on feature parameters
+        gen_symbols = omega.free_symbols | phase.free_symbols | detuning.free_symbols
+        if all(s.trainable for s in gen_symbols):
+            block.eigenvalues_generator = block.compute_eigenvalues_generator(block, qc_register)
 
         if block.qubit_support.is_global:
             pulse = analog_rot_pulse(a, w, p, d, global_channel, config)
-- 
2.43.0


From d0b1511971a0750a52aa7b2d6a2fb8abcdd66a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:02 +0000
Subject: [PATCH 044/135] fix: horqrux runs and samples every entry of a
 parameter batch

---
 qadence/backends/horqrux/backend.py | 44 +++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/qadence/backends/horqrux/backend.py b/qadence/backends/horqrux/backend.py
index 605c7b0..6dd017f 100644
--- a/qadence/backends/horqrux/backend.py
+++ b/qadence/backends/horqrux/backend.py
@@ -91,9 +91,16 @@ class Backend(BackendInterface):
             unhorqify_state: Flatten the resulting state.
 
         Returns:
-            A jax.Array of shape [2,2,...] if unhorqify=True else shape = [1, 2**n_qubits]
+            A jax.Array of shape [2,2,...] if unhorqify=True else shape = [1, 2**n_qubits].
+            For batched parameter values, the batch is the leading dimension.
         """
         n_qubits = circuit.abstract.n_qubits
+        if max([jnp.size(arr) for arr in param_values.values()], default=1) > 1:
+            return jax.vmap(
+                lambda params: self.run(
+                    circuit, params, state, endianness, horqify_state, unhorqify_state
+                )
+            )(uniform_batchsize(param_values))
         if state is None:
             state = zero_state(n_qubits)
         else:
@@ -204,29 +211,30 @@ class Backend(BackendInterface):
             param_values=param_values,
             state=state,
             horqify_state=True,
-            unhorqify_state=False,
+            unhorqify_state=True,
         )
-        probs = jnp.abs(jnp.float_power(wf, 2.0)).ravel()
-        key = jax.random.PRNGKey(0)
-        # JAX handles pseudo random number generation by tracking an explicit state via a random key
-        # For more details, see https://jax.readthedocs.io/en/latest/random-numbers.html
-        samples = jax.vmap(
-            lambda subkey: jax.random.choice(
-                key=subkey, a=jnp.arange(0, 2**circuit.abstract.n_qubits), p=probs
-            )
-        )(jax.random.split(key, n_shots))
-
-        return [
-            Counter(
+        n_qubits = circuit.abstract.n_qubits
+        batch_probs = jnp.abs(jnp.float_power(wf, 2.0)).reshape((-1, 2**n_qubits))
+
+        def _sample(seed: int, probs: ArrayLike) -> Counter:
+            # JAX handles pseudo random number generation by tracking an explicit state via a
+            # random key. For more details, see
+            # https://jax.readthedocs.io/en/latest/random-numbers.html
+            key = jax.random.PRNGKey(seed)
+            samples = jax.vmap(
+                lambda subkey: jax.random.choice(
+                    key=subkey, a=jnp.arange(0, 2**n_qubits), p=probs
+                )
+            )(jax.random.split(key, n_shots))
+            return Counter(
                 {
-                    int_to_basis(
-                        k=k, n_qubits=circuit.abstract.n_qubits, endianness=endianness
-                    ): count.item()
+                    int_to_basis(k=k, n_qubits=n_qubits, endianness=endianness): count.item()
                     for k, count in enumerate(jnp.bincount(samples))
                     if count > 0
                 }
             )
-        ]
+
+        return [_sample(i, probs) for i, probs in enumerate(batch_probs)]
 
     def assign_parameters(self, circuit: ConvertedCircuit, param_values: ParamDictType) -> Any:
         raise NotImplementedError
-- 
2.43.0


From 001f7745a622d130727384463c3fa0e4dfbd8df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:56 +0000
Subject: [PATCH 045/135] fix: registers do not rescale the graph they are
 built from

---
 qadence/register.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..3f0efca 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -70,7 +70,9 @@ class Register:
 
         self.device_specs = device_specs
 
-        self.graph = support if isinstance(support, nx.Graph) else alltoall_graph(support)
+        self.graph = (
+            deepcopy(support) if isinstance(support, nx.Graph) else alltoall_graph(support)
+        )
 
         if spacing is not None and self.min_distance != 0.0:
             _scale_node_positions(self.graph, self.min_distance, spacing)
-- 
2.43.0


From 76d1205eb744a2285d5245ddf05927ecbfbe2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:56 +0000
Subject: [PATCH 046/135] fix: deserialised registers keep their spacing

---
 qadence/register.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/register.py b/qadence/register.py
index 3f0efca..556702e 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -348,6 +348,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From 899b6ecbb437c92d87f3d452096ad83a49044f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:21 +0000
Subject: [PATCH 047/135] fix: register equality compares edges and device

---
 qadence/register.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/register.py b/qadence/register.py
index 556702e..708baf9 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -357,8 +357,8 @@ class Register:
             return False
         return (
             DeepDiff(self.coords, other.coords, ignore_order=False) == {}
-            and nx.is_isomorphic(self.graph, other.graph)
-            and self.n_qubits == other.n_qubits
+            and {frozenset(edge) for edge in self.edges} == {frozenset(edge) for edge in other.edges}
+            and self.device_specs == other.device_specs
         )
 
 
-- 
2.43.0


From 52170a4a75d6bbee04c9afa895dde1b985bb649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:21 +0000
Subject: [PATCH 048/135] fix: deserialising a device leaves its dictionary
 unchanged

---
 qadence/analog/device.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
-- 
2.43.0


From 40f5830d03ad9fafcc0721e6e5a1e2c41ded30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:10 +0000
Subject: [PATCH 049/135] fix: deserialised blocks keep the tags of their
 children

---
 qadence/blocks/composite.py | 12 ++----------
 qadence/blocks/primitive.py | 10 ++--------
 qadence/circuit.py          | 11 ++---------
 3 files changed, 6 insertions(+), 27 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index e25c0eb..524bd6b 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -120,18 +120,10 @@ class CompositeBlock(AbstractBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> CompositeBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
         from qadence.blocks.utils import _construct, tag
+        from qadence.serialization import deserialize
 
-        blocks = [
-            (
-                getattr(operations, b["type"])._from_dict(b)
-                if hasattr(operations, b["type"])
-                else getattr(qadenceblocks, b["type"])._from_dict(b)
-            )
-            for b in d["blocks"]
-        ]
+        blocks = [deserialize(b) for b in d["blocks"]]
         block = _construct(cls, blocks)  # type: ignore[arg-type]
         if d["tag"] is not None:
             tag(block, d["tag"])
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 9f8176a..5eff54b 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -338,16 +338,10 @@ class ScaleBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ScaleBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
+        from qadence.serialization import deserialize
 
         expr = ParamMap._from_dict(d["parameters"])
-        block: AbstractBlock
-        if hasattr(operations, d["block"]["type"]):
-            block = getattr(operations, d["block"]["type"])._from_dict(d["block"])
-
-        else:
-            block = getattr(qadenceblocks, d["block"]["type"])._from_dict(d["block"])
+        block: AbstractBlock = deserialize(d["block"])  # type: ignore[assignment]
         return cls(block, expr)  # type: ignore[arg-type]
 
 
diff --git a/qadence/circuit.py b/qadence/circuit.py
index 5d97849..ed67b90 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -176,18 +176,11 @@ class QuantumCircuit:
 
     @classmethod
     def _from_dict(cls, d: dict) -> QuantumCircuit:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-
-        RootBlock = (
-            getattr(operations, d["block"]["type"])
-            if hasattr(operations, d["block"]["type"])
-            else getattr(qadenceblocks, d["block"]["type"])
-        )
+        from qadence.serialization import deserialize
 
         return QuantumCircuit(
             Register._from_dict(d["register"]),
-            RootBlock._from_dict(d["block"]),
+            deserialize(d["block"]),  # type: ignore[arg-type]
         )
 
     @classmethod
-- 
2.43.0


From b5a5505473d7c7e0c6a1922947c31feadf94b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:10 +0000
Subject: [PATCH 050/135] fix: deserialise PHASE and U gates

---
 qadence/operations/parametric.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 5d5988e..93452b7 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -37,10 +37,12 @@ class PHASE(ParametricBlock):
     def __init__(
         self,
         target: int,
-        parameter: Parameter | TNumber | sympy.Expr | str,
+        parameter: Parameter | TNumber | sympy.Expr | str | ParamMap,
         noise: NoiseHandler | None = None,
     ) -> None:
-        self.parameters = ParamMap(parameter=parameter)
+        self.parameters = (
+            parameter if isinstance(parameter, ParamMap) else ParamMap(parameter=parameter)
+        )
         self.generator = I(target) - Z(target)
         super().__init__((target,), noise=noise)
 
@@ -191,6 +193,19 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> U:
+        params = ParamMap._from_dict(d["parameters"])
+        block = cls(
+            d["qubit_support"][0],
+            params.phi,
+            params.theta,
+            params.omega,
+            NoiseHandler._from_dict(d.get("noise")),
+        )
+        block.parameters = params
+        return block
+
     def dagger(self) -> U:
         phi, theta, omega = (
             -extract_original_param_entry(param) for param in self.parameters.expressions()
-- 
2.43.0


From c40ac4ba3597fd5b0421bffab8305d6271a3e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:33 +0000
Subject: [PATCH 051/135] fix: deserialise controlled gates

---
 qadence/blocks/primitive.py       | 29 ++++++++++++++++++-----------
 qadence/operations/control_ops.py |  6 ++++++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 5eff54b..402dafa 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -367,6 +367,8 @@ class ControlBlock(PrimitiveBlock):
     name = "Control"
     control: tuple[int, ...]
     target: tuple[int, ...]
+    single_control: bool = False
+    """Whether the constructor takes a single qubit as control."""
 
     def __init__(
         self,
@@ -416,9 +418,13 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        target = tuple(d["blocks"][0]["qubit_support"])
+        control = tuple(d["qubit_support"])[: -len(target)]
+        return cls(
+            control[0] if cls.single_control else control,  # type: ignore[arg-type]
+            *target,  # type: ignore[arg-type]
+            NoiseHandler._from_dict(d.get("noise")),
+        )
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -432,6 +438,8 @@ class ParametricControlBlock(ParametricBlock):
     name = "ParameterizedControl"
     control: tuple[int, ...] = ()
     blocks: tuple[ParametricBlock, ...]
+    single_control: bool = False
+    """Whether the constructor takes a single qubit as control."""
 
     def __init__(
         self,
@@ -473,14 +481,13 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
-        return block
+        *control, target = d["qubit_support"]
+        return cls(
+            control[0] if cls.single_control else tuple(control),  # type: ignore[arg-type]
+            target,
+            ParamMap._from_dict(d["blocks"][0]["parameters"]),  # type: ignore[arg-type]
+            NoiseHandler._from_dict(d.get("noise")),  # type: ignore[call-arg]
+        )
 
     @property
     def _block_title(self) -> str:
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index f4cc941..6320c5c 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -35,6 +35,7 @@ class CNOT(ControlBlock):
     """The CNot, or CX, gate."""
 
     name = OpName.CNOT
+    single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         self.generator = kron(N(control), X(target) - I(target))
@@ -95,6 +96,7 @@ class CZ(MCZ):
     """The CZ gate."""
 
     name = OpName.CZ
+    single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         super().__init__((control,), target, noise=noise)
@@ -132,6 +134,7 @@ class CRX(MCRX):
     """The CRX gate."""
 
     name = OpName.CRX
+    single_control = True
 
     def __init__(
         self,
@@ -175,6 +178,7 @@ class CRY(MCRY):
     """The CRY gate."""
 
     name = OpName.CRY
+    single_control = True
 
     def __init__(
         self, control: int, target: int, parameter: TParameter, noise: NoiseHandler | None = None
@@ -214,6 +218,7 @@ class CRZ(MCRZ):
     """The CRZ gate."""
 
     name = OpName.CRZ
+    single_control = True
 
     def __init__(
         self,
@@ -270,6 +275,7 @@ class CPHASE(MCPHASE):
     """The CPHASE gate."""
 
     name = OpName.CPHASE
+    single_control = True
 
     def __init__(
         self,
-- 
2.43.0


From 501cde306a366266ed4476b8ac31b32918d5aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:10 +0000
Subject: [PATCH 052/135] fix: deserialise projectors, matrix blocks and Zero

---
 qadence/blocks/matrix.py        | 17 +++++++++++++++++
 qadence/blocks/primitive.py     |  9 +++++++++
 qadence/operations/primitive.py |  8 ++++++++
 3 files changed, 34 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index e6d532b..fc39ba7 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -98,6 +98,23 @@ class MatrixBlock(PrimitiveBlock):
     def __hash__(self) -> int:
         return super().__hash__()
 
+    def _to_dict(self) -> dict:
+        matrix = self.matrix.detach().to(torch.cdouble)
+        return {
+            **super()._to_dict(),
+            "matrix": {"real": matrix.real.tolist(), "imag": matrix.imag.tolist()},
+        }
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> MatrixBlock:
+        real, imag = (torch.tensor(d["matrix"][k], dtype=torch.float64) for k in ("real", "imag"))
+        return cls(
+            torch.complex(real, imag),
+            tuple(d["qubit_support"]),
+            NoiseHandler._from_dict(d.get("noise")),
+            check_unitary=False,
+        )
+
     @cached_property
     def eigenvalues_generator(self) -> torch.Tensor:
         return torch.log(self.eigenvalues) * 1j
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 402dafa..a52e4ba 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -560,3 +560,12 @@ class ProjectorBlock(PrimitiveBlock):
 
     def __hash__(self) -> int:
         return super().__hash__()
+
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> ProjectorBlock:
+        return cls(
+            d["ket"], d["bra"], tuple(d["qubit_support"]), NoiseHandler._from_dict(d.get("noise"))
+        )
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 971cb7e..ec36059 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -170,6 +170,10 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        return cls(d["qubit_support"][0], d["ket"], NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
@@ -262,6 +266,10 @@ class Zero(PrimitiveBlock):
         self.generator = 0 * I(0)
         super().__init__((0,))
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> Zero:
+        return cls()
+
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.zeros(2, dtype=cdouble)
-- 
2.43.0


From cc1d225181e6e0655916712b68ae5368885669aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:10 +0000
Subject: [PATCH 053/135] fix: deserialise Hamiltonian evolutions

---
 qadence/operations/analog.py  |  9 ++++++++
 qadence/operations/ham_evo.py | 42 +++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/qadence/operations/analog.py b/qadence/operations/analog.py
index 8e66a11..502bc75 100644
--- a/qadence/operations/analog.py
+++ b/qadence/operations/analog.py
@@ -55,6 +55,15 @@ class AnalogSWAP(HamEvo):
         )
         super().__init__(rydberg_ising_hamiltonian_generator, parameter, (control, target))
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> AnalogSWAP:
+        from qadence.serialization import deserialize
+
+        control, target = d["qubit_support"]
+        block = cls(control, target, deserialize(d["parameter"]))  # type: ignore[arg-type]
+        block.generator = deserialize(d["generator"])  # type: ignore[assignment]
+        return block
+
 
 def _cast(T: Any, val: Any) -> Any:
     return val if isinstance(val, T) else T(val)
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 6edf092..2a53a3e 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -188,6 +188,48 @@ class HamEvo(TimeEvolutionBlock):
     def __hash__(self) -> int:
         return super().__hash__()
 
+    def _to_dict(self) -> dict:
+        from qadence.serialization import serialize
+
+        if isinstance(self.generator, AbstractBlock):
+            generator = self.generator._to_dict()
+        elif isinstance(self.generator, Tensor):
+            matrix = self.generator.detach().to(torch.cdouble)
+            generator = {"real": matrix.real.tolist(), "imag": matrix.imag.tolist()}
+        else:
+            generator = serialize(self.generator)
+        d = {
+            "type": type(self).__name__,
+            "qubit_support": self.qubit_support,
+            "tag": self.tag,
+            "generator": generator,
+            "parameter": serialize(self.parameters.parameter),
+            "noise_operators": [op._to_dict() for op in self.noise_operators],
+        }
+        if self.duration is not None:
+            d["duration"] = serialize(self.parameters.duration)
+        return d
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> HamEvo:
+        from qadence.serialization import deserialize
+
+        generator = d["generator"]
+        if "real" in generator:
+            generator = torch.complex(
+                torch.tensor(generator["real"], dtype=torch.float64),
+                torch.tensor(generator["imag"], dtype=torch.float64),
+            )
+        else:
+            generator = deserialize(generator)
+        return cls(
+            generator,
+            deserialize(d["parameter"]),  # type: ignore[arg-type]
+            tuple(d["qubit_support"]),
+            duration=deserialize(d["duration"]) if "duration" in d else None,  # type: ignore[arg-type]
+            noise_operators=[deserialize(op) for op in d["noise_operators"]],  # type: ignore[misc]
+        )
+
     @classmethod
     def num_parameters(cls) -> int:
         return 2
-- 
2.43.0


From 5a0ca4b8e86318ec320b363b5aecee841b7dafbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:10 +0000
Subject: [PATCH 054/135] fix: serialised expressions are rebuilt without
 evaluating them as code

---
 qadence/serialization.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..6efd009 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import ast
 import json
 import os
 import sys
@@ -11,6 +12,7 @@ from pathlib import Path
 from typing import Any, Callable, get_args
 from typing import Union as TypingUnion
 
+import sympy
 import torch
 from arpeggio import NoMatch
 from arpeggio.cleanpeg import ParserPEG
@@ -68,6 +70,8 @@ SYMPY_EXPRS = [n for n in dir(core) if not (n.startswith("__") and n.endswith("_
 QADENCE_PARAMETERS = [n for n in dir(parameters) if not (n.startswith("__") and n.endswith("__"))]
 
 
+SYMPY_CONSTANTS = {"pi": sympy.pi, "E": sympy.E, "I": sympy.I}
+
 THIS_PATH = Path(__file__).parent
 GRAMMAR_FILE = THIS_PATH / "serial_expr_grammar.peg"
 
@@ -106,6 +110,31 @@ def parse_expr_fn(code: str) -> bool:
         return True
 
 
+def _build_expr(node: ast.AST) -> Any:
+    """
+    Build the expression described by the syntax tree of a `sympy.srepr` string.
+
+    Nothing is evaluated: only `sympy` types and `Parameter` are instantiated, and
+    strings are only accepted as the name of a symbol or as the digits of a number.
+    """
+    if isinstance(node, ast.Constant):
+        return node.value
+    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
+        return -_build_expr(node.operand)
+    if isinstance(node, ast.Name) and node.id in SYMPY_CONSTANTS:
+        return SYMPY_CONSTANTS[node.id]
+    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
+        cls = Parameter if node.func.id == "Parameter" else getattr(sympy, node.func.id, None)
+        if isinstance(cls, type) and issubclass(cls, core.Basic):
+            args = [_build_expr(arg) for arg in node.args]
+            kwargs = {str(kw.arg): _build_expr(kw.value) for kw in node.keywords}
+            if issubclass(cls, (Symbol, Float)) or not any(
+                isinstance(arg, str) for arg in (*args, *kwargs.values())
+            ):
+                return cls(*args, **kwargs)
+    raise ValueError(f"Invalid expression: {ast.dump(node)}")
+
+
 @dataclass
 class SerializationModel:
     """
@@ -207,7 +236,7 @@ class ExpressionSerialization(SerializationModel):
 
     def __post_init__(self) -> None:
         if parse_expr_fn(self.d["expression"]):
-            expr = eval(self.d["expression"])
+            expr = _build_expr(ast.parse(self.d["expression"], mode="eval").body)
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
                     s.value = float(self.d["symbols"][s.name]["value"])
-- 
2.43.0


From 62953ce619f8ccb43d084f198cad34c1a0ce10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:15 +0000
Subject: [PATCH 055/135] fix: deserialised expressions keep feature and time
 parameters

---
 qadence/parameters.py    | 7 ++++++-
 qadence/serialization.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index a9a7f42..575cc61 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -164,6 +164,8 @@ class Parameter(Symbol):
 
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
+        if self.is_time:
+            d["is_time"] = str(self.is_time)
         try:
             jsonschema.validate(d, ParameterJSONSchema)
             return d
@@ -176,7 +178,10 @@ class Parameter(Symbol):
         try:
             jsonschema.validate(d, ParameterJSONSchema)
             trainable = True if d["trainable"] == "True" else False
-            return cls(name=d["name"], trainable=trainable, value=float(d["value"]))
+            is_time = d.get("is_time") == "True"
+            return cls(
+                name=d["name"], trainable=trainable, value=float(d["value"]), is_time=is_time
+            )
         except jsonschema.exceptions.ValidationError as e:
             logger.exception(f"Parameter dict {d} doesnt comply to {ParameterJSONSchema} with {e}.")
             return None
diff --git a/qadence/serialization.py b/qadence/serialization.py
index 6efd009..b33fbb0 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -239,7 +239,10 @@ class ExpressionSerialization(SerializationModel):
             expr = _build_expr(ast.parse(self.d["expression"], mode="eval").body)
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
-                    s.value = float(self.d["symbols"][s.name]["value"])
+                    symbol = self.d["symbols"][s.name]
+                    s.value = float(symbol["value"])
+                    s.trainable = symbol["trainable"] == "True"
+                    s.is_time = symbol.get("is_time") == "True"
             self.value = expr
         else:
             raise ValueError(f"Invalid expression: {self.d['expression']}")
-- 
2.43.0


From 15041b302de45f8a41d4a829f2da54863e6a29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:16 +0000
Subject: [PATCH 056/135] fix: serialised expressions accept small numbers,
 constants and any parameter name

---
 qadence/serial_expr_grammar.peg | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 716c7b5..97e32e9 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -1,11 +1,12 @@
-Program = expr EOF
+Program = (expr / const) EOF
 expr = id '(' args ')'
-args = (value / expr) (',' (value / expr))*
-value = int / float_str / str / pair
+args = (expr / value) (',' (expr / value))*
+value = int / float_str / str / pair / const
+const = 'pi' / 'E' / 'I'
 pair = param '=' (int / bool / str)
-param = r"[a-z][a-zA-Z]*"
+param = r"[a-z][a-zA-Z_]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
-float_str = r"'-?(0|\d*(\.\d*))'"
-str = r"'[a-zA-Z0-9\_\.]+'"
+float_str = r"'-?(0|\d*(\.\d*))(e[+-]?\d+)?'"
+str = r"'[^'\"\\\n]+'"
-- 
2.43.0


From 9305407c60d1d7884396da7961632dde820ac34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 057/135] fix: noise handlers with different numbers of
 protocols differ

---
 qadence/noise/protocols.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..856d7c7 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -126,6 +126,8 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
+            if len(self.protocol) != len(other.protocol):
+                return False
             protocols_equal = all([p1 == p2 for p1, p2 in zip(self.protocol, other.protocol)])
             options_equal = all([o1 == o2 for o1, o2 in zip(self.options, other.options)])
             return protocols_equal and options_equal
-- 
2.43.0


From 091394d65ea8f2c4f0b765cac7167f6bb4583d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:51 +0000
Subject: [PATCH 058/135] fix: noise protocols survive a JSON round trip

---
 qadence/noise/protocols.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index 856d7c7..cdb6bb5 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -6,6 +6,19 @@ from typing import Any
 from qadence.types import NoiseEnum, NoiseProtocol
 
 
+def _restore_protocol(protocol: NoiseEnum | str, option: dict) -> NoiseEnum:
+    """Find the protocol of a deserialised noise, whose text may be a plain string."""
+    kinds: tuple = (NoiseProtocol.DIGITAL, NoiseProtocol.READOUT)
+    if "noise_probs" in option:
+        kinds = (NoiseProtocol.ANALOG,)
+    if isinstance(protocol, (NoiseProtocol.ANALOG, *kinds)):
+        return protocol  # type: ignore[return-value]
+    for kind in kinds:
+        if protocol in [p.value for p in kind]:
+            return kind(protocol)  # type: ignore[no-any-return]
+    raise ValueError(f"Unknown noise protocol {protocol}.")
+
+
 class NoiseHandler:
     """A container for multiple sources of noise.
 
@@ -143,7 +156,11 @@ class NoiseHandler:
     @classmethod
     def _from_dict(cls, d: dict | None) -> NoiseHandler | None:
         if d is not None and d.get("protocol", None):
-            return cls(d["protocol"], d["options"])
+            options = [
+                {k: tuple(v) if isinstance(v, list) else v for k, v in option.items()}
+                for option in d["options"]
+            ]
+            return cls([_restore_protocol(p, o) for p, o in zip(d["protocol"], options)], options)
         return None
 
     @classmethod
-- 
2.43.0


From d6cfeb84f611b5ef5a950fe682afd55f116f2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:05 +0000
Subject: [PATCH 059/135] fix: addressing patterns survive a JSON round trip

---
 qadence/analog/addressing.py | 44 ++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/qadence/analog/addressing.py b/qadence/analog/addressing.py
index b42c1be..5570122 100644
--- a/qadence/analog/addressing.py
+++ b/qadence/analog/addressing.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass, fields
+from dataclasses import dataclass
 from typing import Union
 from warnings import warn
 
@@ -53,6 +53,10 @@ class AddressingPattern:
                 if not (v >= 0.0 and v <= 1.0):
                     raise ValueError("Addressing pattern weights must sum fall in range [0.0, 1.0]")
 
+    @staticmethod
+    def _as_parameters(weights: dict[int, TWeight]) -> dict:
+        return {k: Parameter(v) if isinstance(v, str) else v for k, v in weights.items()}
+
     def _constrain_weights(
         self,
         weights: dict[int, TWeight],
@@ -133,9 +137,17 @@ class AddressingPattern:
         elif isinstance(self.det, str):
             self.det = Parameter(self.det, trainable=True)
 
+        # keep the values the pattern was built from: the constraints below are not idempotent
+        self._weights = {
+            "weights_amp": self._as_parameters(self.weights_amp),
+            "weights_det": self._as_parameters(self.weights_det),
+            "amp": self.amp,
+            "det": self.det,
+        }
+
         # constrain amplitude/detuning parameterized weights to [0.0, 1.0] interval
-        self.weights_amp = self._constrain_weights(self.weights_amp)
-        self.weights_det = self._constrain_weights(self.weights_det)
+        self.weights_amp = self._constrain_weights(self._weights["weights_amp"])
+        self.weights_det = self._constrain_weights(self._weights["weights_det"])
 
         # constrain max global amplitude and detuning to strict interval
         self._constrain_max_vals()
@@ -165,8 +177,30 @@ class AddressingPattern:
         return {k: evaluate(v, values, as_torch=True).flatten() for k, v in weights.items()}  # type: ignore [union-attr]
 
     def _to_dict(self) -> dict:
-        return {field.name: getattr(self, field.name) for field in fields(self)}
+        def value_to_dict(v: TWeight) -> dict | float:
+            return v._to_dict() if isinstance(v, Parameter) else float(v)
+
+        d: dict = {"n_qubits": self.n_qubits}
+        for name, value in self._weights.items():
+            d[name] = (
+                {str(k): value_to_dict(v) for k, v in value.items()}
+                if isinstance(value, dict)
+                else value_to_dict(value)
+            )
+        return d
 
     @classmethod
     def _from_dict(cls, d: dict) -> AddressingPattern | None:
-        return cls(**d) if len(d) > 0 else None
+        if len(d) == 0:
+            return None
+
+        def value_from_dict(v: dict | float) -> TWeight:
+            return Parameter._from_dict(v) if isinstance(v, dict) else v
+
+        return cls(
+            n_qubits=d["n_qubits"],
+            weights_amp={int(k): value_from_dict(v) for k, v in d["weights_amp"].items()},
+            weights_det={int(k): value_from_dict(v) for k, v in d["weights_det"].items()},
+            amp=value_from_dict(d["amp"]),
+            det=value_from_dict(d["det"]),
+        )
-- 
2.43.0


From c38c93f57e1dccca62c5233f3efae21400e3b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 060/135] fix: models without observable can be loaded

---
 qadence/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..47e2f0d 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -470,10 +470,11 @@ class QuantumModel(nn.Module):
         """
         d = dict()
         try:
+            abs_obs: list[dict] | None
             if isinstance(self._observable, list):
                 abs_obs = [obs.abstract._to_dict() for obs in self._observable]
             else:
-                abs_obs = [dict()]
+                abs_obs = None
 
             d = {
                 "circuit": self._circuit.abstract._to_dict(),
-- 
2.43.0


From 6492750cb51c20f3aee3e08a7ec3eef9ae52a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 061/135] fix: loaded models keep their measurement protocol

---
 qadence/measurements/protocols.py | 2 +-
 qadence/mitigations/protocols.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..c8d2542 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..d3d0bad 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -36,7 +36,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
 
     @classmethod
-- 
2.43.0


From 04047ba28a1006d4c577d11581c39f8422b1aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 062/135] fix: constants of loaded models are not trainable

---
 qadence/ml_tools/models.py | 2 +-
 qadence/model.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..f1c9a99 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -492,7 +492,7 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param)
+                    conv_pd[n] = nn.Parameter(param, requires_grad=param.requires_grad)
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index 47e2f0d..69a1955 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -530,7 +530,7 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param)
+                    conv_pd[n] = torch.nn.Parameter(param, requires_grad=param.requires_grad)
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
-- 
2.43.0


From e75beee4f7564c3345f65b9e6ad212c51277f30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 063/135] fix: load restores the parameters which save writes
 to .pt files

---
 qadence/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index b33fbb0..1799936 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -504,10 +504,10 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.error(f"File {file_path} not found.")
         raise FileNotFoundError
     FORMAT = file_extension(file_path)
-    _, _, load_fn, _ = FORMAT_DICT[FORMAT]  # type: ignore[index]
+    _, _, load_fn, has_params = FORMAT_DICT[FORMAT]  # type: ignore[index]
     try:
         d = load_fn(file_path, map_location)
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    return deserialize(d, as_torch=has_params)
-- 
2.43.0


From 35f00cff0363005c6b7c0dde48321d0bcd9399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 064/135] fix: loaded QNNs keep the differentiation mode of
 their inputs

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index f1c9a99..2bbc2e0 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -465,6 +465,7 @@ class QNN(QuantumModel):
         try:
             d = super()._to_dict(save_params)
             d[self.__class__.__name__]["inputs"] = [str(i) for i in self.inputs]
+            d[self.__class__.__name__]["input_diff_mode"] = str(self.input_diff_mode)
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
         except Exception as e:
             logger.warning(f"Unable to serialize {self.__class__.__name__} due to {e}.")
@@ -486,6 +487,7 @@ class QNN(QuantumModel):
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
                 inputs=qm_dict["inputs"],
+                input_diff_mode=qm_dict.get("input_diff_mode", InputDiffMode.AD),
             )
 
             if as_torch:
-- 
2.43.0


From 143d01356afcfcadfadb7690c4e628688047b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 065/135] fix: fixing or freeing parameters of a model keeps
 the values of the others

---
 qadence/model.py | 46 +++++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index 69a1955..50b9294 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -26,7 +26,7 @@ from qadence.measurements import Measurements
 from qadence.mitigations import Mitigations
 from qadence.noise import NoiseHandler
 from qadence.parameters import Parameter
-from qadence.types import DiffMode, Endianness
+from qadence.types import DiffMode, Endianness, ParamDictType
 from qadence.utils import (
     block_to_mathematical_expression,
     check_param_dict_values,
@@ -207,6 +207,20 @@ class QuantumModel(nn.Module):
             current_config = self.backend.backend.config
         BackendConfiguration.change_config(current_config, new_config)
 
+    def _update_params(self, params: ParamDictType) -> None:
+        """Take over the converted parameters, keeping the current value of the existing ones."""
+        if not check_param_dict_values(params):
+            params = merge_separate_params(params)
+        self._params = nn.ParameterDict(
+            {
+                str(key): nn.Parameter(
+                    self._params[str(key)].data if str(key) in self._params else val,
+                    requires_grad=val.requires_grad,  # type: ignore[union-attr]
+                )
+                for key, val in params.items()
+            }
+        )
+
     def set_as_variational(self, params: list[str] = list()) -> None:
         """Set as variational the list of names in `params`.
 
@@ -229,20 +243,7 @@ class QuantumModel(nn.Module):
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
         self._observable = conv.observable
-        if check_param_dict_values(conv.params):
-            self._params = nn.ParameterDict(
-                {
-                    str(key): nn.Parameter(val, requires_grad=val.requires_grad)  # type: ignore[union-attr]
-                    for key, val in conv.params.items()
-                }
-            )
-        else:
-            self._params = nn.ParameterDict(
-                {
-                    str(key): nn.Parameter(val, requires_grad=val.requires_grad)  # type: ignore[union-attr]
-                    for key, val in merge_separate_params(conv.params).items()
-                }
-            )
+        self._update_params(conv.params)
 
     def set_as_fixed(self, params: list[str] = list()) -> None:
         """Set as fixed the list of names in `params`.
@@ -266,20 +267,7 @@ class QuantumModel(nn.Module):
         self.embedding_fn = conv.embedding_fn
         self._circuit = conv.circuit
         self._observable = conv.observable
-        if check_param_dict_values(conv.params):
-            self._params = nn.ParameterDict(
-                {
-                    str(key): nn.Parameter(val, requires_grad=val.requires_grad)  # type: ignore[union-attr]
-                    for key, val in conv.params.items()
-                }
-            )
-        else:
-            self._params = nn.ParameterDict(
-                {
-                    str(key): nn.Parameter(val, requires_grad=val.requires_grad)  # type: ignore[union-attr]
-                    for key, val in merge_separate_params(conv.params).items()
-                }
-            )
+        self._update_params(conv.params)
 
     def circuit(self, circuit: QuantumCircuit) -> ConvertedCircuit:
         """Get backend-converted circuit.
-- 
2.43.0


From b8535824d69db4f072f03b001858832c720844b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 066/135] fix: resetting variational parameters keeps their
 type

---
 qadence/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/model.py b/qadence/model.py
index 50b9294..15833ff 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -300,7 +300,8 @@ class QuantumModel(nn.Module):
             len(values) == self.num_vparams
         ), "Pass an iterable with the values of all variational parameters"
         for i, k in enumerate(current_vparams.keys()):
-            current_vparams[k].data = torch.tensor([values[i]])
+            param = current_vparams[k]
+            param.data = torch.tensor([values[i]], dtype=param.dtype, device=param.device)
 
     def forward(self, *args: Any, **kwargs: Any) -> Tensor:
         """Calls run method with arguments.
-- 
2.43.0


From 27c8846a7901abeb018133dc2faccfb57501781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:56 +0000
Subject: [PATCH 067/135] fix: noise passed to one expectation call does not
 affect later calls

---
 qadence/model.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index 15833ff..cf9ade7 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -425,8 +425,6 @@ class QuantumModel(nn.Module):
             measurement = self._measurement
         if noise is None:
             noise = self._noise
-        else:
-            self._noise = noise
         if mitigation is None:
             mitigation = self._mitigation
         return self.backend.expectation(
-- 
2.43.0


From be7528781444809830305c464839c3161f1b89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 068/135] fix: noise of one call or configuration is not left
 on the circuit

---
 qadence/backends/pyqtorch/backend.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 2612202..ba9988c 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections import Counter
+from copy import deepcopy
 from dataclasses import dataclass, field
 from logging import getLogger
 from typing import Any
@@ -63,20 +64,28 @@ def set_readout_noise(circuit: ConvertedCircuit, noise: NoiseHandler) -> None:
 
 def set_block_and_readout_noises(
     circuit: ConvertedCircuit, noise: NoiseHandler | None, config: Configuration
-) -> None:
+) -> ConvertedCircuit:
     """Add noise on blocks and readout on circuit.
 
     We first start by adding noise to the abstract blocks. Then we do a conversion to their
-    native representation. Finally, we add readout.
+    native representation. Finally, we add readout. The native part of the input circuit
+    is left unchanged.
 
     Args:
         circuit (ConvertedCircuit): Input circuit.
         noise (NoiseHandler | None): Noise to add.
+
+    Returns:
+        ConvertedCircuit: The circuit with noise.
     """
     if noise:
+        circuit = ConvertedCircuit(
+            native=circuit.native, abstract=circuit.abstract, original=circuit.original
+        )
         set_noise(circuit, noise)
         set_noise_abstract_to_native(circuit, config)
         set_readout_noise(circuit, noise)
+    return circuit
 
 
 @dataclass(frozen=True, eq=True)
@@ -116,6 +125,7 @@ class Backend(BackendInterface):
             circuit = transpile(*passes)(circuit)
         # Setting noise in the circuit.
         if self.config.noise:
+            circuit = deepcopy(circuit)
             set_noise(circuit, self.config.noise)
 
         ops = convert_block(circuit.block, n_qubits=circuit.n_qubits, config=self.config)
@@ -188,7 +198,7 @@ class Backend(BackendInterface):
         noise: NoiseHandler | None = None,
         endianness: Endianness = Endianness.BIG,
     ) -> Tensor:
-        set_block_and_readout_noises(circuit, noise, self.config)
+        circuit = set_block_and_readout_noises(circuit, noise, self.config)
         param_circuit = param_values["circuit"] if "circuit" in param_values else param_values
         param_observables = (
             param_values["observables"] if "observables" in param_values else param_values
@@ -233,7 +243,7 @@ class Backend(BackendInterface):
                 "Define your initial state with `batch_size=1`"
             )
 
-        set_block_and_readout_noises(circuit, noise, self.config)
+        circuit = set_block_and_readout_noises(circuit, noise, self.config)
 
         list_expvals = []
         observables = observable if isinstance(observable, list) else [observable]
@@ -298,7 +308,7 @@ class Backend(BackendInterface):
         elif state is not None and pyqify_state:
             n_qubits = circuit.abstract.n_qubits
             state = pyqify(state, n_qubits) if pyqify_state else state
-        set_block_and_readout_noises(circuit, noise, self.config)
+        circuit = set_block_and_readout_noises(circuit, noise, self.config)
         samples: list[Counter] = circuit.native.sample(
             state=state, values=param_values, n_shots=n_shots
         )
-- 
2.43.0


From 91d59875128d9a40ab9d56706b07f2fed9392669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 069/135] fix: unique parameters are identified by their name

---
 qadence/blocks/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 97a74c1..bdb5d81 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -536,10 +536,11 @@ def unique_parameters(block: AbstractBlock) -> list[Parameter]:
     Returns:
         list[Parameter]: List of unique parameters in the circuit
     """
-    symbols = []
+    # a parameter is assigned through its name
+    symbols: dict[str, Parameter] = {}
     for p in parameters(block):
         if isinstance(p, Array):
             continue
-        elif not p.is_number and p not in symbols:
-            symbols.append(p)
-    return symbols
+        elif not p.is_number:
+            symbols.setdefault(p.name, p)
+    return list(symbols.values())
-- 
2.43.0


From e7b9372e4b1eaf1e3b2ae48f159aa2665e792d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:52 +0000
Subject: [PATCH 070/135] fix: noise of a controlled swap is applied

---
 qadence/backends/pyqtorch/convert_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index d8e2379..a0ba433 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -303,6 +303,8 @@ def convert_block(
                 op = pyq_cls(
                     qubit_support[:-2], qubit_support[-2:], noise=noise  # type: ignore [attr-defined]
                 )
+                # pyqtorch's CSWAP takes a noise argument but does not keep it
+                op.noise = noise
             else:
                 op = pyq_cls(
                     qubit_support[:-1], qubit_support[-1], noise=noise  # type: ignore [attr-defined]
-- 
2.43.0


From fb863a3f03c527d84d9cc21d8f27f16123695237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 071/135] fix: norm difference compares the same outcomes

---
 qadence/divergences.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qadence/divergences.py b/qadence/divergences.py
index 0610863..93910a6 100644
--- a/qadence/divergences.py
+++ b/qadence/divergences.py
@@ -39,12 +39,12 @@ def js_divergence(counter_p: Counter, counter_q: Counter) -> float:
 
 
 def norm_difference(counter_p: Counter, counter_q: Counter) -> float:
-    # Normalise counters
-
-    counter_p = np.array([v for v in counter_p.values()])
-    counter_q = np.array([v for v in counter_q.values()])
+    # Normalise counters over the same outcomes
+    outcomes = list(counter_p.keys() | counter_q.keys())
+    count_p = np.array([counter_p[k] for k in outcomes])
+    count_q = np.array([counter_q[k] for k in outcomes])
 
-    prob_p = counter_p / np.sum(counter_p)
-    prob_q = counter_q / np.sum(counter_q)
+    prob_p = count_p / np.sum(count_p)
+    prob_q = count_q / np.sum(count_q)
 
     return float(np.linalg.norm(prob_p - prob_q))
-- 
2.43.0


From 7d1b5ec7ff95938e40917fcb322baf19a848e2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 072/135] fix: overlap methods with one or no feature parameter
 and fixed kets

---
 qadence/overlap.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index b8f1830..c6a3bdb 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -181,6 +181,11 @@ def overlap_jensen_shannon(bras: list[Counter], kets: list[Counter]) -> Tensor:
     Returns:
         Tensor: overlap tensor containing values of overlap of each bra with each ket
     """
+    # a single bra or ket is compared with all counterparts
+    if len(bras) == 1:
+        bras = bras * len(kets)
+    if len(kets) == 1:
+        kets = kets * len(bras)
     return 1 - torch.tensor([js_divergence(p, q) for p, q in zip(bras, kets)])
 
 
@@ -343,6 +348,13 @@ class Overlap(QuantumModel):
             self.ket_model = None  # type: ignore [assignment]
             self.ket_feat_param_names = set([])
 
+    def _pairwise(
+        self, bra_param_values: dict[str, Tensor], ket_param_values: dict[str, Tensor]
+    ) -> bool:
+        # bra and ket have a feature parameter each, every bra is paired with every ket
+        n_features = len(self.bra_feat_param_names.union(self.ket_feat_param_names))
+        return n_features == 2 and len(bra_param_values) > 0 and len(ket_param_values) > 0
+
     def _process_param_values(
         self, bra_param_values: dict[str, Tensor], ket_param_values: dict[str, Tensor]
     ) -> dict:
@@ -364,8 +376,9 @@ class Overlap(QuantumModel):
         new_ket_param_values = ket_param_values.copy()
 
         # if len(self.bra_feat_param_names) + len(self.ket_feat_param_names) <= 2:
+        n_features = len(self.bra_feat_param_names.union(self.ket_feat_param_names))
 
-        if len(self.bra_feat_param_names.union(self.ket_feat_param_names)) == 2:
+        if self._pairwise(bra_param_values, ket_param_values):
             # extend bra parameter tensors
             for param_name in new_bra_param_values.keys():
                 new_bra_param_values[param_name] = new_bra_param_values[param_name].repeat(
@@ -395,9 +408,14 @@ class Overlap(QuantumModel):
                 if self.method == OverlapMethod.HADAMARD_TEST:
                     param_values["ket"] = new_bra_param_values
 
-        elif len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
+        elif n_features <= 2:
             if batch_size_bra == batch_size_ket or batch_size_bra == 0 or batch_size_ket == 0:
-                param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                if self.method in [OverlapMethod.EXACT, OverlapMethod.JENSEN_SHANNON]:
+                    param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                else:
+                    # the circuits of these methods contain both the bra and the ket
+                    merged_values = {**ket_param_values, **bra_param_values}
+                    param_values = {"bra": merged_values, "ket": merged_values}
             else:
                 raise ValueError("Batch sizes of both bra and ket parameters must be equal.")
 
@@ -435,7 +453,7 @@ class Overlap(QuantumModel):
         )
 
         # reshape output if needed
-        if len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
+        if not self._pairwise(bra_param_values, ket_param_values):
             overlap = overlap[:, None]
         else:
             batch_size_bra = max(len(list(bra_param_values.values())[0]), 1)
-- 
2.43.0


From 14365fabf906976968f03c5ec503a622bd49d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:59 +0000
Subject: [PATCH 073/135] fix: readout mitigation uses the confusion matrix and
 keeps the distribution

---
 qadence/mitigations/readout.py | 41 ++++++++++++++--------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c468363..8a14d24 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -7,6 +7,7 @@ import numpy as np
 import numpy.typing as npt
 import torch
 from numpy.linalg import inv, matrix_rank, pinv
+from pyqtorch.noise import ReadoutNoise
 from scipy.linalg import norm
 from scipy.optimize import LinearConstraint, minimize
 
@@ -52,17 +53,14 @@ def mle_solve(p_raw: npt.NDArray) -> npt.NDArray:
 
 
 def renormalize_counts(corrected_counts: npt.NDArray, n_shots: int) -> npt.NDArray:
-    """Renormalize counts rounding discrepancies."""
-    total_counts = sum(corrected_counts)
-    if total_counts != n_shots:
-        counts_diff = total_counts - n_shots
-        corrected_counts -= counts_diff
-        corrected_counts = np.where(corrected_counts < 0, 0, corrected_counts)
-        sum_corrected_counts = sum(corrected_counts)
-
-        renormalization_factor = n_shots / sum_corrected_counts
-        corrected_counts = np.rint(corrected_counts * renormalization_factor).astype(int)
-    return corrected_counts
+    """Round the corrected counts to integers that sum up to n_shots."""
+    corrected_counts = np.clip(corrected_counts, 0.0, None)
+    corrected_counts = corrected_counts * (n_shots / corrected_counts.sum())
+    counts = np.floor(corrected_counts).astype(int)
+    # Counts with the largest remainders are rounded up.
+    order = np.argsort(counts - corrected_counts, kind="stable")
+    counts[order[: n_shots - counts.sum()]] += 1
+    return counts
 
 
 def matrix_inv(K: npt.NDArray) -> npt.NDArray:
@@ -95,10 +93,14 @@ def mitigation_minimization(
     if readout_noise is None:
         raise ValueError("Specify a noise source of type NoiseProtocol.READOUT.")
     n_shots = sum(samples[0].values())
-    noise_matrices = readout_noise.confusion_matrix
-    if noise_matrices.numel() == 0:
+    if isinstance(readout_noise, ReadoutNoise):
+        # The confusion matrix is only set along with the noise matrix
+        # unless it was given by the user.
         readout_noise.create_noise_matrix(n_shots)
-        noise_matrices = readout_noise.confusion_matrix
+    noise_matrices = readout_noise.confusion_matrix
+    if noise_matrices.ndim == 2:
+        # Correlated readout has a single confusion matrix for all qubits.
+        noise_matrices = noise_matrices.unsqueeze(0)
     optimization_type = mitigation.options.get("optimization_type", ReadOutOptimization.MLE)
 
     corrected_counters: list[Counter] = []
@@ -144,16 +146,7 @@ def mitigation_minimization(
                 f"Requested method {optimization_type} does not match supported protocols."
             )
 
-        corrected_counts = np.rint(p_corr * n_shots).astype(int)
-
-        # Renormalize if total counts differs from n_shots.
-        corrected_counts = renormalize_counts(corrected_counts=corrected_counts, n_shots=n_shots)
-        # At this point, the count should be off by at most 2, added or substracted to/from the
-        # max count.
-        if sum(corrected_counts) != n_shots:
-            count_diff = sum(corrected_counts) - n_shots
-            max_count_bs = np.argmax(corrected_counts)
-            corrected_counts[max_count_bs] -= count_diff
+        corrected_counts = renormalize_counts(corrected_counts=p_corr * n_shots, n_shots=n_shots)
         assert (
             corrected_counts.sum() == n_shots
         ), f"Corrected counts sum: {corrected_counts.sum()}, n_shots: {n_shots}"
-- 
2.43.0


From 1658abdbe8efb853c9331919d38e816aeb56bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:59 +0000
Subject: [PATCH 074/135] fix: measurement protocols use the Pauli strings of
 the observable

---
 qadence/measurements/samples.py    |  5 ++---
 qadence/measurements/shadow.py     | 19 +++++++---------
 qadence/measurements/tomography.py |  5 ++---
 qadence/measurements/utils.py      | 35 ++++++++++++++++++++++++++----
 4 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/qadence/measurements/samples.py b/qadence/measurements/samples.py
index 02275c6..016025b 100644
--- a/qadence/measurements/samples.py
+++ b/qadence/measurements/samples.py
@@ -6,8 +6,7 @@ from typing import List
 from torch import Tensor
 
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
-from qadence.measurements.utils import pauli_z_expectation
+from qadence.measurements.utils import get_pauli_decomposition, pauli_z_expectation
 
 
 def compute_expectation(
@@ -30,9 +29,9 @@ def compute_expectation(
     expectation_vals = []
 
     for obs in observable:
-        decomposition = unroll_block_with_scaling(obs)
         if not obs._is_diag_pauli or obs.is_identity:
             raise TypeError("observable provided is not in the Z basis")
+        decomposition = get_pauli_decomposition(obs)
         expectation_vals.append(pauli_z_expectation(decomposition, samples))
 
     return expectation_vals
diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..0424d55 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,9 +13,10 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
+from qadence.measurements.utils import get_pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
+from qadence.parameters import evaluate
 from qadence.types import BackendName, Endianness
 
 pauli_gates = [X, Y, Z]
@@ -116,9 +117,7 @@ def extract_operators(unitary_ids: np.ndarray, n_qubits: int) -> list:
         list: Pauli strings.
     """
     operations = nested_operator_indexing(unitary_ids)
-    if n_qubits > 1:
-        operations = [kron_if_non_empty(ops) for ops in operations]
-    return operations
+    return [kron_if_non_empty(ops) for ops in operations]
 
 
 def classical_shadow(
@@ -204,11 +203,9 @@ def estimators(
         obs_to_pauli_index = [pauli_gates.index(type(observable))]
 
     elif isinstance(observable, CompositeBlock):
-        obs_to_pauli_index = [
-            pauli_gates.index(type(p)) for p in observable.blocks if not isinstance(p, I)  # type: ignore[arg-type]
-        ]
-        ind_I = set(get_qubit_indices_for_op((observable, 1.0), I(0)))
-        obs_qubit_support = tuple([ind for ind in observable.qubit_support if ind not in ind_I])
+        paulis = [p for p in observable.blocks if not isinstance(p, I)]
+        obs_to_pauli_index = [pauli_gates.index(type(p)) for p in paulis]  # type: ignore[arg-type]
+        obs_qubit_support = tuple(p.qubit_support[0] for p in paulis)
 
     floor = int(np.floor(N / K))
     traces = []
@@ -259,7 +256,7 @@ def estimations(
     )
     estimations = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
+        pauli_decomposition = get_pauli_decomposition(observable)
         batch_estimations = []
         for batch in batch_shadow_samples:
             pauli_term_estimations = []
@@ -275,7 +272,7 @@ def estimations(
                 )
                 # Compute the median of means for the current Pauli term.
                 # Weigh the median by the Pauli term scaling.
-                pauli_term_estimations.append(torch.median(estimation) * pauli_term[1])
+                pauli_term_estimations.append(torch.median(estimation) * evaluate(pauli_term[1]))
             # Sum the expectations for each Pauli term to get the expectation for the
             # current batch.
             batch_estimations.append(sum(pauli_term_estimations))
diff --git a/qadence/measurements/tomography.py b/qadence/measurements/tomography.py
index f7398de..372ade9 100644
--- a/qadence/measurements/tomography.py
+++ b/qadence/measurements/tomography.py
@@ -6,10 +6,9 @@ from torch import Tensor
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import iterate_pauli_decomposition
+from qadence.measurements.utils import get_pauli_decomposition, iterate_pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.utils import Endianness
 
@@ -53,7 +52,7 @@ def compute_expectation(
         raise KeyError("Tomography protocol requires a 'n_shots' kwarg of type 'int'.")
     estimated_values = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
+        pauli_decomposition = get_pauli_decomposition(observable)
         estimated_values.append(
             iterate_pauli_decomposition(
                 circuit=circuit,
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..d5df237 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -6,13 +6,15 @@ from typing import Dict, List, Tuple
 
 import numpy as np
 import torch
-from sympy import Basic
+from sympy import Basic, expand, sympify
 from torch import Tensor
 
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
-from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
+from qadence.backends.utils import infer_batchsize
+from qadence.blocks import AbstractBlock, PrimitiveBlock, chain, kron
 from qadence.circuit import QuantumCircuit
+from qadence.decompose import pauli_strings
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y
@@ -39,6 +41,28 @@ def get_qubit_indices_for_op(
     return indices
 
 
+def get_pauli_decomposition(observable: AbstractBlock) -> List[Tuple[AbstractBlock, Basic]]:
+    """Write the observable as a weighted sum of distinct Pauli strings.
+
+    Args:
+        observable: A block of Pauli operations.
+
+    Returns: A list of Pauli strings, with operators ordered by qubit, and their coefficients.
+    """
+    terms: dict = dict()
+    for coeff, paulis in pauli_strings(observable):
+        key = tuple(sorted(paulis.items(), key=lambda item: item[0]))
+        terms[key] = terms.get(key, 0) + sympify(coeff)
+    terms = {paulis: expand(coeff) for paulis, coeff in terms.items()}
+    identity = I(observable.qubit_support[0])
+    decomposition = [
+        (kron(*(op(qubit) for qubit, op in paulis)) if paulis else identity, coeff)
+        for paulis, coeff in terms.items()
+        if coeff != 0
+    ]
+    return decomposition if decomposition else [(identity, sympify(0))]
+
+
 def get_counts(samples: List, support: List[int]) -> List[Counter]:
     """Marginalise the probability mass function to the support.
 
@@ -93,7 +117,8 @@ def pauli_z_expectation(
 
     estimated_values = []
     for pauli_term in pauli_decomposition:
-        support = get_qubit_indices_for_op(pauli_term)
+        # the identity has the same value for any outcome
+        support = [] if pauli_term[0].is_identity else get_qubit_indices_for_op(pauli_term)
         estim_values = empirical_average(samples=samples, support=support)
         # TODO: support for parametric observables to be tested
         estimated_values.append(estim_values * evaluate(pauli_term[1]))
@@ -147,10 +172,12 @@ def iterate_pauli_decomposition(
     """
 
     estimated_values = []
+    batch_size = max(infer_batchsize(param_values), 1 if state is None else len(state))
 
     for pauli_term in pauli_decomposition:
         if pauli_term[0].is_identity:
-            estimated_values.append(evaluate(pauli_term[1], as_torch=True))
+            ones = torch.ones(batch_size, dtype=torch.get_default_dtype())
+            estimated_values.append(ones * evaluate(pauli_term[1]))
         else:
             # Get the full qubit support for the Pauli term.
             # Note: duplicates must be kept here to allow for
-- 
2.43.0


From 2c813294b28fe35626ae3219933f967fef9a2992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 075/135] fix: periodic digital HEA closes the ring for an odd
 number of qubits

---
 qadence/constructors/hea.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index f12361b..1605c0b 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -211,6 +211,18 @@ def _entanglers_digital(
                     if n % 2
                 )
             )
+        if periodic and n_qubits > 2 and n_qubits % 2:
+            # The link closing an odd ring shares a qubit with both layers above
+            ents.append(
+                kron(
+                    _entangler(
+                        control=support[n_qubits - 1],
+                        target=support[0],
+                        param_str=param_prefix + f"_ent_{next(iterator)}",
+                        op=entangler,
+                    )
+                )
+            )
         ent_list.append(chain(*ents))
     return ent_list
 
-- 
2.43.0


From cce39f592a72273c126c4c0566abfa259fc11b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 076/135] fix: identity initialised ansatz gives every angle
 its own parameter

---
 qadence/constructors/iia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/constructors/iia.py b/qadence/constructors/iia.py
index 889d92f..4b55c9c 100644
--- a/qadence/constructors/iia.py
+++ b/qadence/constructors/iia.py
@@ -84,7 +84,7 @@ def _rotations(
                 gate(
                     target=n,  # type: ignore [call-arg]
                     parameter=Parameter(  # type: ignore [call-arg]
-                        name=param_str + f"_{layer}{n + n_qubits * idx(i)}",
+                        name=param_str + f"_{layer}_{n + n_qubits * idx(i)}",
                         value=values[n + n_qubits * idx(i)],
                         trainable=True,
                     ),
@@ -166,7 +166,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=n + 1,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits - 1)
@@ -178,7 +178,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=(n + 1) % n_qubits,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits)
@@ -212,7 +212,7 @@ def identity_initialized_ansatz(
             kron(
                 RX(
                     target=n,
-                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}{n}", value=gamma[n]),
+                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}_{n}", value=gamma[n]),
                 )
                 for n in range(n_qubits)
             )
-- 
2.43.0


From d700ead656280fab64b268cda1d485fc3fd24d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 077/135] fix: Ising observable configuration has every Z term
 on two qubits

---
 qadence/constructors/hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/constructors/hamiltonians.py b/qadence/constructors/hamiltonians.py
index dde0aea..a82927d 100644
--- a/qadence/constructors/hamiltonians.py
+++ b/qadence/constructors/hamiltonians.py
@@ -349,8 +349,8 @@ def ising_hamiltonian_config(
 
         if i == 0:
             result += Z(j)
-        elif i == 1 and j == 2:
-            result += Z(0)
+            if j == 1:
+                result += Z(0)
 
         return result
 
-- 
2.43.0


From 4b54c403108f5a7323d53cad62ba3cec8518a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 078/135] fix: feature map support may be smaller than the
 number of qubits

---
 qadence/constructors/feature_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/constructors/feature_maps.py b/qadence/constructors/feature_maps.py
index 567645f..8df8311 100644
--- a/qadence/constructors/feature_maps.py
+++ b/qadence/constructors/feature_maps.py
@@ -163,7 +163,7 @@ def feature_map(
     # Process input
     if support is None:
         support = tuple(range(n_qubits))
-    elif len(support) != n_qubits:
+    elif len(support) > n_qubits:
         raise ValueError("Wrong qubit support supplied")
 
     if op not in ROTATIONS:
-- 
2.43.0


From 118acf5e993c6f5f99fbac82f7b6d1070466f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:12 +0000
Subject: [PATCH 079/135] fix: alternating layer ansatz with layers or block
 sizes without entanglers

---
 qadence/constructors/ala.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qadence/constructors/ala.py b/qadence/constructors/ala.py
index e7b5578..4f8b066 100644
--- a/qadence/constructors/ala.py
+++ b/qadence/constructors/ala.py
@@ -170,7 +170,7 @@ def _entanglers_ala_block_digital(
     for d in range(depth):
         start_i = 0 if not d % 2 else -m_block_qubits // 2
         ents = [
-            kron(
+            [
                 _entangler(
                     control=support[i + j],
                     target=support[i + j + 1],
@@ -180,11 +180,12 @@ def _entanglers_ala_block_digital(
                 for j in range(start_j, m_block_qubits, 2)
                 for i in range(start_i, n_qubits, m_block_qubits)
                 if i + j + 1 < n_qubits and j + 1 < m_block_qubits and i + j >= 0
-            )
+            ]
             for start_j in [i for i in range(2) if m_block_qubits > 2 or i == 0]
         ]
 
-        ent_list.append(chain(*ents))
+        # a shifted layer may have no pair of qubits within a block
+        ent_list.append(chain(*(kron(*ent) for ent in ents if ent)))
     return ent_list
 
 
@@ -244,7 +245,8 @@ def ala_digital(
     layers = []
     for d in range(depth):
         layers.append(rot_list[d])
-        layers.append(ent_list[d])
+        if len(ent_list[d]) > 0:
+            layers.append(ent_list[d])
 
     return tag(chain(*layers), "ALA")
 
-- 
2.43.0


From a5f3508d09a6e0e64b1c168409c85862914912b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:43 +0000
Subject: [PATCH 080/135] fix: alternating layer ansatz from a configuration
 uses its depth, operations and block size

---
 qadence/ml_tools/constructors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 75c420e..815b467 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -392,6 +392,7 @@ def _ansatz_layer(
         ansatz_type=ansatz_config.ansatz_type,
         ansatz_strategy=ansatz_config.ansatz_strategy,
         strategy_args=ansatz_config.strategy_args,
+        m_block_qubits=ansatz_config.m_block_qubits,
         param_prefix=f"fm_{index}",
     )
 
@@ -612,12 +613,13 @@ def _create_ala_digital(
     Returns:
         AbstractBlock: The Digital Alternating Layer Ansatz.
     """
-    operations = config.strategy_args.get("operation", [RX, RY, RX])
+    operations = config.strategy_args.get("operations", [RX, RY, RX])
     entangler = config.strategy_args.get("entangler", CNOT)
 
     return ala_digital(
         n_qubits=num_qubits,
         m_block_qubits=config.m_block_qubits,  # type: ignore[arg-type]
+        depth=config.depth,
         param_prefix=config.param_prefix,
         operations=operations,
         entangler=entangler,
-- 
2.43.0


From 6de2a5db47e80348a62d778b77d638ef164d0e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:43 +0000
Subject: [PATCH 081/135] fix: default entangler of the digital-analog identity
 ansatz is the NN interaction

---
 qadence/ml_tools/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 815b467..5d19e84 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -443,7 +443,8 @@ def _create_iia_sdaqc(
         AbstractBlock: The SDAQC Identity Initialized Ansatz.
     """
     operations = config.strategy_args.get("operations", [RX, RY])
-    entangler = config.strategy_args.get("entangler", CNOT)
+    # None selects the default NN interaction
+    entangler = config.strategy_args.get("entangler", None)
     periodic = config.strategy_args.get("periodic", False)
 
     return iia(
-- 
2.43.0


From 9670f61adc601a462b88a5ec190ab5e90ed0c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:43 +0000
Subject: [PATCH 082/135] fix: QNN expectation uses the given observable and
 mitigation

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 2bbc2e0..a167d22 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -451,10 +451,12 @@ class QNN(QuantumModel):
             noise = self._noise
         return super().expectation(
             values=self.format_to_dict(values),
+            observable=observable,
             state=state,
             measurement=measurement,
             endianness=endianness,
             noise=noise,
+            mitigation=mitigation,
         )
 
     def _derivative(self, x: Tensor, derivative_indices: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From 469c4d15e756016e7c39cb1206582a12b843cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:44 +0000
Subject: [PATCH 083/135] fix: operation of a feature map configuration decides
 its strategy

---
 qadence/ml_tools/config.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qadence/ml_tools/config.py b/qadence/ml_tools/config.py
index 985375b..50a3d89 100644
--- a/qadence/ml_tools/config.py
+++ b/qadence/ml_tools/config.py
@@ -403,8 +403,12 @@ class FeatureMapConfig:
                 self.operation = AnalogRX  # type: ignore[assignment]
 
         else:
+            # analog operations are functions returning an `AnalogBlock`
+            is_digital = isinstance(self.operation, type) and issubclass(
+                self.operation, ParametricBlock
+            )
             if self.feature_map_strategy == Strategy.DIGITAL:
-                if isinstance(self.operation, AnalogBlock):
+                if not is_digital:
                     logger.warning(
                         "The `operation` is of type `AnalogBlock` but the `feature_map_strategy` is\
                         `Strategy.DIGITAL`. The `feature_map_strategy` will be modified and given \
@@ -414,7 +418,7 @@ class FeatureMapConfig:
                     self.feature_map_strategy = Strategy.ANALOG
 
             elif self.feature_map_strategy == Strategy.ANALOG:
-                if isinstance(self.operation, ParametricBlock):
+                if is_digital:
                     logger.warning(
                         "The `operation` is a digital gate but the `feature_map_strategy` is\
                         `Strategy.ANALOG`. The `feature_map_strategy` will be modified and given\
@@ -431,10 +435,10 @@ class FeatureMapConfig:
                         `feature_map_strategy` will be modified and given operation will be used."
                     )
 
-                    if isinstance(self.operation, AnalogBlock):
-                        self.feature_map_strategy = Strategy.ANALOG
-                    else:
+                    if is_digital:
                         self.feature_map_strategy = Strategy.DIGITAL
+                    else:
+                        self.feature_map_strategy = Strategy.ANALOG
 
         if self.inputs is not None:
             assert (
-- 
2.43.0


From a65a42de41362a53e035564cef9b6beb7bb49982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:44 +0000
Subject: [PATCH 084/135] fix: feature maps accept sympy symbols as inputs

---
 qadence/constructors/feature_maps.py         | 2 +-
 qadence/constructors/rydberg_feature_maps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/constructors/feature_maps.py b/qadence/constructors/feature_maps.py
index 8df8311..eb33704 100644
--- a/qadence/constructors/feature_maps.py
+++ b/qadence/constructors/feature_maps.py
@@ -44,7 +44,7 @@ def fm_parameter_scaling(
         fparam = param
         fparam.trainable = False
     else:
-        fparam = FeatureParameter(param)
+        fparam = FeatureParameter(str(param))
 
     # Set feature and target range
     feature_range = _set_range(fm_type) if feature_range is None else feature_range
diff --git a/qadence/constructors/rydberg_feature_maps.py b/qadence/constructors/rydberg_feature_maps.py
index 3384507..f4e17ad 100644
--- a/qadence/constructors/rydberg_feature_maps.py
+++ b/qadence/constructors/rydberg_feature_maps.py
@@ -46,7 +46,7 @@ def rydberg_feature_map(
     )
     tower_detuning = max_abs_detuning / (sum(tower_coeffs[i] for i in range(n_qubits)))
 
-    param = FeatureParameter(param)
+    param = FeatureParameter(str(param))
     duration = 1000 * param / tower_detuning
     return kron(
         AnalogRot(
-- 
2.43.0


From 12b028c42f00788fd4c480367c0120d42c809eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 085/135] fix: testing uses the default test data and its
 number of batches

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index fdb81e4..71d2711 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -595,7 +595,7 @@ class Trainer(BaseTrainer):
         self.model.eval()
         test_loss_metrics = []
 
-        for batch in self._batch_iter(test_dataloader, self.num_training_batches):
+        for batch in self._batch_iter(self.test_dataloader, self.num_test_batches):
             self.on_test_batch_start(batch)
             loss_metrics = self.run_test_batch(batch)
             test_loss_metrics.append(loss_metrics)
-- 
2.43.0


From de922744166a59cd7cb17cbdc81ca25f5a326ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 086/135] fix: cosine annealing starts from the initial
 learning rate

---
 qadence/ml_tools/callbacks/callback.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/callback.py b/qadence/ml_tools/callbacks/callback.py
index 62b1563..bc766a1 100644
--- a/qadence/ml_tools/callbacks/callback.py
+++ b/qadence/ml_tools/callbacks/callback.py
@@ -656,7 +656,7 @@ class LRSchedulerCosineAnnealing(Callback):
             writer (BaseWriter): The writer object for logging.
         """
         for param_group in trainer.optimizer.param_groups:
-            max_lr = param_group["lr"]
+            max_lr = param_group.setdefault("initial_lr", param_group["lr"])
             new_lr = (
                 self.min_lr
                 + (max_lr - self.min_lr)
-- 
2.43.0


From 5156ff4cb9f64fd7a83006ad1dd8278be928c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 087/135] fix: callbacks at the start of a stage use the
 current iteration

---
 qadence/ml_tools/train_utils/base_trainer.py | 2 ++
 qadence/ml_tools/trainer.py                  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/qadence/ml_tools/train_utils/base_trainer.py b/qadence/ml_tools/train_utils/base_trainer.py
index c8844c4..bb46b35 100644
--- a/qadence/ml_tools/train_utils/base_trainer.py
+++ b/qadence/ml_tools/train_utils/base_trainer.py
@@ -382,6 +382,8 @@ class BaseTrainer:
                 end_event = f"{phase}_end"
 
                 self.training_stage = TrainingStage(start_event)
+                if getattr(self, "opt_result", None) is not None:
+                    self.opt_result.iteration = self.current_epoch
                 self.callback_manager.run_callbacks(trainer=self)
                 result = method(self, *args, **kwargs)
 
diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index 71d2711..46c4055 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -324,6 +324,7 @@ class Trainer(BaseTrainer):
         self._stop_training = torch.tensor(
             0, dtype=torch.int, device=self.accelerator.execution.device
         )
+        self.current_epoch = self.global_step
         # initalize config in the first process, and broadcast it to all processes
         if self.accelerator.rank == 0:
             self.config_manager.initialize_config()
-- 
2.43.0


From f94e05a0bf0ef05204c4a6ecb0ef47c2a5d61fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 088/135] fix: gradient bounds use the given number of
 variations

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index 46c4055..18b9b56 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -894,7 +894,7 @@ class Trainer(BaseTrainer):
 
         batch = next(iter(self._batch_iter(dataloader, num_batches=1)))
 
-        ic = InformationContent(self.model, self.loss_fn, batch, epsilons)
+        ic = InformationContent(self.model, self.loss_fn, batch, epsilons, variation_multiple)
 
         max_ic_lower_bound, max_ic_upper_bound = ic.get_grad_norm_bounds_max_IC()
         sensitivity_ic_upper_bound = ic.get_grad_norm_bounds_sensitivity_IC(eta)
-- 
2.43.0


From 8da8d08f4236bffd6aa84f70ad113166413819d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:34 +0000
Subject: [PATCH 089/135] fix: checkpoints of models and optimisers are told
 apart by their prefix

---
 qadence/ml_tools/callbacks/saveload.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 614f4ba..25afae9 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -16,7 +16,13 @@ logger = getLogger("ml_tools")
 
 def get_latest_checkpoint_name(folder: Path, type: str, device: str | torch.device = "cpu") -> Path:
     file = Path("")
-    files = [f for f in os.listdir(folder) if f.endswith(".pt") and type in f]
+    # names of checkpoints start with their type, other files only have to mention it
+    files = [
+        f
+        for f in os.listdir(folder)
+        if f.endswith(".pt")
+        and (f.startswith(f"{type}_") or (type in f and not f.startswith(("model_", "opt_"))))
+    ]
     if len(files) == 0:
         logger.error(f"Directory {folder} does not contain any {type} checkpoints.")
         pass
-- 
2.43.0


From 3f23fb7d2465f95a249a0fa7c84a4b1387a60094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:34 +0000
Subject: [PATCH 090/135] fix: iteration of a checkpoint is only used if its
 model could be loaded

---
 qadence/ml_tools/callbacks/saveload.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 25afae9..7ff1dda 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -139,13 +139,14 @@ def load_model(
         model_ckpt_name = get_latest_checkpoint_name(folder, "model", device)
 
     try:
-        iteration, model_dict = torch.load(
+        saved_iteration, model_dict = torch.load(
             folder / model_ckpt_name, weights_only=False, *args, **kwargs
         )
         if isinstance(model, (QuantumModel, QNN)):
             model.load_params_from_dict(model_dict)
         elif isinstance(model, Module):
             model.load_state_dict(model_dict, strict=True)
+        iteration = saved_iteration
         # Load model to a specific gpu device if specified
         pattern = re.compile("cuda:\d+$")
         if pattern.search(str(device)):
-- 
2.43.0


From 8be0be2a794a970bb572cd60ba1f8c719bcaf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:34 +0000
Subject: [PATCH 091/135] fix: damaged optimiser checkpoint does not stop
 training

---
 qadence/ml_tools/callbacks/saveload.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 7ff1dda..23df94e 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -168,15 +168,19 @@ def load_optimizer(
     if opt_ckpt_name == "":
         opt_ckpt_name = get_latest_checkpoint_name(folder, "opt", device)
     if os.path.isfile(folder / opt_ckpt_name):
-        if isinstance(optimizer, Optimizer):
-            (_, OptType, optimizer_state) = torch.load(folder / opt_ckpt_name, weights_only=False)
-            if isinstance(optimizer, OptType):
-                optimizer.load_state_dict(optimizer_state)
-
-        elif isinstance(optimizer, NGOptimizer):
-            loaded_optimizer = NGOptimizer.load(folder / opt_ckpt_name)
-            if loaded_optimizer.name == optimizer.name:
-                optimizer = loaded_optimizer
-        else:
+        if not isinstance(optimizer, (Optimizer, NGOptimizer)):
             raise NotImplementedError
+        try:
+            if isinstance(optimizer, Optimizer):
+                (_, OptType, optimizer_state) = torch.load(
+                    folder / opt_ckpt_name, weights_only=False
+                )
+                if isinstance(optimizer, OptType):
+                    optimizer.load_state_dict(optimizer_state)
+            else:
+                loaded_optimizer = NGOptimizer.load(folder / opt_ckpt_name)
+                if loaded_optimizer.name == optimizer.name:
+                    optimizer = loaded_optimizer
+        except Exception as e:
+            logger.warning(f"Unable to load optimizer checkpoint {opt_ckpt_name} due to {e}.")
     return optimizer
-- 
2.43.0


From a325531875b84d23bf78c590121b1c3c315b8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 092/135] fix: eigenvalues of the U gate

---
 qadence/operations/parametric.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 93452b7..9edaff7 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 from logging import getLogger
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor, cdouble
@@ -187,10 +186,13 @@ class U(ParametricBlock):
 
     @property
     def eigenvalues(self) -> Tensor:
-        phi = evaluate(self.parameters.phi)
-        theta = evaluate(self.parameters.theta)
-        omega = evaluate(self.parameters.omega)
-        lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
+        phi = evaluate(self.parameters.phi, as_torch=True)
+        theta = evaluate(self.parameters.theta, as_torch=True)
+        omega = evaluate(self.parameters.omega, as_torch=True)
+        # a unitary of determinant one has the eigenvalues exp(+-i * alpha)
+        cos_alpha = torch.cos((phi + omega) / 2) * torch.cos(theta / 2)
+        sin_alpha = torch.sqrt(torch.clamp(1 - cos_alpha**2, min=0.0))
+        lmbd = torch.complex(cos_alpha, -sin_alpha)
         return torch.cat((lmbd, lmbd.conj()))
 
     @classmethod
-- 
2.43.0


From ccb77f973dcb7d4c9108ab36ea5ca5038a1d05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 093/135] fix: eigenvalues of the MCZ and CZ gates

---
 qadence/operations/control_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index 6320c5c..21990af 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -73,11 +73,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
+        return torch.cat((torch.tensor([-2], dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_supports - 1)))
+        return torch.cat((torch.tensor([-1], dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
-- 
2.43.0


From eaabf79d1d9140c6fa8a620b38f3532292e788a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 094/135] fix: eigenvalues of a scaled block are scaled

---
 qadence/blocks/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index a52e4ba..5bb8c18 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -272,7 +272,7 @@ class ScaleBlock(ParametricBlock):
 
     @property
     def eigenvalues(self) -> torch.Tensor:
-        return self.block.eigenvalues
+        return evaluate(self.scale, as_torch=True) * self.block.eigenvalues
 
     @property
     def _block_title(self) -> str:
-- 
2.43.0


From add7d47e1b4cf47da924a9715b5bfaaa8172ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 095/135] fix: spectra of the generators of the S and T gates

---
 qadence/operations/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index ec36059..cc4e04d 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -202,7 +202,7 @@ class S(PrimitiveBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return tensor([0, 1], dtype=cdouble)
+        return tensor([0, 2], dtype=cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
@@ -227,7 +227,7 @@ class SDagger(PrimitiveBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return tensor([0, 1], dtype=cdouble)
+        return tensor([0, 2], dtype=cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
@@ -318,7 +318,7 @@ class T(PrimitiveBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.tensor([0, 1], dtype=cdouble)
+        return torch.tensor([0, 2], dtype=cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
@@ -344,7 +344,7 @@ class TDagger(PrimitiveBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.tensor([0, 1], dtype=cdouble)
+        return torch.tensor([0, 2], dtype=cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
-- 
2.43.0


From 7913b8ebba79793d54e68a0654f060adb7e46f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 096/135] fix: generator of the CSWAP gate

---
 qadence/operations/control_ops.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index 21990af..980523a 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -15,7 +15,7 @@ from qadence.blocks import (
 )
 from qadence.blocks.utils import (
     add,  # noqa
-    chain,
+    chain,  # noqa
     kron,
 )
 from qadence.noise import NoiseHandler
@@ -302,25 +302,12 @@ class CSWAP(ControlBlock):
         if isinstance(control, tuple):
             control = control[0]
 
-        a00m = -N(target=control)
-        a00p = -N(target=control, state="0")
-        a11 = -N(target=target1)
-        a22 = -N(target=target2, state="0")
-        a12 = 0.5 * (chain(X(target1), Z(target1)) + X(target1))
-        a21 = 0.5 * (chain(Z(target2), X(target2)) + X(target2))
-        no_effect = kron(a00m, I(target1), I(target2))
-        swap_effect = (
-            kron(a00p, -1.0 * a22, a11)
-            + kron(a00p, -1.0 * a11, a22)
-            + kron(a00p, a12, a21)
-            + kron(a00p, a21, a12)
-        )
-        self.generator = no_effect + swap_effect
+        self.generator = kron(N(control), SWAP(target1, target2).generator)
         super().__init__((control,), SWAP(target1, target2), noise=noise)
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.tensor((1, -1, 1, 1, 1, 1, 1, 1), dtype=torch.cdouble)
+        return torch.tensor((-2, 0, 0, 0, 0, 0, 0, 0), dtype=torch.cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
-- 
2.43.0


From f9cc303fa66abee2a7da55c3e8ceb0a2a555714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 097/135] fix: parametric blocks are trainable if one of their
 parameters is

---
 qadence/blocks/primitive.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 5bb8c18..71082fd 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -148,12 +148,11 @@ class ParametricBlock(PrimitiveBlock):
 
     @property
     def trainable(self) -> bool:
-        for expr in self.parameters.expressions():
-            if expr.is_number:
-                return False
-            else:
-                return any(not p.trainable for p in expr.free_symbols)
-        return True
+        return any(
+            getattr(p, "trainable", False)
+            for expr in self.parameters.expressions()
+            for p in expr.free_symbols
+        )
 
     @abstractmethod
     def num_parameters(cls) -> int:
-- 
2.43.0


From 1edc5f8004c617832be455dbde82d68baa02e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 098/135] fix: scales and scaled blocks are found by
 containment

---
 qadence/blocks/composite.py |  6 +++---
 qadence/blocks/primitive.py | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 524bd6b..64d36c6 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -13,7 +13,7 @@ from qadence.parameters import Parameter
 from qadence.qubit_support import QubitSupport, QubitSupportType
 
 from .abstract import AbstractBlock
-from .primitive import ParametricBlock
+from .primitive import ParametricBlock, ScaleBlock
 
 
 class CompositeBlock(AbstractBlock):
@@ -88,7 +88,7 @@ class CompositeBlock(AbstractBlock):
         # Check containment by instance.
         if isinstance(other, AbstractBlock):
             for b in self.blocks:
-                if isinstance(b, CompositeBlock) and other in b:
+                if isinstance(b, (CompositeBlock, ScaleBlock)) and other in b:
                     return True
                 elif b == other:
                     return True
@@ -100,7 +100,7 @@ class CompositeBlock(AbstractBlock):
         # Check containment by type.
         elif isinstance(other, type):
             for b in self.blocks:
-                if isinstance(b, CompositeBlock) and other in b:
+                if isinstance(b, (CompositeBlock, ScaleBlock)) and other in b:
                     return True
                 elif type(b) == other:
                     return True
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 71082fd..28d78ac 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -309,15 +309,23 @@ class ScaleBlock(ParametricBlock):
         from qadence.blocks.composite import CompositeBlock
 
         if isinstance(other, AbstractBlock):
-            if isinstance(self.block, CompositeBlock) and other in self.block:
+            if isinstance(self.block, (CompositeBlock, ScaleBlock)) and other in self.block:
                 return True
             else:
                 return self.block == other
 
         if isinstance(other, Parameter):
+            if other in self.scale.free_symbols:
+                return True
             if isinstance(self.block, ParametricBlock) or isinstance(self.block, CompositeBlock):
                 return other in self.block
             return False
+
+        # Check containment by type.
+        if isinstance(other, type):
+            if isinstance(self.block, (CompositeBlock, ScaleBlock)) and other in self.block:
+                return True
+            return type(self.block) == other
         else:
             raise TypeError(
                 f"Can not check for containment between {type(self)} and {type(other)}."
-- 
2.43.0


From 8c46e33bbd0ae290968de9fa8a6c9adf3e769a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:24 +0000
Subject: [PATCH 099/135] fix: tags of scaled blocks are found

---
 qadence/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/circuit.py b/qadence/circuit.py
index ed67b90..e4c093f 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -8,7 +8,7 @@ from typing import Iterable
 
 from sympy import Basic
 
-from qadence.blocks import AbstractBlock, AnalogBlock, CompositeBlock, chain
+from qadence.blocks import AbstractBlock, AnalogBlock, CompositeBlock, ScaleBlock, chain
 from qadence.blocks.utils import parameters, primitive_blocks, unique_parameters
 from qadence.parameters import Parameter
 from qadence.register import Register
@@ -137,6 +137,8 @@ class QuantumCircuit:
                 blocks += [block]
             if isinstance(block, CompositeBlock):
                 blocks += flatten(*[_get_block(b) for b in block.blocks])
+            elif isinstance(block, ScaleBlock):
+                blocks += _get_block(block.block)
             return blocks
 
         return _get_block(self.block)
-- 
2.43.0


From 0b48ac63945a043a38a89f14f46d24b7c6ac6193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 100/135] fix: a parameter made from a parameter is that
 parameter

---
 qadence/parameters.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 575cc61..1557ac9 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -112,12 +112,7 @@ class Parameter(Symbol):
             else:
                 return Array(name.detach().numpy())
         elif isinstance(name, Parameter):
-            p = super().__new__(cls, name.name, **assumptions)
-            p.name = name.name
-            p.trainable = name.trainable
-            p.value = name.value
-            p.is_time = name.is_time
-            return p
+            return name
         elif isinstance(name, (Basic, Expr)):
             if name.is_number:
                 return sympify(evaluate(name))
-- 
2.43.0


From 26ee7731b8d1e2e57d2cada07974ea1ab70f822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 101/135] fix: parameters of generators are found by
 containment

---
 qadence/blocks/primitive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 28d78ac..8db4612 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -367,6 +367,14 @@ class TimeEvolutionBlock(ParametricBlock):
     def has_parametrized_generator(self) -> bool:
         return not isinstance(self.generator, AbstractBlock)
 
+    def __contains__(self, other: object) -> bool:
+        from qadence.blocks.composite import CompositeBlock
+
+        if super().__contains__(other):
+            return True
+        generator = self.generator
+        return isinstance(generator, (ParametricBlock, CompositeBlock)) and other in generator
+
 
 class ControlBlock(PrimitiveBlock):
     """The abstract ControlBlock."""
-- 
2.43.0


From 388f3cc034b676c7ca619a224bf0854ca467d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:44 +0000
Subject: [PATCH 102/135] fix: matrix generators are no variational parameters

---
 qadence/blocks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index bdb5d81..6776970 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -392,7 +392,7 @@ def has_duplicate_vparams(block: AbstractBlock) -> bool:
             duplicated parameters or not
     """
     params = parameters(block)
-    non_number = [p for p in params if not p.is_number]
+    non_number = [p for p in params if not isinstance(p, Array) and not p.is_number]
     trainables = [p for p in non_number if p.trainable]
     return len(set(trainables)) != len(trainables)
 
-- 
2.43.0


From 55bb462fce962109c3dd28bb94cf6ec7742b29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:15 +0000
Subject: [PATCH 103/135] fix: generator of the SWAP gate

---
 qadence/operations/primitive.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index cc4e04d..8c2b573 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -16,7 +16,6 @@ from qadence.blocks import (
 )
 from qadence.blocks.primitive import ProjectorBlock
 from qadence.blocks.utils import (
-    chain,
     kron,
 )
 from qadence.noise import NoiseHandler
@@ -365,12 +364,12 @@ class SWAP(PrimitiveBlock):
         target: int,
         noise: NoiseHandler | None = None,
     ) -> None:
-        a11 = 0.5 * (Z(control) - I(control))
-        a22 = -0.5 * (Z(target) + I(target))
-        a12 = 0.5 * (chain(X(control), Z(control)) + X(control))
-        a21 = 0.5 * (chain(Z(target), X(target)) + X(target))
-        self.generator = (
-            kron(-1.0 * a22, a11) + kron(-1.0 * a11, a22) + kron(a12, a21) + kron(a21, a12)
+        # SWAP - I, which has the eigenvalues 0 and -2
+        self.generator = 0.5 * (
+            kron(X(control), X(target))
+            + kron(Y(control), Y(target))
+            + kron(Z(control), Z(target))
+            - kron(I(control), I(target))
         )
         super().__init__((control, target), noise=noise)
 
-- 
2.43.0


From 5f95d4e1a4829e2c2f7cec8a9460a417c5475ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:30 +0000
Subject: [PATCH 104/135] fix: names of generator parameters do not clash with
 those of the evolution

---
 qadence/operations/ham_evo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 2a53a3e..5a75592 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -107,7 +107,7 @@ class HamEvo(TimeEvolutionBlock):
         if isinstance(generator, AbstractBlock):
             qubit_support = generator.qubit_support
             if generator.is_parametric:
-                params = {str(e): e for e in expressions(generator)}
+                params = {f"generator: {e}": e for e in expressions(generator)}
             if generator.is_time_dependent:
                 if isinstance(duration, str):
                     duration = Parameter(duration, trainable=False)
@@ -140,7 +140,7 @@ class HamEvo(TimeEvolutionBlock):
                 raise TypeError(
                     "Duration argument is only supported for time-dependent generators."
                 )
-            params = {str(generator): generator}
+            params = {f"generator: {generator}": generator}
         else:
             raise TypeError(
                 f"Generator of type {type(generator)} not supported.\
-- 
2.43.0


From c87419681dee5006d2003ff24f77fa048852240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:36 +0000
Subject: [PATCH 105/135] fix: parametric gates before a time-dependent
 evolution

---
 qadence/backends/pyqtorch/backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index ba9988c..49d8ffd 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -19,7 +19,8 @@ from qadence.backends.utils import (
     unpyqify,
     validate_state,
 )
-from qadence.blocks import AbstractBlock
+from qadence.blocks import AbstractBlock, TimeEvolutionBlock
+from qadence.blocks.utils import primitive_blocks
 from qadence.circuit import QuantumCircuit
 from qadence.measurements import Measurements
 from qadence.mitigations.protocols import Mitigations, apply_mitigation
@@ -128,6 +129,14 @@ class Backend(BackendInterface):
             circuit = deepcopy(circuit)
             set_noise(circuit, self.config.noise)
 
+        # time-dependent generators need expression-level parameters, in all of the circuit
+        if any(
+            getattr(b.generator, "is_time_dependent", False)
+            for b in primitive_blocks(circuit.block)
+            if isinstance(b, TimeEvolutionBlock)
+        ):
+            self.config._use_gate_params = False
+
         ops = convert_block(circuit.block, n_qubits=circuit.n_qubits, config=self.config)
         readout_noise = (
             convert_readout_noise(circuit.n_qubits, self.config.noise)
-- 
2.43.0


From b07767a182b060468a167002558111129eadb306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:36 +0000
Subject: [PATCH 106/135] fix: backends do not change the configuration they
 are given

---
 qadence/backends/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/backends/api.py b/qadence/backends/api.py
index d6d3de7..8001d72 100644
--- a/qadence/backends/api.py
+++ b/qadence/backends/api.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import copy
+
 from qadence.backend import Backend, BackendConfiguration
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.extensions import (
@@ -39,6 +41,8 @@ def backend_factory(
                     f"Given config class '{type(configuration)}' does not match the backend",
                     f" class: '{BackendCls}'. Expected: '{type(expected_cfg)}.'",
                 )
+            # the backend sets options of its own: do not share the one given by the user
+            configuration = copy(configuration)
 
         # Instantiate the backend
         backend_inst = BackendCls(  # type: ignore[operator]
-- 
2.43.0


From eb4685c3d75616bbd8a58299eadcf423e9851491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:18 +0000
Subject: [PATCH 107/135] fix: a noisy run on pulser does not make later runs
 noisy

---
 qadence/backends/pulser/backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index ed43ee8..fbb64b9 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from collections import Counter
 from collections.abc import Iterable
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from logging import getLogger
 from typing import Any
 
@@ -254,11 +254,12 @@ class Backend(BackendInterface):
                 "noise": noise.protocol[-1].lower(),
                 noise.protocol[-1].lower() + "_rate": noise_prob,
             }
-            self.config.sim_config = SimConfig(**sim_config)
+            # only for this run: the backend itself stays noiseless
+            config = replace(self.config, sim_config=SimConfig(**sim_config))
 
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
-                sim_result: CoherentResults = simulate_sequence(sequence, self.config, state)
+                sim_result: CoherentResults = simulate_sequence(sequence, config, state)
                 final_state = sim_result.get_final_state().data.to_array()
                 batched_dm[i] = np.flip(final_state)
             return torch.from_numpy(batched_dm)
-- 
2.43.0


From 3f293f4cc96d5bbc2e3bc8a1e92bbc35e873a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 108/135] fix: parametric blocks occurring twice in a circuit
 on pulser

---
 qadence/backends/pulser/pulses.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 57d129a..cb0987b 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -47,6 +47,13 @@ supported_gates = [
 ]
 
 
+def declare_variable(sequence: Sequence, name: str) -> VariableItem:
+    """Declare a variable of size 1, or return it if the block occurs more than once."""
+    if name in sequence.declared_variables:
+        return sequence.declared_variables[name][0]
+    return sequence.declare_variable(name)
+
+
 def add_addressing_pattern(
     sequence: Sequence,
     pattern: AddressingPattern,
@@ -130,7 +137,7 @@ def add_pulses(
         # Apply empty pulse if it's a global InteractionBlock
         if block.qubit_support.is_global:
             (uuid, duration) = block.parameters.uuid_param("duration")
-            t = evaluate(duration) if duration.is_number else sequence.declare_variable(uuid)
+            t = evaluate(duration) if duration.is_number else declare_variable(sequence, uuid)
             pulse = Pulse.ConstantPulse(duration=t, amplitude=0, detuning=0, phase=0)
             sequence.add(pulse, GLOBAL_CHANNEL, "wait-for-all")
 
@@ -153,10 +160,10 @@ def add_pulses(
         (p_uuid, phase) = ps.uuid_param("phase")
         (d_uuid, detuning) = ps.uuid_param("delta")
 
-        a = evaluate(alpha) if alpha.is_number else sequence.declare_variable(a_uuid)
-        w = evaluate(omega) if omega.is_number else sequence.declare_variable(w_uuid)
-        p = evaluate(phase) if phase.is_number else sequence.declare_variable(p_uuid)
-        d = evaluate(detuning) if detuning.is_number else sequence.declare_variable(d_uuid)
+        a = evaluate(alpha) if alpha.is_number else declare_variable(sequence, a_uuid)
+        w = evaluate(omega) if omega.is_number else declare_variable(sequence, w_uuid)
+        p = evaluate(phase) if phase.is_number else declare_variable(sequence, p_uuid)
+        d = evaluate(detuning) if detuning.is_number else declare_variable(sequence, d_uuid)
 
         # calculate generator eigenvalues, which are unknown if they depend on feature parameters
         gen_symbols = omega.free_symbols | phase.free_symbols | detuning.free_symbols
@@ -173,14 +180,14 @@ def add_pulses(
 
     elif isinstance(block, AnalogEntanglement):
         (uuid, duration) = block.parameters.uuid_param("duration")
-        t = evaluate(duration) if duration.is_number else sequence.declare_variable(uuid)
+        t = evaluate(duration) if duration.is_number else declare_variable(sequence, uuid)
         sequence.add(
             entangle_pulse(t, global_channel, config), GLOBAL_CHANNEL, protocol="wait-for-all"
         )
 
     elif isinstance(block, (RX, RY, RZ)):
         (uuid, p) = block.parameters.uuid_param("parameter")
-        angle = evaluate(p) if p.is_number else sequence.declare_variable(uuid)
+        angle = evaluate(p) if p.is_number else declare_variable(sequence, uuid)
         if isinstance(block, RX):
             pulse = rx(angle)
         elif isinstance(block, RY):
-- 
2.43.0


From 01f67fcc15e62350ab32cfb31d45f6f3aaefcb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 109/135] fix: run a pulser sequence without parameters more
 than once

---
 qadence/backends/pulser/backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index fbb64b9..c97b996 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -5,6 +5,7 @@ from collections.abc import Iterable
 from dataclasses import dataclass, field, replace
 from logging import getLogger
 from typing import Any
+from warnings import catch_warnings, simplefilter
 
 import numpy as np
 import qutip
@@ -170,7 +171,10 @@ class Backend(BackendInterface):
             raise ValueError(f"Please, provide values for the following parameters: {missing}")
 
         if param_values == {}:
-            return circuit.native
+            # a copy: patterns and measurements are added to the sequence of each run
+            with catch_warnings():
+                simplefilter("ignore")
+                return circuit.native.build()
 
         numpy_param_values = {
             k: v.detach().cpu().numpy()
-- 
2.43.0


From fa0911b8ac72252b22a136ec1c2258aa392f5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 110/135] fix: order of batch and observables of noisy
 expectation values on pulser

---
 qadence/backends/pulser/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index c97b996..4134c18 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -371,6 +371,9 @@ class Backend(BackendInterface):
                     for obs in observable
                 ]
                 res = torch.stack([torch.transpose(torch.stack(res), 0, -1) for res in res_list])
+                if not isinstance(noise.options[-1].get("noise_probs", None), Iterable):
+                    # batch of parameter values first, as without noise
+                    res = torch.transpose(res, 0, 1)
                 return res.real
         elif mitigation is not None:
             logger.warning(
-- 
2.43.0


From 5a15bb636e42bfcf5cf38f65be5ec0ceb2f60b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:58 +0000
Subject: [PATCH 111/135] fix: analog noise of probability zero on pulser

---
 qadence/backends/pulser/backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index 4134c18..c91bbff 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -264,8 +264,11 @@ class Backend(BackendInterface):
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
                 sim_result: CoherentResults = simulate_sequence(sequence, config, state)
-                final_state = sim_result.get_final_state().data.to_array()
-                batched_dm[i] = np.flip(final_state)
+                final_state = sim_result.get_final_state()
+                if final_state.isket:
+                    # noise of probability zero does not lead to a density matrix
+                    final_state = final_state.proj()
+                batched_dm[i] = np.flip(final_state.data.to_array())
             return torch.from_numpy(batched_dm)
 
         # Pulser requires numpy types.
-- 
2.43.0


From 9f15b7958c0a73df6f84438d208de1531bdaa697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:10 +0000
Subject: [PATCH 112/135] fix: expectation values of Y on pulser

---
 qadence/backends/pulser/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/convert_ops.py b/qadence/backends/pulser/convert_ops.py
index 0e71e24..baab030 100644
--- a/qadence/backends/pulser/convert_ops.py
+++ b/qadence/backends/pulser/convert_ops.py
@@ -50,6 +50,6 @@ class PulserObservable(Module):
                 self.block, values, qubit_support=qubit_support, endianness=endianness  # type: ignore [arg-type]  # noqa
             ).squeeze(0)
         if noise is None:  # Compute expectations for state vector.
-            return torch.sum(torch.matmul(state, block_mat) * state.conj(), dim=1)
+            return torch.sum(torch.matmul(state, block_mat.mT) * state.conj(), dim=1)
         else:  # Compute expectations for density matrices.
             return torch.trace(torch.matmul(block_mat, state))
-- 
2.43.0


From cff5df507060a8d2ef6f5fc1f16abfe62496587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 113/135] fix: gradients of analog rotations on pulser

---
 qadence/backends/pulser/pulses.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index cb0987b..9d7b858 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -168,7 +168,12 @@ def add_pulses(
         # calculate generator eigenvalues, which are unknown if they depend on feature parameters
         gen_symbols = omega.free_symbols | phase.free_symbols | detuning.free_symbols
         if all(s.trainable for s in gen_symbols):
-            block.eigenvalues_generator = block.compute_eigenvalues_generator(block, qc_register)
+            # the shifted parameter is alpha: evolving under H for alpha / sqrt(omega^2 + delta^2)
+            # is a rotation exp(-i * alpha * G / 2) with G = 2 * H / sqrt(omega^2 + delta^2)
+            rabi = evaluate(omega**2 + detuning**2) ** 0.5
+            if rabi > 0:
+                eigenvalues = block.compute_eigenvalues_generator(block, qc_register)
+                block.eigenvalues_generator = 2 * eigenvalues / rabi
 
         if block.qubit_support.is_global:
             pulse = analog_rot_pulse(a, w, p, d, global_channel, config)
-- 
2.43.0


From a7f4e3b092cd0c146b81ba7d2b96265b0241f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:48 +0000
Subject: [PATCH 114/135] fix: information content varies only trainable
 parameters

---
 qadence/ml_tools/information/information_content.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/ml_tools/information/information_content.py b/qadence/ml_tools/information/information_content.py
index d9d5b19..3b35498 100644
--- a/qadence/ml_tools/information/information_content.py
+++ b/qadence/ml_tools/information/information_content.py
@@ -119,7 +119,11 @@ class InformationContent:
         self.param_shapes = {}
         self.total_params = 0
 
+        # only variational parameters span the loss landscape: constants and frozen parameters of
+        # the model keep their values
         for name, param in model.named_parameters():
+            if not param.requires_grad:
+                continue
             self.param_shapes[name] = param.shape
             self.total_params += param.numel()
         self.n_variations = variation_multiple * self.total_params
-- 
2.43.0


From 94d298a5fa46c9339e98d52dddd56428c98da3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:48 +0000
Subject: [PATCH 115/135] fix: information content of models with scalar
 parameters

---
 qadence/ml_tools/information/information_content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/information/information_content.py b/qadence/ml_tools/information/information_content.py
index 3b35498..38a8a87 100644
--- a/qadence/ml_tools/information/information_content.py
+++ b/qadence/ml_tools/information/information_content.py
@@ -141,7 +141,7 @@ class InformationContent:
         start_idx = 0
 
         for name, shape in self.param_shapes.items():
-            param_size = torch.prod(torch.tensor(shape)).item()
+            param_size = shape.numel()
             param_variations[name] = self.all_variations[
                 :, start_idx : start_idx + param_size
             ].view(self.n_variations, *shape)
-- 
2.43.0


From 43d2eca4db332dcb7941e4da9120f4a0327d80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:07 +0000
Subject: [PATCH 116/135] fix: odd repetitions of QCNN layers on two or an odd
 number of qubits

---
 qadence/ml_tools/constructors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 5d19e84..d5d2b5f 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -1031,7 +1031,7 @@ def _create_conv_layer(
             if rep % 2 == 0:  # Even d: regular behavior
                 pairs = zip(current_indices[::2], current_indices[1::2])
             else:  # Odd d: shift downward, leaving qubits 0 and 7 free
-                pairs = zip(current_indices[1:-1:2], current_indices[2:-1:2])
+                pairs = zip(current_indices[1::2], current_indices[2::2])
 
             # Build the gate sequence for each pair
             for control, target in pairs:
@@ -1051,7 +1051,9 @@ def _create_conv_layer(
                 tag(W_pairs, f"W{control,target}")
                 rep_kron.append(W_pairs)
 
-            layer_reps.append(kron(*rep_kron))
+            # two qubits have no odd pair
+            if len(rep_kron) > 0:
+                layer_reps.append(kron(*rep_kron))
 
         # Combine all repetitions using `chain`
         current_layer.append(chain(*layer_reps))
-- 
2.43.0


From f58652ba5eba5cab2abf10e2702ae320f896a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:19 +0000
Subject: [PATCH 117/135] fix: refuse workloads in which only some parameter
 values have too many dimensions

---
 qadence/pasqal_cloud_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/pasqal_cloud_connection.py b/qadence/pasqal_cloud_connection.py
index 71ef45e..f28d023 100644
--- a/qadence/pasqal_cloud_connection.py
+++ b/qadence/pasqal_cloud_connection.py
@@ -61,7 +61,7 @@ class WorkloadSpec:
         if self.parameter_values is None:
             return
         parameter_sizes = [value.size() for value in list(self.parameter_values.values())]
-        if all(len(size) > 1 for size in parameter_sizes):
+        if any(len(size) > 1 for size in parameter_sizes):
             raise ValueError("The dimension of the parameters in parameter_values must be 0 or 1")
         parameter_lengths = [size[0] for size in parameter_sizes if len(size) == 1]
         if not all(item == parameter_lengths[0] for item in parameter_lengths):
-- 
2.43.0


From 52e4ea63515f75f2e4ba094cfe24e565275a94fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:19 +0000
Subject: [PATCH 118/135] fix: ask for a workload's status at least once before
 timing out

---
 qadence/pasqal_cloud_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/pasqal_cloud_connection.py b/qadence/pasqal_cloud_connection.py
index f28d023..602b61f 100644
--- a/qadence/pasqal_cloud_connection.py
+++ b/qadence/pasqal_cloud_connection.py
@@ -224,7 +224,7 @@ def get_result(
     Returns:
         The workload result if its status is "DONE" as a `pasqal_cloud.Workload` object.
     """
-    max_refresh_count = int(timeout // refresh_time)
+    max_refresh_count = max(1, int(timeout // refresh_time))
     for _ in range(max_refresh_count):
         try:
             result = check_status(connection, workload_id)
-- 
2.43.0


From 33f9b440a8029f1e27421d397f7c6899f6283559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:39 +0000
Subject: [PATCH 119/135] fix: display ignored its layout, theme and fill
 arguments

---
 qadence/draw/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/draw/__init__.py b/qadence/draw/__init__.py
index d15ee2d..4a6bbbf 100644
--- a/qadence/draw/__init__.py
+++ b/qadence/draw/__init__.py
@@ -42,7 +42,7 @@ def display(
     display(b, size="1,1", theme="dark")
     ```
     """
-    return make_diagram(x, **kwargs).show()
+    return make_diagram(x, qcd=qcd, layout=layout, theme=theme, fill=fill, **kwargs).show()
 
 
 def savefig(x: Any, filename: str, *args: Any, **kwargs: Any) -> None:
-- 
2.43.0


From bf02835647ce84d7fe3b76217faa234e8e4ae14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:39 +0000
Subject: [PATCH 120/135] fix: drawing circuits with idle qubits or blocks with
 global support

---
 qadence/draw/utils.py      | 2 +-
 qadence/draw/vizbackend.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/draw/utils.py b/qadence/draw/utils.py
index 079d2d5..2495838 100644
--- a/qadence/draw/utils.py
+++ b/qadence/draw/utils.py
@@ -169,7 +169,7 @@ def _(
         from qadence.transpile import transpile
 
         block = transpile(
-            lambda b: fill_identities(b, 0, b.n_qubits - 1),
+            lambda b: fill_identities(b, 0, (kwargs.get("nb_wires") or b.n_qubits) - 1),
             # FIXME: enabling flatten can sometimes prevent wires from bending
             # but flatten currently gets rid of some tags... fix that and comment in:
             # flatten
diff --git a/qadence/draw/vizbackend.py b/qadence/draw/vizbackend.py
index 6ba0d4e..7da9167 100644
--- a/qadence/draw/vizbackend.py
+++ b/qadence/draw/vizbackend.py
@@ -308,7 +308,7 @@ class QuantumCircuitDiagram:
                 if getattr(node, "swap_departure_node", None):
                     swap_gates.append([node.swap_departure_node, node])  # type:ignore
             end_node = self._create_end_node(i)
-            self._connect(wire[-1], end_node)
+            self._connect(prev_node, end_node)
 
         for cluster in reversed(self._clusters):
             cluster.generate()
-- 
2.43.0


From 11e76646897a9b67100172a88fd87c211657f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:39 +0000
Subject: [PATCH 121/135] fix: drawing models without an observable or with
 idle qubits

---
 qadence/draw/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/draw/utils.py b/qadence/draw/utils.py
index 2495838..7f89c8f 100644
--- a/qadence/draw/utils.py
+++ b/qadence/draw/utils.py
@@ -142,7 +142,8 @@ def _(circuit: QuantumCircuit, *args: Any, **kwargs: Any) -> QuantumCircuitDiagr
 
 @make_diagram.register
 def _(model: QuantumModel, *args: Any, **kwargs: Any) -> QuantumCircuitDiagram:
-    if model.out_features is not None:
+    circuit = model._circuit.original
+    if model.out_features:
         if model.out_features > 1:
             raise ValueError("Cannot visualize QuantumModel with more than one observable.")
 
@@ -150,10 +151,10 @@ def _(model: QuantumModel, *args: Any, **kwargs: Any) -> QuantumCircuitDiagram:
         if not isinstance(obs.tag, str):
             obs.tag = "Obs."
 
-        block: AbstractBlock = chain(model._circuit.original.block, obs)
+        block: AbstractBlock = chain(circuit.block, obs)
     else:
-        block = model._circuit.original.block
-    return make_diagram(block, *args, **kwargs)
+        block = circuit.block
+    return make_diagram(block, *args, nb_wires=circuit.n_qubits, **kwargs)
 
 
 @make_diagram.register
-- 
2.43.0


From fa52518db3b9867eb096e6414071d3fb9b472061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:53 +0000
Subject: [PATCH 122/135] fix: drawing gates with several parameters

---
 qadence/draw/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/qadence/draw/utils.py b/qadence/draw/utils.py
index 7f89c8f..a71fd00 100644
--- a/qadence/draw/utils.py
+++ b/qadence/draw/utils.py
@@ -39,10 +39,11 @@ def fixed(expr: sympy.Basic) -> bool:
     return expr.is_number  # type: ignore
 
 
-def trainable(expr: sympy.Basic) -> bool:
-    for s in expr.free_symbols:
-        if hasattr(s, "trainable") and s.trainable:
-            return True
+def trainable(*exprs: sympy.Basic) -> bool:
+    for expr in exprs:
+        for s in expr.free_symbols:
+            if hasattr(s, "trainable") and s.trainable:
+                return True
     return False
 
 
@@ -116,8 +117,7 @@ def _expr_string(expr: sympy.Basic) -> str:
 def _get_label(block: AbstractBlock) -> str:
     name = sympy.Function(type(block).__name__)
     if isinstance(block, ParametricBlock):
-        p = block.parameters.parameter
-        expr = name(p)
+        expr = name(*block.parameters.expressions())
     else:
         expr = name
     return _expr_string(expr) if USE_SUBSCRIPTS else format_parameter(expr)
@@ -244,10 +244,11 @@ def _(
 
     elif isinstance(block, ParametricBlock):
         wire = block.qubit_support[0]
+        exprs = tuple(block.parameters.expressions())
 
-        if block.parameters.parameter.is_number:
+        if all(map(fixed, exprs)):
             attrs = qcd.theme.get_fixed_parametric_node_attr()
-        elif trainable(block.parameters.parameter):
+        elif trainable(*exprs):
             attrs = qcd.theme.get_variational_parametric_node_attr()
         else:
             attrs = qcd.theme.get_feature_parametric_node_attr()
-- 
2.43.0


From 2fca581d9ba30022553243d7a904fc6f38e3f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:53 +0000
Subject: [PATCH 123/135] fix: drawing projectors and matrices on several
 qubits

---
 qadence/draw/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/draw/utils.py b/qadence/draw/utils.py
index a71fd00..ad2e125 100644
--- a/qadence/draw/utils.py
+++ b/qadence/draw/utils.py
@@ -267,6 +267,10 @@ def _(
                 )
             qcd.create_node(wire, label=_get_label(block), **attrs)  # type: ignore[arg-type]
 
+    elif isinstance(block, PrimitiveBlock) and block.n_supports > 1:
+        start, stop = min(block.qubit_support), block.n_qubits
+        _make_cluster(qcd, [block.name], start, stop, qcd.theme.get_hamevo_cluster_attr())
+
     elif isinstance(block, PrimitiveBlock):
         wire = block.qubit_support[0]
         attrs = qcd.theme.get_primitive_node_attr()
-- 
2.43.0


From 08eeecec94111dfd2552aba49cdba374e5a9ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:13 +0000
Subject: [PATCH 124/135] fix: formatted numbers and names lost their last
 characters

---
 qadence/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qadence/utils.py b/qadence/utils.py
index df822f0..586e9de 100644
--- a/qadence/utils.py
+++ b/qadence/utils.py
@@ -192,10 +192,9 @@ def format_parameter(p: sympy.Basic, num_digits: int = 3) -> str:
         return expr.xreplace({n: round(n, num_digits) for n in expr.atoms(sympy.Number)})
 
     expr = round_expr(p, num_digits)
-    conv_str = str(expr)
-    if expr.is_real and len(conv_str) > num_digits + 2:
-        conv_str = conv_str[0 : num_digits + 2]
-    return conv_str
+    if expr.is_Float:
+        return f"{expr:.{num_digits}f}"
+    return str(expr)
 
 
 def print_sympy_expr(expr: sympy.Expr, num_digits: int = 3) -> str:
-- 
2.43.0


From d23238c354f3553b3daed265fc7dd2adc64bff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:14 +0000
Subject: [PATCH 125/135] fix: printed expressions of operators with zero terms
 or sums as coefficients

---
 qadence/utils.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/qadence/utils.py b/qadence/utils.py
index 586e9de..6221706 100644
--- a/qadence/utils.py
+++ b/qadence/utils.py
@@ -330,38 +330,34 @@ def block_to_mathematical_expression(block: Tree | AbstractBlock) -> str:
     """
     block_tree: Tree = block.__rich_tree__() if isinstance(block, AbstractBlock) else block
     block_title = block_tree.label if isinstance(block_tree.label, str) else ""
+    children = [block_to_mathematical_expression(child) for child in block_tree.children]
+    # terms which are zero have an empty expression
     if "AddBlock" in block_title:
-        block_title = " + ".join(
-            [block_to_mathematical_expression(block_child) for block_child in block_tree.children]
-        )
-    if "KronBlock" in block_title:
-        block_title = " ⊗ ".join(
-            [block_to_mathematical_expression(block_child) for block_child in block_tree.children]
-        )
-    if "mul" in block_title:
-        block_title = re.findall("\[mul:\s*(.+?)\]", block_title)[0]
+        block_title = " + ".join(filter(None, children))
+    elif "KronBlock" in block_title:
+        block_title = " ⊗ ".join(children) if all(children) else ""
+    elif "mul" in block_title:
+        block_title = re.findall(r"\[mul:\s*(.+?)\] ", block_title)[0]
 
         try:
             if "." in block_title:
                 coeff = float(block_title)
             else:
                 coeff = int(block_title)
-            if coeff == 0:
+            if coeff == 0 or not children[0]:
                 block_title = ""
             elif coeff == 1:
-                block_title = block_to_mathematical_expression(block_tree.children[0])
+                block_title = children[0]
             else:
-                block_title += " * " + block_to_mathematical_expression(block_tree.children[0])
+                block_title += " * " + children[0]
 
         except ValueError:  # In case block_title is a non-numeric str (e.g. parameter name)
-            block_title += " * " + block_to_mathematical_expression(block_tree.children[0])
-
-    first_part = block_title[:3]
-    if first_part in [" + ", " ⊗ ", " * "]:
-        block_title = block_title[3:]
+            if " + " in block_title or " - " in block_title:
+                block_title = f"({block_title})"
+            block_title = f"{block_title} * {children[0]}" if children[0] else ""
 
     # if too many trees, add parentheses.
     nb_children = len(block_tree.children)
-    if nb_children > 1:
+    if nb_children > 1 and block_title:
         block_title = "(" + block_title + ")"
     return block_title
-- 
2.43.0


From 385c955c56e4ca1f6a2c0aea4255dca79f9c62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:10 +0000
Subject: [PATCH 126/135] fix: drawing chains and krons of analog blocks

---
 qadence/draw/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/draw/utils.py b/qadence/draw/utils.py
index ad2e125..5af59ee 100644
--- a/qadence/draw/utils.py
+++ b/qadence/draw/utils.py
@@ -21,7 +21,7 @@ from qadence.blocks import (
     ScaleBlock,
     chain,
 )
-from qadence.blocks.analog import ConstantAnalogRotation, InteractionBlock
+from qadence.blocks.analog import AnalogComposite, ConstantAnalogRotation, InteractionBlock
 from qadence.circuit import QuantumCircuit
 from qadence.model import QuantumModel
 from qadence.operations import RX, RY, RZ, SWAP, HamEvo, I
@@ -288,8 +288,8 @@ def _(
                 )
             qcd.create_node(wire, label=_get_label(block), **attrs)  # type: ignore[arg-type]
 
-    elif isinstance(block, CompositeBlock):
-        for inner_block in block:
+    elif isinstance(block, (CompositeBlock, AnalogComposite)):
+        for inner_block in block.blocks:
             if inner_block.tag is not None:
                 cluster = qcd.create_cluster(
                     inner_block.tag, **qcd.theme.get_cluster_attr()  # type: ignore
-- 
2.43.0


From a09b848fca0d664fde8e8f6a7162e928ffb57467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 127/135] fix: order of the factors when converting chains to
 openfermion

---
 qadence/blocks/manipulate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/manipulate.py b/qadence/blocks/manipulate.py
index cf73b15..061ba1a 100644
--- a/qadence/blocks/manipulate.py
+++ b/qadence/blocks/manipulate.py
@@ -29,7 +29,8 @@ def _(block: operations.I) -> QubitOperator:
 
 @to_openfermion.register
 def _(block: CompositeBlock) -> QubitOperator:
-    return reduce(lambda x, y: x * y, [to_openfermion(b) for b in block.blocks])
+    # the first block of a chain is the rightmost factor of the operator
+    return reduce(lambda x, y: y * x, [to_openfermion(b) for b in block.blocks])
 
 
 @to_openfermion.register
-- 
2.43.0


From 8c67e385a64baf7c9620bd8b27025439e9847396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 128/135] fix: converting multiples of the identity from
 openfermion

---
 qadence/blocks/manipulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/manipulate.py b/qadence/blocks/manipulate.py
index 061ba1a..f7e743a 100644
--- a/qadence/blocks/manipulate.py
+++ b/qadence/blocks/manipulate.py
@@ -71,7 +71,7 @@ def from_openfermion(op: QubitOperator) -> AbstractBlock:
     @_convert.register
     def _(op: tuple) -> AbstractBlock:
         if len(op) == 0:
-            return operations.I(n_qubits - 1)
+            return operations.I(max(n_qubits - 1, 0))
         bs = [_convert_gate(gate) for gate in op]
         return kron(*bs) if len(bs) > 1 else bs[0]  # type: ignore [no-any-return]
 
-- 
2.43.0


From 1e79caa15be540de6e490ebaecbff61a31ce0343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 129/135] fix: differentiate single-gap gates when optimal
 shifts are asked for

---
 qadence/backends/parameter_shift_rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/parameter_shift_rules.py b/qadence/backends/parameter_shift_rules.py
index 159d479..fa4efdc 100644
--- a/qadence/backends/parameter_shift_rules.py
+++ b/qadence/backends/parameter_shift_rules.py
@@ -49,10 +49,12 @@ def general_psr(
         sorted_unique_spectral_gaps[0] = 0.001
 
     if n_eqs == 1:
+        # any shift gives the exact derivative: there is nothing to optimise
+        prefac = 0.5 if shift_prefac is None else shift_prefac
         return partial(
             single_gap_psr,
             spectral_gap=sorted_unique_spectral_gaps,
-            shift=shift_prefac * torch.tensor([PI / 2], dtype=torch.get_default_dtype()),
+            shift=prefac * torch.tensor([PI / 2], dtype=torch.get_default_dtype()),
         )
     else:
         return partial(
-- 
2.43.0


From 9707794252b0be92ac56b46b32fc43e7813efee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:36 +0000
Subject: [PATCH 130/135] fix: loop over the whole batch when circuit and
 observable values are given separately

---
 qadence/backends/pyqtorch/backend.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 49d8ffd..8b81034 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -261,9 +261,14 @@ class Backend(BackendInterface):
             param_values["observables"] if "observables" in param_values else param_values
         )
 
-        for vals_circ, vals_obs in zip(
-            to_list_of_dicts(param_circuits), to_list_of_dicts(param_observables)
-        ):
+        list_circ, list_obs = to_list_of_dicts(param_circuits), to_list_of_dicts(param_observables)
+        # single values are repeated along the batch of the others
+        if len(list_circ) == 1:
+            list_circ = list_circ * len(list_obs)
+        elif len(list_obs) == 1:
+            list_obs = list_obs * len(list_circ)
+
+        for vals_circ, vals_obs in zip(list_circ, list_obs):
             wf = self.run(
                 circuit, vals_circ, state, endianness, pyqify_state=True, unpyqify_state=False
             )
-- 
2.43.0


From 82dddbe306371144744883286f5d9cb7c89cc46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 131/135] fix: invert the endianness of both sides of a density
 matrix

---
 qadence/transpile/invert.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 950eb79..036914e 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -105,18 +105,21 @@ def _(block: AbstractBlock, n_qubits: int = None, in_place: bool = False) -> Abs
 @invert_endianness.register(Tensor)  # type: ignore[attr-defined]
 def _(wf: Tensor) -> Tensor:
     """
-    Inverts the endianness of a wave function.
+    Inverts the endianness of a wave function or of a density matrix.
 
     Args:
-        wf (Tensor): the target wf as a torch Tensor of shape batch_size X 2**n_qubits
+        wf (Tensor): the target wf as a torch Tensor of shape batch_size X 2**n_qubits,
+            or density matrices of shape batch_size X 2**n_qubits X 2**n_qubits
 
     Returns:
         The inverted wave function.
     """
-    n_qubits = int(np.log2(wf.shape[1]))
+    n_qubits = int(np.log2(wf.shape[-1]))
     ls = list(range(2**n_qubits))
     permute_ind = tensor([int(f"{num:0{n_qubits}b}"[::-1], 2) for num in ls])
-    return wf[:, permute_ind]
+    if wf.ndim > 2:
+        wf = wf[..., permute_ind, :]
+    return wf[..., permute_ind]
 
 
 @invert_endianness.register(np.ndarray)  # type: ignore[attr-defined]
-- 
2.43.0


From 510e7cb6d52521f14c7552a528a5656f5c19474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:58 +0000
Subject: [PATCH 132/135] fix: keep the batch of one-qubit and noisy
 expectations when an endianness is given

---
 qadence/backends/pyqtorch/backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8b81034..fcf6cb4 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -193,8 +193,9 @@ class Backend(BackendInterface):
             # pyqtorch expects input shape [2] * n_qubits + [batch_size]
             state = pyqify(state, n_qubits) if pyqify_state else state
         state = circuit.native.run(state=state, values=param_values)
-        state = unpyqify(state) if unpyqify_state else state
-        state = invert_endianness(state) if endianness != self.native_endianness else state
+        if unpyqify_state:
+            state = unpyqify(state)
+            state = invert_endianness(state) if endianness != self.native_endianness else state
         return state
 
     def _batched_expectation(
-- 
2.43.0


From 0e7a751c6d13209ff287125d3bb635ba48fc73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 133/135] fix: expectation values do not depend on the
 endianness on any backend

---
 qadence/backends/horqrux/backend.py | 2 +-
 qadence/backends/pulser/backend.py  | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/qadence/backends/horqrux/backend.py b/qadence/backends/horqrux/backend.py
index 6dd017f..37ea312 100644
--- a/qadence/backends/horqrux/backend.py
+++ b/qadence/backends/horqrux/backend.py
@@ -152,11 +152,11 @@ class Backend(BackendInterface):
         def _expectation(params: ParamDictType) -> ArrayLike:
             param_circuits = params["circuit"] if "circuit" in params else params
             param_observables = params["observables"] if "observables" in params else params
+            # expectation values do not depend on how the states are stored
             out_state = self.run(
                 circuit,
                 param_circuits,
                 state,
-                endianness,
                 horqify_state=True,
                 unhorqify_state=False,
             )
diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index c91bbff..5ccbab2 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -344,9 +344,8 @@ class Backend(BackendInterface):
         )
         if mitigation is None:
             if noise is None:
-                state = self.run(
-                    circuit, param_values=param_circuit, state=state, endianness=endianness
-                )
+                # expectation values do not depend on how the states are stored
+                state = self.run(circuit, param_values=param_circuit, state=state)
                 support = sorted(list(circuit.abstract.register.support))
                 res_list = [
                     obs.native(state, param_observables, qubit_support=support)
@@ -360,7 +359,6 @@ class Backend(BackendInterface):
                     circuit=circuit,
                     param_values=param_circuit,
                     state=state,
-                    endianness=endianness,
                     noise=noise,
                 )
                 support = sorted(list(circuit.abstract.register.support))
-- 
2.43.0


From 9ff12156261b57ec5a97ff85aed7d2dcf74deff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:11 +0000
Subject: [PATCH 134/135] fix: measurement estimates do not depend on the
 endianness

---
 qadence/measurements/shadow.py | 4 +---
 qadence/measurements/utils.py  | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index 0424d55..06e90a5 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -143,7 +143,6 @@ def classical_shadow(
             circuit=conv_circ,
             param_values=param_values,
             state=state,
-            endianness=endianness,
         )
         all_rotations = [
             QuantumCircuit(circuit.n_qubits, rots) if rots else QuantumCircuit(circuit.n_qubits)
@@ -160,7 +159,7 @@ def classical_shadow(
         ]
 
     for i in range(shadow_size):
-        # Reverse endianness to get sample bitstrings in ILO.
+        # bits are counted from the first qubit, whichever the endianness
         conv_circ = backend.circuit(all_rotations[i])
         batch_samples = backend.sample(
             circuit=conv_circ,
@@ -168,7 +167,6 @@ def classical_shadow(
             n_shots=1,
             state=initial_state,
             noise=noise,
-            endianness=endianness,
         )
         shadow.append(batch_samples)
     bitstrings = list()
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index d5df237..81d3fea 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -166,7 +166,7 @@ def iterate_pauli_decomposition(
         state: Initial state.
         backend: A backend for circuit execution.
         noise: A noise model to use.
-        endianness: Endianness of the resulting bit strings.
+        endianness: Has no effect on the estimate.
 
     Returns: A torch.Tensor of bit strings n_shots x n_qubits.
     """
@@ -190,13 +190,13 @@ def iterate_pauli_decomposition(
             # already performed at the higher QuantumModel level.
             # Therefore, parameters passed here have already been embedded.
             conv_circ = backend.circuit(rotated_circuit)
+            # the support counts the bits from the first qubit, whichever the endianness
             samples = backend.sample(
                 circuit=conv_circ,
                 param_values=param_values,
                 n_shots=n_shots,
                 state=state,
                 noise=noise,
-                endianness=endianness,
             )
             estim_values = empirical_average(samples=samples, support=support)
             # TODO: support for parametric observables to be tested
-- 
2.43.0


From c009a7c224011c8ecff480e2e3158f4fd02d12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:12 +0000
Subject: [PATCH 135/135] fix: classical shadows of a circuit with digital
 noise

The circuit was run without the noise of the call, which then only acted on
the measurement rotations.
---
 qadence/measurements/shadow.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index 06e90a5..4e779ba 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -17,7 +17,7 @@ from qadence.measurements.utils import get_pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.parameters import evaluate
-from qadence.types import BackendName, Endianness
+from qadence.types import BackendName, Endianness, NoiseProtocol
 
 pauli_gates = [X, Y, Z]
 pauli_rotations = [
@@ -135,7 +135,9 @@ def classical_shadow(
 
     initial_state = state
     backend_name = backend.name if hasattr(backend, "name") else backend.backend.name
-    if backend_name == BackendName.PYQTORCH:
+    # digital noise acts on the gates of the circuit, which then have to be sampled with it
+    digital_noise = noise is not None and noise.filter(NoiseProtocol.DIGITAL) is not None
+    if backend_name == BackendName.PYQTORCH and not digital_noise:
         # run the initial circuit without rotations
         # to save computation time
         conv_circ = backend.circuit(circuit)
-- 
2.43.0


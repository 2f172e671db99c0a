From 0b118dfcda31ed2320f4aab9a12b5afe5ec28616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:57 +0000
Subject: [PATCH 01/66] fix: uncompute the 4-control khattar mcx with the
 inverse of the gates used to compute

The second half applied the phase tolerant Toffolis with swapped controls.
This left a -1 phase on some control states.
---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index bf81040..c978bc2 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -113,9 +113,9 @@ def cca_4ctrls(ctrls, target):
 
     mcx([ctrls[1], cca4_anc[0]], target[0])
 
-    mcx([ctrls[2], ctrls[3]], ctrls[1], method="gray_pt")
+    mcx([ctrls[3], ctrls[2]], ctrls[1], method="gray_pt_inv")
     x(ctrls[1])
-    mcx([ctrls[0], ctrls[1]], cca4_anc[0], method="gray_pt")
+    mcx([ctrls[1], ctrls[0]], cca4_anc[0], method="gray_pt_inv")
 
     cca4_anc.delete()
 
-- 
2.43.0


From abc8934b987b57f4712da692ec975c8fab4292e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:57 +0000
Subject: [PATCH 02/66] fix: remove the residual -1 phase of the measurement
 based jones Toffoli

The correction after the quasi-Toffoli has to be S-dagger.
With S, control states that flip the target picked up a sign.
---
 src/qrisp/alg_primitives/mcx_algs/circuit_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
index 2152324..6aaa90a 100644
--- a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
+++ b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
@@ -145,7 +145,7 @@ selinger_toffoli_qc.h(2)
 # Implementation of the T-Depth 1 Toffoli found in https://arxiv.org/pdf/1212.5069.pdf
 jones_toffoli_qc = QuantumCircuit(5, 1)
 jones_toffoli_qc.append(selinger_toffoli_qc.to_gate("selinger_quasi_toffoli"), [0, 1, 3, 4])
-jones_toffoli_qc.s(3)
+jones_toffoli_qc.s_dg(3)
 jones_toffoli_qc.cx(3, 2)
 jones_toffoli_qc.h(3)
 jones_toffoli_qc.measure(3, 0)
-- 
2.43.0


From bf5e99c99e8b1ab7c01b84dd5efc292251dff34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:09 +0000
Subject: [PATCH 03/66] fix: index the second operand of the remaud adder as
 given

The static code path used y.reg, which does not exist when the caller passes a list of qubits.
---
 src/qrisp/alg_primitives/arithmetic/adders/remaud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/remaud.py b/src/qrisp/alg_primitives/arithmetic/adders/remaud.py
index b800b65..809a716 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/remaud.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/remaud.py
@@ -177,7 +177,7 @@ def ladder2_synth_jax(x, y, method="khattar"):
         for i in jrange(1, ((N >> (k + 1)) + 1) // 2 - 1):
             mcx(
                 x[X_prime_func(2 * i - 1, k, N >> k)]
-                + y.reg[X_prime_func(2 * i - 1, k, N >> k) : X_prime_func(2 * i, k, N >> k)],
+                + y[X_prime_func(2 * i - 1, k, N >> k) : X_prime_func(2 * i, k, N >> k)],
                 x[X_prime_func(2 * i, k, N >> k)],
                 method=method,
             )
@@ -206,7 +206,7 @@ def ladder2_synth_jax(x, y, method="khattar"):
             for i in jrange(1, ((N >> (k + 1)) + 1) // 2 - 1):
                 mcx(
                     x[X_prime_func(2 * i, k, N >> k)]
-                    + y.reg[X_prime_func(2 * i, k, N >> k) : X_prime_func(2 * i + 1, k, N >> k)],
+                    + y[X_prime_func(2 * i, k, N >> k) : X_prime_func(2 * i + 1, k, N >> k)],
                     x[X_prime_func(2 * i + 1, k, N >> k)],
                     method=method,
                 )
-- 
2.43.0


From 72ae97b8e0c2c3d3a80a29090a65bc26d6bd6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:09 +0000
Subject: [PATCH 04/66] fix: use exact Toffolis on non-zero targets in the
 controlled gidney adder

The gidney logical AND is only valid on targets in |0>. Used on dirty targets it left relative phases.
---
 .../alg_primitives/arithmetic/adders/gidney_adder.py   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
index bcdefe7..7c47522 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
@@ -267,9 +267,9 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
     # MSB carry-out and sum.
     # The carry from position n-2 toggles b_qbs[n-1].
     if ctrl is not None:
-        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1], method="gidney")
+        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1])
         if c_out_qb is None:
-            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1], method="gidney")
+            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1])
     # When c_out_qb is None:  b_qbs[n-1] is b's MSB
     #   — both the carry and a_qbs[n-1] contribute (full b += a).
     # When c_out_qb is not None:  c_out_qb was appended to b_qbs,
@@ -290,7 +290,7 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
         if ctrl is not None:
             # ctrl is already in the qubit list, so CustomControlEnvironment
             # takes the targeting_control=True path (no double-add).
-            mcx([ctrl, a_qbs[i]], b_qbs[i], method="gidney")
+            mcx([ctrl, a_qbs[i]], b_qbs[i])
             cx(gidney_anc[i - 1], a_qbs[i])
             cx(gidney_anc[i - 1], b_qbs[i])
         else:
@@ -484,7 +484,7 @@ def gidney_adder(
     if c_in_qb is not None:
         with control(n <= 1):
             if ctrl is not None:
-                mcx([ctrl, c_in_qb], b_qbs[0], method="gidney")
+                mcx([ctrl, c_in_qb], b_qbs[0])
             else:
                 cx(c_in_qb, b_qbs[0])
 
@@ -498,7 +498,7 @@ def gidney_adder(
     # The carry chain handles positions 1 .. n-1; the least-significant
     # bit is the only remaining XOR not yet performed.
     if ctrl is not None:
-        mcx([ctrl, a_qbs[0]], b_qbs[0], method="gidney")
+        mcx([ctrl, a_qbs[0]], b_qbs[0])
     else:
         cx(a_qbs[0], b_qbs[0])
 
-- 
2.43.0


From 6788d7062bf17011bb30f1b36136a0ca9215f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:09 +0000
Subject: [PATCH 05/66] fix: make the carry out of the cuccaro adder respect
 the control qubit

---
 src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index dade943..a3710a4 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -152,7 +152,10 @@ def cuccaro_adder(
 
     # cnot
     if c_out is not None:
-        cx(a[-1], ancilla2)
+        if ctrl is None:
+            cx(a[-1], ancilla2)
+        else:
+            mcx([ctrl, a[-1]], ancilla2)
 
     if ctrl is None:
         # iterator uma gate application
-- 
2.43.0


From 9e440509a7d8990ad34340d98371c72b598347ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:09 +0000
Subject: [PATCH 06/66] fix: skip the carry ladder step for single qubit
 windows in inpl_add

---
 src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
index fd465c2..7439f5e 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/thapliyal_adder.py
@@ -51,7 +51,8 @@ def thapliyal_procedure(qc, qubit_list_1, qubit_list_2, output_qubit):
         qc.cx(qubit_list_1[i], qubit_list_2[i])
 
     # Step 2
-    qc.cx(qubit_list_1[-1], output_qubit)
+    if n > 1:
+        qc.cx(qubit_list_1[-1], output_qubit)
 
     for i in range(n - 2, 0, -1):
         qc.cx(qubit_list_1[i], qubit_list_1[i + 1])
-- 
2.43.0


From 64f5585f9edb6434573934016a10fdee97252b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:09 +0000
Subject: [PATCH 07/66] fix: repair qcla sum path without T-depth reduction

The sum path indexed carries that do not exist for operands of different size or radix 1.
---
 .../adders/qcla/quantum_quantum/qq_qcla_adder.py           | 2 +-
 .../arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py  | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
index d1337ec..86bb9af 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
@@ -84,7 +84,7 @@ def qq_qcla(a, b, radix_base=2, radix_exponent=1, t_depth_reduction=True):
         x(b)
 
     # In the case R = 1 we can use automatic uncomputation which seems to perform better
-    if R == 1:
+    if R == 1 and t_depth_reduction:
         c.uncompute()
         return
     # Delete c
diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
index 5308fe1..cfdd1c8 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
@@ -19,7 +19,7 @@ def qq_sum_path(a, b, c, R):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        cx(c[: len(b) - 1], b[1:])
         cx(a, b[: len(a)])
     else:
         i = 0
@@ -68,10 +68,7 @@ def qq_sum_path(a, b, c, R):
                 continue
 
             # Perform incrementation function
-            if R * j == 0:
-                lin_incr(b_block, c_out=c[j])
-            else:
-                lin_incr(b_block, c_in=c[j - 1], c_out=c[j])
+            lin_incr(b_block, c_in=c[j - 1])
 
 
 # This function is a version of the sum path that requires no uncomputation after
-- 
2.43.0


From b21d40773ff92011084127626fbc6a7f8ca16049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:11 +0000
Subject: [PATCH 08/66] fix: correct sign of the controlled Y gate with several
 controls or open controls

---
 src/qrisp/circuit/controlled_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 07dde7d..88ddbb0 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -134,9 +134,9 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
     # Treat pauli gates
     elif u3_gate.name == "y":
-        qc.s(target_qubit)
-        qc.append(XGate().control(control_amount, method=method), qc.qubits)
         qc.s_dg(target_qubit)
+        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        qc.s(target_qubit)
 
     elif u3_gate.name == "z":
         qc.h(target_qubit)
-- 
2.43.0


From f09d8f89ea340b34461e0dc5a0961af1c011095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:11 +0000
Subject: [PATCH 09/66] fix: assign control state bits of the controlled global
 phase gate to the right qubits

---
 src/qrisp/circuit/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0be1812..35cb135 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -679,17 +679,17 @@ class PTControlledOperation(Operation):
 
             if num_ctrl_qubits > 1:
                 temp_gate = PGate(base_operation.params[0]).control(
-                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[1:], method=method
+                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[:-1], method=method
                 )
             else:
                 temp_gate = PGate(base_operation.params[0])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
             definition_circ.append(temp_gate, definition_circ.qubits[:num_ctrl_qubits])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
         elif self.base_operation.name == "gray_phase_gate":
-- 
2.43.0


From 44c041d96a82026179d29cd4f57db7b60859ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:11 +0000
Subject: [PATCH 10/66] fix: drop the cached unitary when binding parameters of
 controlled operations

---
 src/qrisp/circuit/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35cb135..13abe78 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -815,6 +815,8 @@ class PTControlledOperation(Operation):
             res.definition = self.definition.bind_parameters(subs_dic)
         res.base_operation = self.base_operation.bind_parameters(subs_dic)
         res.params = res.base_operation.params
+        # The copied unitaries (if any) belong to the unbound operation
+        res.__dict__.pop("unitary", None)
         res.abstract_params = set(self.base_operation.params) - set(subs_dic.keys())
 
         return res
-- 
2.43.0


From f628fb3df86396247254b930b0a4a72dba6b22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:56 +0000
Subject: [PATCH 11/66] fix: keep parameters of u1 and r gates when inverting
 or binding them

---
 src/qrisp/circuit/operation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 13abe78..209277a 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -464,10 +464,12 @@ class U3Gate(Operation):
             self.permeability[0] = True
             self.is_qfree = True
             self.params = [self.lam + self.phi]
-        elif self.name == "rz":
+        elif self.name in ["rz", "u1"]:
             self.permeability[0] = True
             self.is_qfree = True
             self.params = [self.lam + self.phi]
+        elif self.name == "r":
+            self.params = [-self.theta, self.phi]
         elif self.name in ["rx", "ry"]:
             self.permeability[0] = False
             self.is_qfree = False
@@ -490,7 +492,7 @@ class U3Gate(Operation):
         # The inverse of a product of matrices if the reverted product of the inverses,
         # i.e. (A*B*C)^(-1) = C^-1 * B^-1 * A^-1
 
-        if self.name in ["p", "rz", "rx", "ry", "gphase", "h"]:
+        if self.name in ["p", "rz", "rx", "ry", "gphase", "h", "u1", "r"]:
             new_name = str(self.name)
         elif self.name[-3:] == "_dg":
             new_name = self.name[:-3]
-- 
2.43.0


From 48d073f76dd8a7b43ac0b95f27da91af81dfd0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:56 +0000
Subject: [PATCH 12/66] fix: q_matmul with safe result shape crashed or left
 uncorrected phases

---
 .../arithmetic/matrix_multiplication.py       | 45 +------------------
 1 file changed, 1 insertion(+), 44 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 3bba091..7a82b29 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -23,7 +23,6 @@ from qrisp.alg_primitives.arithmetic.SBP_arithmetic import (
     polynomial_encoder,
 )
 from qrisp.core import QuantumArray
-from qrisp.core.gate_application_functions import p, z
 
 
 def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_tolerant=False):
@@ -140,49 +139,7 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
                         )
                     continue
 
-                # If the res_bit_shape is safe,we can use the strategy
-                # of correcting phases on the result as displayed in hybrid mult
-                if res_bit_shape == "safe" and not phase_tolerant:
-                    if k == 0:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="h",
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                    elif k == K - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op="qft",
-                            phase_tolerant=True,
-                        )
-
-                    elif k != q_array_0.shape[1] - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                        for m in range(res[i, j].size):
-                            p(
-                                -(2 * np.pi) * 2**l / 2 ** (res[i, j].size + 1),
-                                res[i, j][m],
-                            )
-
-                        if res[i, j].signed and K % 2:
-                            z(res[i, j][-1])
-
-                elif k == 0:
+                if k == 0:
                     if output_array is not None:
                         hybrid_mult(
                             q_array_0[i, k],
-- 
2.43.0


From af69b7a4d16a88fd46b74fbc4bf58ce45f00ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:56 +0000
Subject: [PATCH 13/66] fix: extend unsigned floats above the top bit in
 in-place multiplication

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 0f5eef2..3972c21 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1037,9 +1037,11 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
     if mult_int != 1:
         if treat_overflow:
             extension_size = int(np.ceil(np.log2(abs(mult_int))))
-            qf.extend(extension_size, position=qf.size - 1)
             if qf.signed:
+                qf.extend(extension_size, position=qf.size - 1)
                 cx(qf[-1], qf[-1 - extension_size : -1])
+            else:
+                qf.extend(extension_size, position=qf.size)
 
         from qrisp.alg_primitives.arithmetic.SBP_arithmetic import QFT_inpl_mult
 
-- 
2.43.0


From 5ddcd11cdb8fe299ec6c7fe722a40474e8d48bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:56 +0000
Subject: [PATCH 14/66] fix: correct phases of hybrid_mult for given outputs
 and use the target in q_mult

---
 .../alg_primitives/arithmetic/SBP_arithmetic.py    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 3972c21..354e121 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -722,6 +722,10 @@ def hybrid_mult(
     # If no output_qf is given, create one
     from qrisp.qtypes.quantum_float import create_output_qf
 
+    # The phases can only be corrected through the result if the output holds
+    # exactly the product x*y
+    correct_on_result = output_qf is None and init_op == "h" and terminal_op == "qft" and cl_factor == 1
+
     if isinstance(output_qf, type(None)):
         output_qf = create_output_qf([y, x], op="mul")
 
@@ -806,7 +810,7 @@ def hybrid_mult(
 
     # Negate output_qf in order to perform the conditional addition/subtraction
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not correct_on_result:
         hybrid_mult_anc = QuantumVariable(1)
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -823,7 +827,7 @@ def hybrid_mult(
         # because if y[i] is active output_qf has been negated
         applied_phases = U_g_inpl_adder(output_qf, x, -(2**i) * cl_factor)
 
-        if not phase_tolerant and terminal_op != "qft":
+        if not phase_tolerant and not correct_on_result:
             if i != 0:
                 cx(y[i - 1], hybrid_mult_anc[0])
             cx(y[i], hybrid_mult_anc[0])
@@ -848,7 +852,7 @@ def hybrid_mult(
             # of y (command [6])
             cx(y[i], output_qf)  # command [5]
 
-    if not phase_tolerant and terminal_op != "qft":
+    if not phase_tolerant and not correct_on_result:
         cx(y[i], hybrid_mult_anc[0])
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -883,7 +887,7 @@ def hybrid_mult(
     if terminal_op == "qft":
         QFT(output_qf, inv=True, exec_swap=False)
 
-    if not phase_tolerant and terminal_op == "qft":
+    if not phase_tolerant and correct_on_result:
         # This is a phase tolerant correction using only single qubit gates.
         # We found it by looking at the sbp of the correction using cp gates and
         # identified the sbp of x*y in it.
@@ -923,7 +927,7 @@ def q_mult(factor_1, factor_2, target=None, method="auto"):
     elif method == "hybrid":
         from qrisp.alg_primitives.arithmetic import hybrid_mult
 
-        return hybrid_mult(factor_1, factor_2)
+        return hybrid_mult(factor_1, factor_2, output_qf=target)
 
 
 def QFT_inpl_mult(qv, inplace_mult=1):
-- 
2.43.0


From 7a9824dda6f76231f726cd3d91e348200645b277 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:39:24 +0000
Subject: [PATCH 15/66] fix: include the bits of the longer register in bitwise
 xor

---
 src/qrisp/core/quantum_variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ed7f7f8..0ae2ebf 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -392,6 +392,12 @@ class QuantumVariable:
             cx(self[i], and_res[i])
             cx(other[i], and_res[i])
 
+        for i in range(min(len(self), len(other)), len(self)):
+            cx(self[i], and_res[i])
+
+        for i in range(min(len(self), len(other)), len(other)):
+            cx(other[i], and_res[i])
+
         return and_res
 
     def __lshift__(self, other):
-- 
2.43.0


From d0bd6ea97082c142e5a6bb4669c24725368aa794 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:39:24 +0000
Subject: [PATCH 16/66] fix: compare sign extensions and disjoint bit ranges in
 float equality

---
 src/qrisp/alg_primitives/arithmetic/comparisons.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index 0f7c872..dba4ef1 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -221,12 +221,23 @@ def equal(qf_0, qf_1):
         r = jnp.minimum(e0 + m0, e1 + m1)
         d = r - l
 
+        # Positions of the first bits above the most significant bit of the other operand.
+        u0 = jnp.maximum(e1 + m1, e0) - e0
+        u1 = jnp.maximum(e0 + m0, e1) - e1
+
         def conjugator(qf_0, qf_1):
             for i in jrange(d):
                 cx(qf_1[i + l - e1], qf_0[i + l - e0])
 
+            # The excess bits of a negative number are compared to the sign extension.
+            if qf_1.signed and qf_0.signed:
+                for i in jrange(m0 - u0):
+                    cx(qf_1.sign(), qf_0[i + u0])
+                for i in jrange(m1 - u1):
+                    cx(qf_1.sign(), qf_1[i + u1])
+
         mcx_qubits += qf_1.reg[: l - e1]
-        mcx_qubits += qf_1.reg[e0 + m0 - e1 : e1 + m1 - e1]
+        mcx_qubits += qf_1.reg[u1:m1]
 
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
-- 
2.43.0


From 5e182783cdfbd8625143f6d23978bacc77d56e7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:39:24 +0000
Subject: [PATCH 17/66] fix: do not leave phases when swapping into a quantum
 indexed array entry

---
 src/qrisp/alg_primitives/iterable_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/iterable_processing.py b/src/qrisp/alg_primitives/iterable_processing.py
index 0a95645..b068631 100644
--- a/src/qrisp/alg_primitives/iterable_processing.py
+++ b/src/qrisp/alg_primitives/iterable_processing.py
@@ -210,11 +210,11 @@ def q_swap_into(q_array, index, qv):
     from qrisp import invert, swap
 
     with invert():
-        demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+        demux(q_array[0], index, q_array)
 
     swap(q_array[0], qv)
 
-    demux(q_array[0], index, q_array, ctrl_method="gray_pt")
+    demux(q_array[0], index, q_array)
 
 
 def cyclic_shift(iterable, shift_amount=1):
-- 
2.43.0


From 1dfe33557045a490a74eb35eadcd0c5176825c1d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:39:24 +0000
Subject: [PATCH 18/66] fix: visit every parity along single bit steps and
 order residual phases in gray synthesis

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 5835e76..c710d7d 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -234,10 +234,10 @@ def single_qb_traversal(locations, bit_amount):
 
     # Make sure 0 appears last
     if tr_seq[-1] != 0:
-        tr_seq = tr_seq + [0]
+        tr_seq = tr_seq + hamming_movement(tr_seq[-1], 0, bit_amount)
 
     if tr_seq[0] != 0:
-        tr_seq = [0] + tr_seq
+        tr_seq = [0] + hamming_movement(0, tr_seq[0], bit_amount)[:-1] + tr_seq
 
     # Turn into binaries
     tr_seq_bin = [int_as_array(x, bit_amount) for x in tr_seq]
@@ -574,6 +574,8 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     input_var_dupl.qs.data = []
 
     if not phase_tolerant:
+        # The synthesis counts the first qubit as the most significant one
+        residual_phases = residual_phases.reshape(tt.bit_amount * [2]).transpose().flatten()
         gray_phase_synth(input_var_dupl, residual_phases)
 
     qc.data.extend(input_var_dupl.qs.data)
-- 
2.43.0


From f3835b63bb90c72fef695398c169dfd23ba73cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:39:24 +0000
Subject: [PATCH 19/66] fix: mark output qubits of synthesised tables as not
 permeable and repair gray_pt_inv

---
 src/qrisp/alg_primitives/logic_synthesis/truth_tables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
index 41420ac..e40abc5 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
@@ -190,9 +190,10 @@ class TruthTable:
             from qrisp.alg_primitives.logic_synthesis.gray_synthesis import (
                 gray_logic_synth,
             )
-            from qrisp.misc import quantum_invert
+            from qrisp.environments import invert
 
-            quantum_invert(gray_logic_synth, [input_var, output_var, self, True], input_var.qs)
+            with invert():
+                gray_logic_synth(input_var, output_var, self, phase_tolerant=True)
 
         elif method == "pprm_pt":
             from qrisp.alg_primitives.logic_synthesis.pprm_synthesis import pprm
@@ -418,7 +419,8 @@ class LogicSynthGate(Operation):
 
         Operation.__init__(self, "logic_synth", num_qubits=len(qc.qubits), definition=qc)
 
-        self.permeability = {i: i < self.tt.bit_amount for i in range(self.num_qubits)}
+        # Input qubits without influence might be missing, the output qubits come last
+        self.permeability = {i: i < self.num_qubits - self.tt.shape[1] for i in range(self.num_qubits)}
         self.is_qfree = True
 
     def inverse(self):
-- 
2.43.0


From 41278d70a828afd0da272b8e7a8cd4c4fa4f431f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:39:24 +0000
Subject: [PATCH 20/66] fix: do not merge allocations into neighbouring gates

---
 src/qrisp/circuit/pass_management/passes/fuse_adjacents.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 876a857..e750f45 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -588,6 +588,10 @@ def _fuse_instructions(instr_a, instr_b, gphase_array):
     if isinstance(instr_a.op, ClControlledOperation) or isinstance(instr_b.op, ClControlledOperation):
         return None
 
+    # (De)allocations have to stay visible as instructions of their own.
+    if instr_a.op.name in ("qb_alloc", "qb_dealloc") or instr_b.op.name in ("qb_alloc", "qb_dealloc"):
+        return None
+
     # Resolve the correct qubit order (handles symmetric gates).
     qubits = _resolve_qubit_order(instr_a, instr_b)
     if qubits is None:
-- 
2.43.0


From 713ebb63b522526cfc5efa8da6069134f871c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 03:39:24 +0000
Subject: [PATCH 21/66] fix: map classical bits when extending a circuit

---
 src/qrisp/circuit/transpiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/transpiler.py b/src/qrisp/circuit/transpiler.py
index 5666ee4..52efb0d 100644
--- a/src/qrisp/circuit/transpiler.py
+++ b/src/qrisp/circuit/transpiler.py
@@ -133,7 +133,7 @@ def extend(qc_0, qc_1, translation_dic="id"):
                 qc_0.add_qubit(qb)
 
         for cb in qc_1.clbits:
-            translation_dic[qb] = qb
+            translation_dic[cb] = cb
             if cb not in qc_0.clbits:
                 qc_0.add_clbit(cb)
 
-- 
2.43.0


From 382844902e86a8a2d8a2700e97c607141acd117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:15 +0000
Subject: [PATCH 22/66] fix: respect gaps between the bit ranges in float
 equality

---
 src/qrisp/alg_primitives/arithmetic/comparisons.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index dba4ef1..a5879bc 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -236,9 +236,13 @@ def equal(qf_0, qf_1):
                 for i in jrange(m1 - u1):
                     cx(qf_1.sign(), qf_1[i + u1])
 
-        mcx_qubits += qf_1.reg[: l - e1]
+        mcx_qubits += qf_1.reg[: jnp.minimum(l - e1, m1)]
         mcx_qubits += qf_1.reg[u1:m1]
 
+        # The sign extension must not reach into a gap between the bits of both operands.
+        if qf_1.signed and qf_0.signed:
+            mcx_qubits += qf_1.reg[m1 : m1 + (d < 0)]
+
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
 
-- 
2.43.0


From 35df6aacfa7782001fb117cbf5cb826e2d5ada88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:08 +0000
Subject: [PATCH 23/66] fix: treat every qubit of a classically conditioned
 gate as neutral in the permeability graph

---
 src/qrisp/permeability/permeability_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 829b08e..05bd044 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -480,7 +480,7 @@ def dag_from_qc(dag, qc, remove_artificials=False):
         # This treats the case of a deallocation node
         else:
             node = DeallocNode(instr)
-            perm_dic = {0: "neutral"}
+            perm_dic = {j: "neutral" for j in range(len(instr.qubits))}
 
         # We add the index of the corresponding gate to the node object,
         # because this information can be used for stable topological ordering:
-- 
2.43.0


From abf776d6bb0f916b5f714c4747d7a7df2c7e2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:08 +0000
Subject: [PATCH 24/66] fix: respect open controls and symbolic parameters when
 fusing adjacent gates

---
 .../pass_management/passes/fuse_adjacents.py  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index e750f45..725f6bc 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -93,6 +93,11 @@ _FUSION_CANCEL = object()
 # =============================================================================
 
 
+def _has_open_control(op):
+    """Return True if *op* is controlled on the 0 state of one of its control qubits."""
+    return "0" in getattr(op, "ctrl_state", "")
+
+
 def _fuse_swap_with_neighbour(op_a, op_b):
     """Try to fuse a SWAP gate with a neighbouring symmetric two-qubit gate.
 
@@ -118,6 +123,9 @@ def _fuse_swap_with_neighbour(op_a, op_b):
         the neighbour is not a recognised symmetric two-qubit gate.
 
     """
+    if _has_open_control(op_a) or _has_open_control(op_b):
+        return None
+
     with fast_append(0):
         # --- swap-a then something ---
         if "swap" == op_a.name:
@@ -425,11 +433,11 @@ def _check_inverse_cancel(op_a, op_b):
         try:
             unitary_a = inv_op.get_unitary()
             unitary_b = op_b.get_unitary()
-        except:
-            return None
 
-        # Compare
-        if np.linalg.norm(unitary_a - unitary_b) > 1e-4:
+            # Compare
+            if np.linalg.norm(unitary_a - unitary_b) > 1e-4:
+                return None
+        except:
             return None
 
         # Mark as cancelled
@@ -546,8 +554,8 @@ def _resolve_qubit_order(instr_a, instr_b):
         if the qubits cannot be matched.
 
     """
-    a_sym = instr_a.op.name in _SYMMETRIC_GATES
-    b_sym = instr_b.op.name in _SYMMETRIC_GATES
+    a_sym = instr_a.op.name in _SYMMETRIC_GATES and not _has_open_control(instr_a.op)
+    b_sym = instr_b.op.name in _SYMMETRIC_GATES and not _has_open_control(instr_b.op)
 
     if a_sym or b_sym:
         # Symmetric match by set — qubit order difference is tolerated.
-- 
2.43.0


From bbad9b5dfe78cd6fccbd6459581aa49b070b5063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:08 +0000
Subject: [PATCH 25/66] fix: keep gates with open controls or phase tolerant
 controls when cancelling zero controls

---
 .../circuit/pass_management/passes/cancel_zero_controls.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
index 243223b..837c863 100644
--- a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
+++ b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
@@ -34,15 +34,16 @@ def _is_cancelled_by_zero(op: Operation, qubits: list[Qubit], fresh: set[Qubit])
     r"""Return True if *op* on *qubits* is a no-op given a set of \|0⟩ qubits."""
     # Symmetric controlled-phase gates: diag(1,1,1,e^{iφ}).
     # Identity whenever *either* qubit is \|0⟩.
-    if op.name in ("cp", "cz"):
+    if op.name in ("cp", "cz") and "0" not in getattr(op, "ctrl_state", ""):
         return any(qb in fresh for qb in qubits)
 
     # PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
-    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2:
+    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2 and "0" not in op.ctrl_state:
         return any(qb in fresh for qb in qubits)
 
     # General controlled operations: cancel when a control-on-\|1⟩ is still \|0⟩.
-    if isinstance(op, (ControlledOperation, PTControlledOperation)):
+    # Phase tolerant ones still act on the phases of the other qubits.
+    if isinstance(op, ControlledOperation):
         n_ctrl = len(op.controls)
         ctrl_state = getattr(op, "ctrl_state", "1" * n_ctrl)
         if isinstance(ctrl_state, int):
-- 
2.43.0


From f33fb21295bc4a3dd6bcb9e5ef246b94f9c72afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:08 +0000
Subject: [PATCH 26/66] fix: respect open controls when converting to cx or cz

---
 .../circuit/pass_management/passes/convert_to_cx.py      | 9 ++++++---
 .../circuit/pass_management/passes/convert_to_cz.py      | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
index 8c5d89c..58ab82a 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
@@ -93,16 +93,19 @@ def convert_to_cx(
         for instr in qc.data:
             op = instr.op
 
+            # Gates that are controlled on the 0 state carry the same name.
+            name = op.name if "0" not in getattr(op, "ctrl_state", "") else None
+
             if op.num_qubits == 2 and op.name not in ("cx", "barrier"):
-                if op.name == "cz":
+                if name == "cz":
                     qc_new.h(instr.qubits[1])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
                     qc_new.h(instr.qubits[1])
-                elif op.name == "cy":
+                elif name == "cy":
                     qc_new.s_dg(instr.qubits[1])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
                     qc_new.s(instr.qubits[1])
-                elif op.name == "swap":
+                elif name == "swap":
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
                     qc_new.cx(instr.qubits[1], instr.qubits[0])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
index d209dc8..d32f8a3 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
@@ -94,18 +94,21 @@ def convert_to_cz(
         for instr in qc.data:
             op = instr.op
 
+            # Gates that are controlled on the 0 state carry the same name.
+            name = op.name if "0" not in getattr(op, "ctrl_state", "") else None
+
             if op.num_qubits == 2 and op.name not in ("cz", "barrier"):
-                if op.name == "cx":
+                if name == "cx":
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
                     qc_new.h(instr.qubits[1])
-                elif op.name == "cy":
+                elif name == "cy":
                     qc_new.s_dg(instr.qubits[1])
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
                     qc_new.h(instr.qubits[1])
                     qc_new.s(instr.qubits[1])
-                elif op.name == "swap":
+                elif name == "swap":
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
                     qc_new.h(instr.qubits[1])
-- 
2.43.0


From 32e80f8be8a93e00649cf0e87b6c0a118078abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:09 +0000
Subject: [PATCH 27/66] fix: keep the global phase of the gray synthesised
 toffoli

---
 src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py b/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py
index c35d075..f95a6ad 100644
--- a/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py
+++ b/src/qrisp/circuit/pass_management/passes/gray_synth_toffoli.py
@@ -49,6 +49,7 @@ def _get_gray_toffoli_qc() -> QuantumCircuit:
     qc.cx(0, 2)
     qc.h(2)
     qc.rzz(-np.pi / 4, 0, 1)
+    qc.gphase(-np.pi / 8, 0)
     return qc
 
 
-- 
2.43.0


From a6eed540ebe7688669798c6d8591384ea703abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:09 +0000
Subject: [PATCH 28/66] fix: pass classical bits and keep the phase of full
 turns when converting to prx

---
 .../pass_management/passes/convert_to_prx.py        | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index e68edfd..da70cff 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -123,9 +123,16 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 # Append gate if not identity
                 if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
                     if isinstance(op, ClControlledOperation):
-                        qc_new.append(prx_0.c_if(op.num_control, op.ctrl_state), qc.data[i].qubits)  # type: ignore[arg-type]
+                        qc_new.append(
+                            prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
+                            qc.data[i].qubits,
+                            qc.data[i].clbits,
+                        )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
+                else:
+                    # PRX gates of full turns are -1
+                    accumulated_phase += conversion_op.theta / 2
 
             # Two PRX case: decompose arbitrary U3 into two PRX gates
             else:
@@ -145,6 +152,8 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                         )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
+                else:
+                    accumulated_phase += prx_0.alpha / 2
 
                 if not (abs(prx_1.alpha % (2 * np.pi)) < 1e-5):
                     if isinstance(op, ClControlledOperation):
@@ -155,6 +164,8 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                         )
                     else:
                         qc_new.append(prx_1, qc.data[i].qubits)
+                else:
+                    accumulated_phase += prx_1.alpha / 2
         else:
             qc_new.append(qc.data[i])
 
-- 
2.43.0


From 3a11d526be2c5dafedd4d9ca45a75caf84dccafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:10 +0000
Subject: [PATCH 29/66] fix: control custom controlled functions in nested
 environments only once

---
 src/qrisp/misc/utility.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 32bd0bf..1e3e6f7 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1354,6 +1354,17 @@ def retarget_instructions(data, source_qubits, target_qubits):
         if isinstance(instr, QuantumEnvironment):
             retarget_instructions(instr.original_data, source_qubits, target_qubits)
             retarget_instructions(instr.env_data, source_qubits, target_qubits)
+            # The environments of custom controlled functions keep track of their control
+            if hasattr(instr, "control_qb") and instr.control_qb in source_qubits:
+                instr.control_qb = target_qubits[source_qubits.index(instr.control_qb)]
+            # The same holds for the control environments within these functions
+            if hasattr(instr, "ctrl_qubits") and instr.parent_cond_env is None:
+                for j in range(len(source_qubits)):
+                    instr.ctrl_qubits = [
+                        target_qubits[j] if qb == source_qubits[j] else qb for qb in instr.ctrl_qubits
+                    ]
+                    if instr.condition_truth_value == source_qubits[j]:
+                        instr.condition_truth_value = target_qubits[j]
             continue
 
         for j in range(len(instr.qubits)):
-- 
2.43.0


From e0c28082153f50eb0a6b82099574204b3af9ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:10 +0000
Subject: [PATCH 30/66] fix: respect inverted and open controls of nested
 control and condition environments

---
 src/qrisp/environments/control_environment.py | 45 ++++++++-----------
 .../environments/quantum_conditionals.py      | 20 ++++++++-
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index d75dd67..a0c7cf2 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -150,6 +150,15 @@ class ControlEnvironment(QuantumEnvironment):
                 if not type(env) == QuantumEnvironment:
                     break
 
+    # Returns the state of the truth value qubit for which the content is executed
+    def truth_value_ctrl_state(self):
+        if getattr(self, "parent_cond_env", None) is not None:
+            return "1"
+        ctrl_state = self.ctrl_state if len(self.ctrl_qubits) == 1 else "1"
+        if self.invert:
+            ctrl_state = "0" if ctrl_state == "1" else "1"
+        return ctrl_state
+
     def compile(self):
         from qrisp import QuantumBool
         from qrisp.environments import ConditionEnvironment, CustomControlOperation
@@ -195,18 +204,7 @@ class ControlEnvironment(QuantumEnvironment):
 
                 ctrl_qubits.append(self.parent_cond_env.condition_truth_value)
 
-                parent_ctrl_state = "1"
-
-                if isinstance(self.parent_cond_env, ControlEnvironment):
-                    if len(self.parent_cond_env.ctrl_qubits) == 1:
-                        if self.parent_cond_env.ctrl_state == "0" and not hasattr(self.parent_cond_env, "qbool"):
-                            parent_ctrl_state = "0"
-
-                    if self.parent_cond_env.invert:
-                        if parent_ctrl_state == "0":
-                            parent_ctrl_state = "1"
-                        elif parent_ctrl_state == "1":
-                            parent_ctrl_state = "0"
+                parent_ctrl_state = self.parent_cond_env.truth_value_ctrl_state()
 
                 cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
 
@@ -223,6 +221,11 @@ class ControlEnvironment(QuantumEnvironment):
                     method=method,
                 )
 
+                # Within a parent environment, the inverted condition is required
+                # to hold together with the condition of the parent
+                if self.invert and self.parent_cond_env is not None:
+                    mcx(ctrl_qubits[-1:], self.condition_truth_value, ctrl_state=parent_ctrl_state)
+
             perm_lock(ctrl_qubits)
             # unlock(self.condition_truth_value)
 
@@ -300,20 +303,7 @@ class ControlEnvironment(QuantumEnvironment):
                         )
                     continue
 
-                if len(ctrl_qubits) == 1:
-                    ctrl_state = self.ctrl_state
-                else:
-                    ctrl_state = "1"
-
-                if self.invert:
-                    new_ctrl_state = ""
-                    for c in ctrl_state:
-                        if c == "1":
-                            new_ctrl_state += "0"
-                        else:
-                            new_ctrl_state += "1"
-
-                    ctrl_state = new_ctrl_state
+                ctrl_state = self.truth_value_ctrl_state()
 
                 if self.condition_truth_value in instruction.qubits:
                     self.env_qs.append(
@@ -344,6 +334,9 @@ class ControlEnvironment(QuantumEnvironment):
                 x(self.condition_truth_value)
 
             if len(ctrl_qubits) > 1:
+                if self.invert and self.parent_cond_env is not None:
+                    mcx(ctrl_qubits[-1:], self.condition_truth_value, ctrl_state=parent_ctrl_state)
+
                 if len(ctrl_qubits) > 5:
                     method = "auto"
                 else:
diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index fd309b7..367554c 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -361,6 +361,10 @@ class ConditionEnvironment(QuantumEnvironment):
                 if not type(env) == QuantumEnvironment:
                     break
 
+    # Returns the state of the truth value qubit for which the content is executed
+    def truth_value_ctrl_state(self):
+        return "1"
+
     # Compile method
     def compile(self):
         from qrisp.environments.control_environment import (
@@ -407,7 +411,14 @@ class ConditionEnvironment(QuantumEnvironment):
 
                 from qrisp import mcx
 
-                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt")
+                toffoli_ctrl_state = self.parent_cond_env.truth_value_ctrl_state() + "1"
+
+                mcx(
+                    toffoli_qb_list,
+                    self.condition_truth_value,
+                    ctrl_state=toffoli_ctrl_state,
+                    method="gray_pt",
+                )
 
             else:
                 # Without any parent environment we can simply synhesize the
@@ -516,7 +527,12 @@ class ConditionEnvironment(QuantumEnvironment):
             # this environments truth value
             if self.parent_cond_env is not None:
                 self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
-                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv")
+                mcx(
+                    toffoli_qb_list,
+                    self.qbool,
+                    ctrl_state=toffoli_ctrl_state,
+                    method="gray_pt_inv",
+                )
                 self.qbool.delete()
 
             # We now uncompute the environments' truth value
-- 
2.43.0


From 9b41c33212fc2d3a4aa1569bc6c2d8a698091358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:47 +0000
Subject: [PATCH 31/66] fix: keep the edge type of every qubit in the
 permeability graph

---
 src/qrisp/permeability/permeability_dag.py    | 38 ++++++++++++++-----
 .../permeability/qc_transformations/unqomp.py |  2 +-
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 05bd044..adcc44f 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -227,9 +227,20 @@ class PermeabilityGraph(nx.DiGraph):
             return
 
         if self.has_edge(in_node, out_node):
-            nx.DiGraph.get_edge_data(self, in_node, out_node)["qubits"].extend(qubits)
+            data = nx.DiGraph.get_edge_data(self, in_node, out_node)
+            data["qubits"].extend(qubits)
+            data["qubit_edge_types"].extend([edge_type] * len(qubits))
         else:
-            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits))
+            # Two nodes can be connected by several qubits with differing types.
+            # We therefore also store the type of each qubit.
+            nx.DiGraph.add_edge(
+                self,
+                in_node,
+                out_node,
+                edge_type=edge_type,
+                qubits=list(qubits),
+                qubit_edge_types=[edge_type] * len(qubits),
+            )
 
     def get_target_qubits(self, node):
         """Returns the target qubits of a node, i.e. the qubits that have either neutral or X-permeability.
@@ -257,8 +268,9 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
-                target_qubits.extend(data["qubits"])
+            for qb, edge_type in zip(data["qubits"], data["qubit_edge_types"]):
+                if edge_type != "Z":
+                    target_qubits.append(qb)
 
         return target_qubits
 
@@ -291,8 +303,9 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
-                control_qubits.extend(data["qubits"])
+            for qb, edge_type in zip(data["qubits"], data["qubit_edge_types"]):
+                if edge_type == "Z":
+                    control_qubits.append(qb)
 
         return control_qubits
 
@@ -323,7 +336,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
+            if "Z" in data["qubit_edge_types"]:
                 control_nodes.append(in_node)
 
         return control_nodes
@@ -355,12 +368,12 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
+            if data["edge_type"] != "Z" or set(data["qubit_edge_types"]) != {"Z"}:
                 target_nodes.append(in_node)
 
         return target_nodes
 
-    def get_edge_qubits(self, in_node, out_node):
+    def get_edge_qubits(self, in_node, out_node, edge_type=None):
         """Returns the list of qubits that a given edge is representing.
 
         Parameters
@@ -369,6 +382,8 @@ class PermeabilityGraph(nx.DiGraph):
             The starting node of the edge.
         out_node : UnqompNode
             The end node of the edge.
+        edge_type : str, optional
+            If given, only the qubits connected with this type are returned.
 
         Raises
         ------
@@ -381,7 +396,10 @@ class PermeabilityGraph(nx.DiGraph):
             The list of Qubits.
 
         """
-        return self.get_edge_data(in_node, out_node)["qubits"]
+        data = self.get_edge_data(in_node, out_node)
+        if edge_type is None:
+            return data["qubits"]
+        return [qb for qb, t in zip(data["qubits"], data["qubit_edge_types"]) if t == edge_type]
 
     def get_streak_children(self, node, qb):
         successors = self.successors(node)
diff --git a/src/qrisp/permeability/qc_transformations/unqomp.py b/src/qrisp/permeability/qc_transformations/unqomp.py
index f34f3e8..d69a7bd 100644
--- a/src/qrisp/permeability/qc_transformations/unqomp.py
+++ b/src/qrisp/permeability/qc_transformations/unqomp.py
@@ -281,7 +281,7 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     # This dictionary will hold the control qubits of each control edge
     ctrl_qubit_dic = {}
     for c in ctrls:
-        ctrl_qubit_dic[c] = pdag.get_edge_qubits(c, node)
+        ctrl_qubit_dic[c] = pdag.get_edge_qubits(c, node, "Z")
 
     while len(ctrls):
         # Set alias
-- 
2.43.0


From ae7b50c4d024914c698a47a99bfcda21d3c0b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:26 +0000
Subject: [PATCH 32/66] fix: verify the permeability of gate_wrap for all
 qubits at once

---
 src/qrisp/misc/utility.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 1e3e6f7..81c56ff 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -648,19 +648,19 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
                 #     if permeability_dict[i] is None:
                 #         permeability_dict[i] = False
 
-                if verify:
-                    from qrisp.permeability import is_permeable
+            if verify:
+                from qrisp.permeability import is_permeable
 
-                    permeable_qubit_indices = []
+                permeable_qubit_indices = []
 
-                    for i in range(gwe.instruction.op.num_qubits):
-                        if permeability_dict[i]:
-                            permeable_qubit_indices.append(i)
+                for i in range(gwe.instruction.op.num_qubits):
+                    if permeability_dict[i]:
+                        permeable_qubit_indices.append(i)
 
-                    if not is_permeable(gwe.instruction.op, permeable_qubit_indices):
-                        raise Exception(f"Verification of permeability for function {function.__name__} failed")
+                if not is_permeable(gwe.instruction.op, permeable_qubit_indices):
+                    raise Exception(f"Verification of permeability for function {function.__name__} failed")
 
-                gwe.instruction.op.permeability = permeability_dict
+            gwe.instruction.op.permeability = permeability_dict
 
         return result
 
-- 
2.43.0


From 5ecc538cd383d889f8b29706f3e6886184c58d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:26 +0000
Subject: [PATCH 33/66] fix: do not share permeability information between a
 gate and its bound copies

---
 src/qrisp/circuit/operation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 209277a..4ce37ac 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -164,6 +164,7 @@ class Operation:
             copied_definition = None
 
         res.definition = copied_definition
+        res.permeability = dict(self.permeability)
 
         return res
 
@@ -412,6 +413,8 @@ class Operation:
 
         res = self.copy()
         res.params = new_params
+        res.__dict__.pop("lambdified_params", None)
+        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
 
         if res.definition is not None:
             res.definition = res.definition.bind_parameters(subs_dic)
@@ -819,7 +822,8 @@ class PTControlledOperation(Operation):
         res.params = res.base_operation.params
         # The copied unitaries (if any) belong to the unbound operation
         res.__dict__.pop("unitary", None)
-        res.abstract_params = set(self.base_operation.params) - set(subs_dic.keys())
+        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
+        res.permeability = dict(self.permeability)
 
         return res
 
-- 
2.43.0


From 604e81f4c21fd6dc06d7566003f5817fbcfe49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:26 +0000
Subject: [PATCH 34/66] fix: classify composite gates with symbolic parameters
 instead of raising

---
 src/qrisp/permeability/type_checker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/permeability/type_checker.py b/src/qrisp/permeability/type_checker.py
index 1987f75..b27cb0d 100644
--- a/src/qrisp/permeability/type_checker.py
+++ b/src/qrisp/permeability/type_checker.py
@@ -78,9 +78,8 @@ def is_permeable(gate, qubit_indices):
 
             return True
 
-    for par in gate.params:
-        if isinstance(par, sp.Expr):
-            return False
+    if gate.abstract_params or any(isinstance(par, sp.Expr) for par in gate.params):
+        return False
 
     # Create qubit order
     qubit_order = []
@@ -130,6 +129,9 @@ def is_qfree(gate):
             gate.is_qfree = True
             return True
 
+    if gate.abstract_params:
+        return False
+
     unitary = np.around(gate.get_unitary(), 5)
     # Check if the unitary has only one non-zero entry in each line
     for i in range(unitary.shape[0]):
-- 
2.43.0


From 5a7fe5fedce96ff547416a8708ecf3058d36d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:41 +0000
Subject: [PATCH 35/66] fix: allow several multi controlled X gates with the
 maslov method in one session

---
 src/qrisp/core/gate_application_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3be22a1..3274ead 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -572,7 +572,7 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         from qrisp import QuantumBool
 
         if n >= 3:
-            ancilla = [QuantumBool(name="maslov_anc_")]
+            ancilla = [QuantumBool(name="maslov_anc*")]
         else:
             ancilla = []
         append_operation(maslov_mcx(n, ctrl_state), qubits_0 + ancilla + qubits_1)
-- 
2.43.0


From a3893eb4ae0218b2c29a7776869c6addf4ad50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:48 +0000
Subject: [PATCH 36/66] fix: keep imaginary parts of ladder coefficients when
 conjugate terms are eliminated

---
 src/qrisp/operators/qubit/qubit_operator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index c2c34cf..e790a5e 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -885,10 +885,16 @@ class QubitOperator(Hamiltonian):
                 if factor in ["A", "C"]:
                     break
             else:
-                new_terms_dict[term] = coeff
+                new_terms_dict[term] = new_terms_dict.get(term, 0) + coeff
                 continue
 
-            if term.adjoint() in new_terms_dict:
+            if abs(np.imag(coeff)) >= threshold:
+                # The conjugate term has the conjugate coefficient, so a term with
+                # a complex coefficient can't be represented by a single ladder term.
+                pauli_terms_dict = QubitOperator({term: coeff}).to_pauli().terms_dict
+                for pauli_term, pauli_coeff in pauli_terms_dict.items():
+                    new_terms_dict[pauli_term] = new_terms_dict.get(pauli_term, 0) + pauli_coeff
+            elif term.adjoint() in new_terms_dict:
                 new_terms_dict[term.adjoint()] += coeff
             else:
                 new_terms_dict[term] = coeff
-- 
2.43.0


From 0768cd2cb053593c467fbe479430e2e5d7dd42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:48 +0000
Subject: [PATCH 37/66] fix: support complex multiples of the identity in
 to_pauli and to_sparse_matrix

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index e790a5e..f9b1f74 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -707,7 +707,7 @@ class QubitOperator(Hamiltonian):
                 factor_amount = max(participating_indices) + 1
             else:
                 res = 1
-                M = sp.csr_matrix((1, 1))
+                M = sp.csr_matrix((1, 1), dtype=complex)
                 for coeff in coeffs:
                     res *= coeff
                 if coeffs:
@@ -780,7 +780,7 @@ class QubitOperator(Hamiltonian):
         res = 0
         for term, coeff in self.terms_dict.items():
             res += coeff * term.to_pauli()
-        if isinstance(res, (float, int)):
+        if isinstance(res, (float, int, complex)):
             return QubitOperator({QubitTerm({}): res})
         return res
 
-- 
2.43.0


From 9e2a6b2d953517bb28f367f173affdf13b3f485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:40 +0000
Subject: [PATCH 38/66] fix: return the operator from in-place multiplication
 of fermionic operators

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index ec15357..db89652 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -500,6 +500,7 @@ class FermionicOperator(Hamiltonian):
                 res_terms_dict[curr_ladder_term] = res_terms_dict.get(curr_ladder_term, 0) + coeff1 * coeff2
 
         self.terms_dict = res_terms_dict
+        return self
 
     #
     # Miscellaneous
-- 
2.43.0


From b956b4f174a8a7c1f59abdf69e9a5d657d9a62e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:40 +0000
Subject: [PATCH 39/66] fix: do not drop fermionic terms with alternating
 ladder operators on one mode

---
 src/qrisp/operators/fermionic/fermionic_term.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_term.py b/src/qrisp/operators/fermionic/fermionic_term.py
index dcc0b1d..4d1e0f3 100644
--- a/src/qrisp/operators/fermionic/fermionic_term.py
+++ b/src/qrisp/operators/fermionic/fermionic_term.py
@@ -127,9 +127,6 @@ class FermionicTerm:
                 if ladder_list[i][1] == ladder_list[i + 1][1]:
                     flip_sign = 0
                     break
-                if i > 1 and ladder_list[i][0] == ladder_list[i - 1][0]:
-                    flip_sign = 0
-                    break
 
         return FermionicTerm(ladder_list), flip_sign
 
-- 
2.43.0


From 084a06adf3389580c37ce5c6e553979f1ca033bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:40 +0000
Subject: [PATCH 40/66] fix: conjugate coefficients when a fermionic term is
 merged with its adjoint

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index db89652..97617ce 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -148,6 +148,7 @@ class FermionicOperator(Hamiltonian):
                 if daggered_sorted_term in new_terms_dict:
                     sorted_term = daggered_sorted_term
                     flip_sign = daggered_flip_sign
+                    coeff = np.conj(coeff)
 
             # Compute the new coefficient.
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
-- 
2.43.0


From 3ef9ee09ffc7c3acf7f3f58c9267d0730bacfc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:40 +0000
Subject: [PATCH 41/66] fix: compare fermionic operators in reduced form and
 with conjugate coefficients

---
 src/qrisp/operators/fermionic/fermionic_operator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index 97617ce..a8c1f1e 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -270,11 +270,13 @@ class FermionicOperator(Hamiltonian):
             return False
 
         for term, coeff in reduced_self.terms_dict.items():
-            if term not in other.terms_dict:
+            if term not in reduced_other.terms_dict:
                 daggered_sorted_term, flip_sign = term.dagger().sort()
                 if daggered_sorted_term not in reduced_other.terms_dict:
                     return False
-                elif reduced_self.terms_dict[term] != flip_sign * reduced_other.terms_dict[daggered_sorted_term]:
+                elif reduced_self.terms_dict[term] != flip_sign * np.conj(
+                    reduced_other.terms_dict[daggered_sorted_term]
+                ):
                     return False
                 continue
 
-- 
2.43.0


From 6ad2b9a72476b1b39199b9e05517a8b3752d8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 42/66] fix: simulate every group of terms once in
 trotterization with the commuting method

---
 src/qrisp/operators/qubit/qubit_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index f9b1f74..53aa39c 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1829,7 +1829,7 @@ class QubitOperator(Hamiltonian):
                 for com_group in commuting_groups:
                     qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
                     for qw_group in qw_groups:
-                        with conjugate(com_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
+                        with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
                             for intersect_group in intersect_groups:
                                 for term, coeff in intersect_group.terms_dict.items():
-- 
2.43.0


From 85ffc118c144a7e9c5356206c32ca3f7928e030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 43/66] fix: correct signs of diagonal terms when the basis
 change permutes more than two qubits

---
 src/qrisp/operators/qubit/qubit_operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 53aa39c..2412cf1 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1237,10 +1237,10 @@ class QubitOperator(Hamiltonian):
                 # No factor (-1) occurs if H S^{-1} P S H is applied (i.e., H and S) for any P in {X,Y,Z}
 
                 s_vector = np.zeros(m, dtype=int)
-                s_vector[s_list] = 1
+                s_vector[perm[s_list]] = 1
                 h_vector = np.zeros(m, dtype=int)
                 h_vector[h_list] = 1
-                sh_vector = s_vector[perm] + h_vector % 2
+                sh_vector = s_vector + h_vector % 2
                 sign_vector = sh_vector @ (x_matrix[qb_indices] * z_matrix[qb_indices]) % 2
 
                 # Lower triangular part of A
-- 
2.43.0


From 20e526cd26885998ac384d15adbb50184eecd182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 44/66] fix: keep qubits with projectors diagonal in the basis
 change of commuting terms

---
 src/qrisp/operators/qubit/qubit_operator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 2412cf1..f428857 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1132,6 +1132,9 @@ class QubitOperator(Hamiltonian):
         ladder_conjugation_performed = False
         ladder_indices = []
 
+        # Qubits with projectors need to stay in the computational basis
+        projector_indices = set()
+
         if method == "commuting_qw":
             # We track which qubit is in which basis to raise an error if a
             # violation with the requirement of qubit wise commutativity is detected.
@@ -1184,6 +1187,7 @@ class QubitOperator(Hamiltonian):
             x_vectors = []
             z_vectors = []
             for term, coeff in self.terms_dict.items():
+                projector_indices.update(k for k, v in term.factor_dict.items() if v in ["P0", "P1"])
                 x_vector, z_vector = term.binary_representation(n)
                 x_vectors.append(x_vector)
                 z_vectors.append(z_vector)
@@ -1193,6 +1197,8 @@ class QubitOperator(Hamiltonian):
             # Find qubits (rows) on which Pauli X,Y,Z operatos act
             qb_indices = []
             for k in range(n):
+                if k in projector_indices:
+                    continue
                 if not (np.all(x_matrix[k] == 0) and np.all(z_matrix[k] == 0)):
                     qb_indices.append(k)
             m = len(qb_indices)
@@ -1321,7 +1327,7 @@ class QubitOperator(Hamiltonian):
                 prefactor *= 0.5
 
             for k, v in term.factor_dict.items():
-                if v in ["P0", "P1"]:
+                if v in ["P0", "P1"] or k in projector_indices:
                     new_factor_dict[k] = v
 
             new_term = QubitTerm(new_factor_dict)
-- 
2.43.0


From f20db550a22e995cdaa6c2178b2995fef51e371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:17 +0000
Subject: [PATCH 45/66] fix: do not lower the quotient estimate of BigInteger
 division when its remainder exceeds a limb

---
 .../arithmetic/jasp_arithmetic/jasp_bigintiger.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index feefe67..25d816f 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -1227,14 +1227,18 @@ def _remainder_division_knuth(u: jnp.ndarray, v: jnp.ndarray) -> tuple[jnp.ndarr
                         vm2 = jnp.uint64(v_norm[m - 2])
                         u0 = jnp.uint64(u_norm[ujm - 2])
 
+                        # (the estimate is exact if rhat does not fit into a limb)
                         cond1 = jnp.logical_and(
-                            qhat == jnp.uint64(0xFFFFFFFF),
+                            rhat < BASE64,
                             qhat * vm2 > (rhat << jnp.uint64(32)) + u0,
                         )
                         qhat = jnp.where(cond1, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond1, rhat + den, rhat)
 
-                        cond2 = qhat * vm2 > (rhat << jnp.uint64(32)) + u0
+                        cond2 = jnp.logical_and(
+                            rhat < BASE64,
+                            qhat * vm2 > (rhat << jnp.uint64(32)) + u0,
+                        )
                         qhat = jnp.where(cond2, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond2, rhat + den, rhat)
 
-- 
2.43.0


From 9b0d424eb98d5d7eea837dbd0c392ccfd3595c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:17 +0000
Subject: [PATCH 46/66] fix: create BigInteger from 32 bit integers

---
 .../arithmetic/jasp_arithmetic/jasp_bigintiger.py          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index 25d816f..6cb5b18 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -171,6 +171,13 @@ class BigInteger:
 
         """
 
+        # The limb base does not fit into 32 bit integers
+        n = jnp.asarray(n)
+        if jnp.issubdtype(n.dtype, jnp.unsignedinteger):
+            n = n.astype(jnp.uint64)
+        elif jnp.issubdtype(n.dtype, jnp.integer):
+            n = n.astype(jnp.int64)
+
         def body_fun(i, args):
             digits, num = args
             digits = digits.at[i].set(jnp.uint32(num % BASE))
-- 
2.43.0


From 5f43b9186630549464af4c45bf72563b1c765819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:17 +0000
Subject: [PATCH 47/66] fix: compute the bit size of a BigInteger without
 floating point logarithms

---
 .../arithmetic/jasp_arithmetic/jasp_bigintiger.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index 6cb5b18..413c441 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -916,7 +916,7 @@ class BigInteger:
             ms = lax.while_loop(cond_fun, body_fun, n - 1)
             limb = self.digits[ms]
             # bit length of a 32-bit limb
-            limb_bits = jnp.floor(jnp.log2(jnp.float64(limb))).astype(jnp.int64) + 1
+            limb_bits = jnp.int64(32) - jnp.int64(_clz32(limb))
             return jnp.int64(32) * jnp.int64(ms) + limb_bits
 
         return lax.cond(is_zero, lambda: jnp.int64(0), nonzero_len)
-- 
2.43.0


From 16f820f23691df8d295bd8f818833fdf6a30acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:17 +0000
Subject: [PATCH 48/66] fix: smallest_power_of_two was off by one for powers of
 two

---
 .../arithmetic/jasp_arithmetic/jasp_mod_tools.py             | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
index 872b4fa..6884823 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
@@ -360,8 +360,7 @@ def smallest_power_of_two(n: Union[int, BigInteger]):
 
     """
     if isinstance(n, BigInteger):
-        # bit_size already yields ceil(log2(n)) with 0 for n==0
-        return n.bit_size()
+        return jnp.where(n <= 1, jnp.int64(0), (n - 1).bit_size())
 
     if hasattr(n, "bit_length"):
         return (n - 1).bit_length() if n > 1 else 0
@@ -369,7 +368,7 @@ def smallest_power_of_two(n: Union[int, BigInteger]):
     if check_for_tracing_mode():
         nj = jnp.asarray(n)
         # Avoid log2(0); define result 0 for n<=1
-        return jnp.where(nj <= 1, jnp.int64(0), jnp.ceil(jnp.log2(nj)).astype(jnp.int64))
+        return jnp.where(nj <= 1, jnp.int64(0), 64 - lax.clz(jnp.int64(nj) - 1))
 
     raise TypeError(f"smallest_power_of_two expects int, BigInteger, or traced JAX scalar, got {type(n).__name__}")
 
-- 
2.43.0


From 691e042727102e758bb5c4100033106546961914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:17 +0000
Subject: [PATCH 49/66] fix: unpack the full state in the loop condition of
 egcd

---
 .../alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
index 6884823..2d425d2 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
@@ -281,7 +281,7 @@ def egcd(a: int, b: int):
     """
 
     def cond_fun(state):
-        r, _, _, _ = state
+        r, *_ = state
         return jnp.logical_not(r == 0)
 
     def body_fun(state):
-- 
2.43.0


From edae7e656176c519349cc144796a8612ac65d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:17 +0000
Subject: [PATCH 50/66] fix: make the continued fraction approximation of
 BigIntegers executable

---
 .../jasp_arithmetic/jasp_bigintiger.py        | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index 413c441..c72700d 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -1537,7 +1537,6 @@ def bi_montgomery_decode(x_mon: BigInteger, R: BigInteger, modulus: BigInteger)
     return BigInteger(rem2.digits[:n])
 
 
-@jax.jit
 def _bi_all_ones(n_limbs: int) -> BigInteger:
     """Internal: BigInteger with all digits set to 0xFFFFFFFF (acts like +infinity bound).
 
@@ -1619,6 +1618,9 @@ def bi_contfrac_best_approx(
     if max_iters is None:
         max_iters = int(2 * 32 * n_limbs + 4)
 
+    def select(pred, x, y):
+        return jax.lax.cond(pred, lambda: x, lambda: y)
+
     @jax.jit
     def _loop(
         a0: BigInteger,
@@ -1655,21 +1657,21 @@ def bi_contfrac_best_approx(
         q_bound = t * q1 + q0
 
         # Choose final result when done at this step
-        sel_p = jax.lax.select(exceed, p_bound, pn)
-        sel_q = jax.lax.select(exceed, q_bound, qn)
+        sel_p = select(exceed, p_bound, pn)
+        sel_q = select(exceed, q_bound, qn)
 
         # Update result slots if we finish now
-        res_p_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
-        res_q_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
+        res_p_next = select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
+        res_q_next = select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
         done_next = jnp.logical_or(done, jnp.logical_or(exceed, exact_end))
 
         # Prepare state for next iteration (if not done)
-        a_next = jax.lax.select(done_next, a0, b0)
-        b_next = jax.lax.select(done_next, b0, rem)
-        p0_next = jax.lax.select(done_next, p0, p1)
-        p1_next = jax.lax.select(done_next, p1, pn)
-        q0_next = jax.lax.select(done_next, q0, q1)
-        q1_next = jax.lax.select(done_next, q1, qn)
+        a_next = select(done_next, a0, b0)
+        b_next = select(done_next, b0, rem)
+        p0_next = select(done_next, p0, p1)
+        p1_next = select(done_next, p1, pn)
+        q0_next = select(done_next, q0, q1)
+        q1_next = select(done_next, q1, qn)
         i_next = i + jnp.int32(1)
         return (
             a_next,
@@ -1691,7 +1693,7 @@ def bi_contfrac_best_approx(
 
     # Initial CF state: p[-2]=0, p[-1]=1; q[-2]=1, q[-1]=0
     init_state = (a, b, bi0, bi1, bi1, bi0, bi0, bi1, jnp.bool_(False), jnp.int32(0))
-    final_state = lax.while_loop(cond_fn, _loop, init_state)
+    final_state = lax.while_loop(cond_fn, lambda state: _loop(*state), init_state)
     _, _, _, _, _, _, out_p, out_q, _, _ = final_state
     return out_p, out_q
 
-- 
2.43.0


From ad01acfb40251272ffeaf9c710057d2a847545a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:40 +0000
Subject: [PATCH 51/66] fix: honour open classical controls in the Stim
 converter

A Pauli gate conditioned on a classical bit being 0 was exported as conditioned on 1.
---
 src/qrisp/interface/converter/stim_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index ae6d3fb..ac8380b 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -361,6 +361,8 @@ def qrisp_to_stim(
             # Apply the conditional gate for each target qubit
             for q_idx in qubit_indices:
                 stim_circuit.append(stim_gate, [rec_target, q_idx])
+                if op.ctrl_state == "0":
+                    stim_circuit.append(base_op_name.upper(), [q_idx])
 
         # Unknown gate
         else:
-- 
2.43.0


From 569be574493b9386a12f9b1c971102ff810bf11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:40 +0000
Subject: [PATCH 52/66] fix: keep control states and phases in the pytket
 converter

cx, cy and cz with an open control were exported with a closed control.
cp became a controlled Rz and u1 was divided by pi twice.
p became Rz, which lost the phase inside of controlled gates.
---
 .../interface/converter/pytket_converter.py   | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index d8986c6..c33866f 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -37,7 +37,7 @@ def create_tket_instruction(op):
     elif op.name == "h":
         tket_ins = OpType.H
     elif op.name == "p":
-        tket_ins = OpType.Rz
+        tket_ins = OpType.U1
     elif op.name == "x":
         tket_ins = OpType.X
     elif op.name == "y":
@@ -139,30 +139,17 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
-        elif op.name == "cx":
-            # maybe adjustment necessary here
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CX
-            else:
-                tket_ins = OpType.CX
+        elif op.name == "cx" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CX
 
-        elif op.name == "cy":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CY
-            else:
-                tket_ins = OpType.CY
+        elif op.name == "cy" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CY
 
-        elif op.name == "cz":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CZ
-            else:
-                tket_ins = OpType.CZ
+        elif op.name == "cz" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CZ
 
-        elif op.name == "cp":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CRz
-            else:
-                tket_ins = OpType.Rz
+        elif op.name == "cp" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CU1
 
         elif op.name == "sx":
             # bugged -> params empty
@@ -174,8 +161,6 @@ def pytket_converter(qc, boxFlag=False):
             tket_ins = OpType.SXdg
 
         elif op.name == "u1":
-            params[0] = params[0] / np.pi
-            # bugged
             tket_ins = OpType.Rz
         elif op.name == "id":
             params = []
-- 
2.43.0


From c127be5165e2af781cb18664158a6d1b7f3c4b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:40 +0000
Subject: [PATCH 53/66] fix: keep the phase of controlled Cirq gates on import

Controlled powers of Pauli gates lost the phase of the power.
Controlled global phases were imported without their control and are now refused.
---
 src/qrisp/interface/converter/cirq_converter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qrisp/interface/converter/cirq_converter.py b/src/qrisp/interface/converter/cirq_converter.py
index 9ede12b..e58c9f6 100644
--- a/src/qrisp/interface/converter/cirq_converter.py
+++ b/src/qrisp/interface/converter/cirq_converter.py
@@ -313,6 +313,8 @@ def convert_from_cirq(cirq_circuit):
         # argument, so map it to the first available qubit.  Handled
         # outside the dict because of this special qubit-mapping logic.
         if isinstance(gate, cirq.GlobalPhaseGate):
+            if extra_controls is not None:
+                raise ValueError(f"Controlled global phase {op} is not supported by the Cirq to Qrisp converter.")
             phi = np.angle(gate.coefficient)
             if cirq_qubits:
                 qc.append(ops.GPhaseGate(phi), [qubit_map[cirq_qubits[0]]])
@@ -410,6 +412,16 @@ def convert_from_cirq(cirq_circuit):
         else:
             raise ValueError(f"Gate {gate} is not supported by the Cirq to Qrisp converter.")
 
+        # The phase between the Cirq gate and its Qrisp counterpart is
+        # irrelevant unless the gate is controlled.
+        if (ctrl_layers or extra_controls is not None) and not cirq.is_parameterized(inner_gate):
+            phase = np.angle(np.trace(qrisp_op.get_unitary().conj().T @ cirq.unitary(inner_gate)))
+            if not np.isclose(phase, 0, atol=1e-6):
+                phase_qc = QuantumCircuit(qrisp_op.num_qubits)
+                phase_qc.append(qrisp_op, phase_qc.qubits)
+                phase_qc.gphase(phase, phase_qc.qubits[0])
+                qrisp_op = phase_qc.to_gate(name=qrisp_op.name)
+
         # Wrap any ControlledGate layers (inside-out)
         for num_ctrl, ctrl_state in reversed(ctrl_layers):
             qrisp_op = ControlledOperation(
-- 
2.43.0


From fa02f8b60510ab4affa79c1d06ce8b92ef1ffbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:40 +0000
Subject: [PATCH 54/66] fix: keep phases, parameters and conditions in the
 Qiskit converter

Import: bare parameters, cu gates and if_else operations raised or lost their condition.
Import: u1 and sx differ from the Qrisp gates by a phase, which is now kept.
Export: r, u1, sx and controlled gates with a definition lost a phase or their parameters.
Export: classical conditions ignored the requested state and all bits but the first.
---
 .../interface/converter/qiskit_converter.py   | 97 +++++++++++++------
 1 file changed, 69 insertions(+), 28 deletions(-)

diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index b59daa4..72be669 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -23,10 +23,15 @@ from qrisp.circuit.standard_operations import op_list
 from qrisp.misc import bin_rep
 
 
+# The phases by which the sx gates of Qiskit differ from their Qrisp counterparts
+sx_phases = {"sx": np.pi / 4, "sx_dg": -np.pi / 4}
+
+
 # Function to convert qrisp quantum circuits to Qiskit quantum circuits
 def convert_to_qiskit(qc, transpile=False):
     from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
     from qiskit.circuit import Parameter
+    from qiskit.circuit.library import RXGate
 
     if transpile:
         from qrisp.circuit.transpiler import transpile
@@ -93,10 +98,8 @@ def convert_to_qiskit(qc, transpile=False):
             qiskit_ins.name = op.name
 
         elif op.name == "gphase":
-            temp_qc = QuantumCircuit(1)
-            temp_qc.global_phase += float(params[0])
-            qiskit_ins = temp_qc.to_gate()
-            qiskit_ins.name = "gphase"
+            qiskit_qc.global_phase += params[0]
+            continue
 
         elif isinstance(op, ClControlledOperation):
             q_reg = QuantumRegister(op.num_qubits)
@@ -105,15 +108,21 @@ def convert_to_qiskit(qc, transpile=False):
             try:
                 from qiskit.circuit import IfElseOp
 
-                qregs = [qiskit_qc.qregs[qc.qubits.index(qb)] for qb in qc.data[i].qubits]
-                body_qc = QuantumCircuit(*qregs)
+                body_qc = QuantumCircuit(qubit_list, clbit_list)
+                base_clbits = clbit_list[op.num_control :]
                 if op.base_op.definition:
-                    body_qc = body_qc.compose(op.base_op.definition.to_qiskit())
+                    body_qc = body_qc.compose(op.base_op.definition.to_qiskit(), qubit_list, base_clbits)
                 else:
                     base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
-                    body_qc.append(base_qiskit_ins, qubit_list)
-                qiskit_ins = IfElseOp((clbit_list[0], 1), true_body=body_qc)
-                clbit_list = []
+                    body_qc.append(base_qiskit_ins, qubit_list, base_clbits)
+                condition = (clbit_list[0], int(op.ctrl_state[0]))
+                if op.num_control > 1:
+                    from qiskit.circuit.classical import expr
+
+                    condition = expr.lift(True)
+                    for clbit, bit in zip(clbit_list, op.ctrl_state):
+                        condition = expr.bit_and(condition, clbit if bit == "1" else expr.bit_not(clbit))
+                qiskit_ins = IfElseOp(condition, true_body=body_qc)
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                 cl_reg = ClassicalRegister(op.num_clbits)
@@ -129,21 +138,20 @@ def convert_to_qiskit(qc, transpile=False):
             if len(base_name) == 1:
                 base_name = base_name.upper()
 
-            if op.base_operation.definition:
-                qiskit_definition = convert_to_qiskit(op.base_operation.definition)
-                base_gate = qiskit_definition.to_gate()
-                base_gate.name = op.base_operation.name
-                qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
-
-            elif op.base_operation.name == "gphase":
+            if op.base_operation.name == "gphase":
                 qiskit_ins = create_qiskit_instruction(op, params)
             elif op.num_qubits == op.base_operation.num_qubits:
                 qiskit_ins = create_qiskit_instruction(op.base_operation, params)
             else:
                 base_gate = create_qiskit_instruction(op.base_operation, params)
+                if op.base_operation.name in sx_phases:
+                    # The phase difference between Qrisp and Qiskit matters if controlled
+                    base_gate = RXGate(2 * sx_phases[op.base_operation.name])
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
         else:
             qiskit_ins = create_qiskit_instruction(op, params)
+            # Qiskit's sx gates carry an additional phase
+            qiskit_qc.global_phase -= sx_phases.get(op.name, 0)
 
         # Append to qiskit circuit
         qiskit_qc.append(qiskit_ins, qubit_list, clbit_list)
@@ -223,7 +231,8 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "p":
         qiskit_ins = qsk_gates.PhaseGate(params[0])
     elif op.name == "u1":
-        qiskit_ins = qsk_gates.PhaseGate(params[0])
+        # In Qrisp, u1 is an RZ rotation
+        qiskit_ins = qsk_gates.RZGate(params[0])
     elif op.name == "s":
         qiskit_ins = qsk_gates.SGate()
     elif op.name == "s_dg":
@@ -243,7 +252,8 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "u3":
         qiskit_ins = qsk_gates.U3Gate(*params)
     elif op.name == "r":
-        qiskit_ins = qsk_gates.RGate(*params)
+        # Qrisp's r gate is not the r gate of Qiskit
+        qiskit_ins = qsk_gates.U3Gate(-params[0], params[1], -params[1])
     elif isinstance(op, PRXGate):
         qiskit_ins = qsk_gates.RGate(op.alpha, op.beta)
     elif op.name == "id":
@@ -266,9 +276,11 @@ def create_qiskit_instruction(op, params=[]):
 
 op_dic = {op().name: op for op in op_list}
 op_dic["u"] = op_dic["u3"]
+op_dic["u1"] = op_dic["p"]
 
 
 def convert_from_qiskit(qiskit_qc):
+    from qiskit import ClassicalRegister
     from qiskit import QuantumCircuit as QiskitQuantumCircuit
     from qiskit.circuit import ControlledGate, ParameterExpression
 
@@ -311,6 +323,8 @@ def convert_from_qiskit(qiskit_qc):
 
     from sympy import sympify
 
+    global_phase = getattr(qiskit_qc, "global_phase", 0)
+
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
 
@@ -318,9 +332,14 @@ def convert_from_qiskit(qiskit_qc):
             condition_bits = [cb_dic[cb] for cb in qiskit_op.condition_bits]
             if condition_bits:
                 condition_value = qiskit_op.condition[1]
-        elif hasattr(qiskit_op, "is_control_flow") and qiskit_op.is_control_flow():
-            condition_bits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
-            condition_value = qiskit_op.condition[1]
+        elif hasattr(qiskit_qc.data[i], "is_control_flow") and qiskit_qc.data[i].is_control_flow():
+            if qiskit_op.name != "if_else" or len(qiskit_op.blocks) > 1 or not isinstance(qiskit_op.condition, tuple):
+                raise Exception("Could not convert Qiskit operation " + str(qiskit_op.name) + " to Qrisp")
+            condition_bits = qiskit_op.condition[0]
+            if not isinstance(condition_bits, ClassicalRegister):
+                condition_bits = [condition_bits]
+            condition_bits = [cb_dic[cb] for cb in condition_bits]
+            condition_value = int(qiskit_op.condition[1])
         else:
             condition_bits = []
 
@@ -335,7 +354,7 @@ def convert_from_qiskit(qiskit_qc):
             elif isinstance(p, np.number):
                 qrisp_params.append(p.item())
             elif isinstance(p, ParameterExpression):
-                lambd_expr = sympify(ParameterExpression.sympify(p))
+                lambd_expr = sympify(p.sympify())
 
                 qrisp_params.append(lambd_expr)
 
@@ -344,7 +363,12 @@ def convert_from_qiskit(qiskit_qc):
             elif isinstance(p, complex):
                 qrisp_params.append(p)
             elif isinstance(p, QiskitQuantumCircuit):
-                qiskit_op = p.to_gate()
+                if any(instr.clbits for instr in p.data):
+                    raise Exception("Could not convert classical operations within a Qiskit conditional to Qrisp")
+                body_qc = QiskitQuantumCircuit(p.qubits)
+                for instr in p.data:
+                    body_qc.append(instr)
+                qiskit_op = body_qc.to_gate()
                 break
             else:
                 print(p)
@@ -363,7 +387,21 @@ def convert_from_qiskit(qiskit_qc):
             from qrisp.circuit import PRXGate as _PRXGate
 
             op = _PRXGate(params[0], params[1])
+        elif controlled_gate and qiskit_op.name == "sx":
+            # Qiskit's sx gate carries an additional phase, which matters if controlled
+            base_qc = QuantumCircuit(1)
+            base_qc.sx(0)
+            base_qc.gphase(sx_phases["sx"], 0)
+            op = base_qc.to_gate(name="sx")
+        elif controlled_gate and qiskit_op.name == "u" and len(params) == 4:
+            # The fourth parameter of the cu gate is the phase of the controlled gate
+            base_qc = QuantumCircuit(1)
+            base_qc.u3(*params[:3], 0)
+            base_qc.gphase(params[3], 0)
+            op = base_qc.to_gate(name="u")
         else:
+            if not condition_bits:
+                global_phase += sx_phases.get(qiskit_op.name, 0)
             try:
                 op = op_dic[qiskit_op.name](*params)
             except KeyError:
@@ -371,7 +409,7 @@ def convert_from_qiskit(qiskit_qc):
                     op = op_dic[qiskit_op.name.lower()](*params)
                 except KeyError:
                     if qiskit_op.definition is not None:
-                        op = convert_from_qiskit(qiskit_op.definition).to_gate(name=qiskit_op.name)
+                        op = convert_from_qiskit(qiskit_op.definition).to_op(name=qiskit_op.name)
                     else:
                         raise Exception("Could not convert Qiskit operation " + str(qiskit_op.name) + " to Qrisp")
 
@@ -390,7 +428,7 @@ def convert_from_qiskit(qiskit_qc):
         clbits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
 
         if condition_bits:
-            clbits += condition_bits
+            clbits = condition_bits
             op = op.c_if(len(condition_bits), condition_value)
 
         qc.append(op, qubits, clbits)
@@ -398,7 +436,10 @@ def convert_from_qiskit(qiskit_qc):
     # Propagate Qiskit's global phase (stored as a circuit attribute,
     # not an instruction).  Dropping it changes the unitary — critical
     # for controlled operations built from gate definitions with phase.
-    if abs(getattr(qiskit_qc, "global_phase", 0)) > 1e-10:
-        qc.gphase(qiskit_qc.global_phase, qc.qubits[0])
+    if isinstance(global_phase, ParameterExpression):
+        global_phase = sympify(global_phase.sympify())
+
+    if isinstance(global_phase, Expr) or abs(global_phase) > 1e-10:
+        qc.gphase(global_phase, qc.qubits[0])
 
     return qc
-- 
2.43.0


From 90c2803ec404432e0e83e823af4e9490fa044746 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Sun, 15 Nov 2026 06:55:50 +0000
Subject: [PATCH 55/66] fix: keep symbols of expressions substituted by
 bind_parameters

Replacing a parameter by an expression such as -alpha dropped alpha from
abstract_params. A later binding then skipped the definition of the gate,
so inverted traced programs contained gates with unbound angles.
---
 src/qrisp/circuit/operation.py       | 5 +++--
 src/qrisp/circuit/quantum_circuit.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 4ce37ac..502f59d 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -414,7 +414,8 @@ class Operation:
         res = self.copy()
         res.params = new_params
         res.__dict__.pop("lambdified_params", None)
-        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
+        # Symbols can also be substituted by expressions containing symbols
+        res.abstract_params = set().union(*[arg.free_symbols for arg in repl_args if isinstance(arg, Expr)])
 
         if res.definition is not None:
             res.definition = res.definition.bind_parameters(subs_dic)
@@ -822,7 +823,7 @@ class PTControlledOperation(Operation):
         res.params = res.base_operation.params
         # The copied unitaries (if any) belong to the unbound operation
         res.__dict__.pop("unitary", None)
-        res.abstract_params = set(self.abstract_params) - set(subs_dic.keys())
+        res.abstract_params = set(res.base_operation.abstract_params)
         res.permeability = dict(self.permeability)
 
         return res
diff --git a/src/qrisp/circuit/quantum_circuit.py b/src/qrisp/circuit/quantum_circuit.py
index 8f4a4df..a5297ad 100644
--- a/src/qrisp/circuit/quantum_circuit.py
+++ b/src/qrisp/circuit/quantum_circuit.py
@@ -1120,7 +1120,7 @@ class QuantumCircuit:
 
             subs_circ.data.append(Instruction(op, ins.qubits, ins.clbits))
 
-        subs_circ.abstract_params = set()
+        subs_circ.abstract_params = set().union(*[ins.op.abstract_params for ins in subs_circ.data])
         return subs_circ
 
     def to_latex(self, **kwargs) -> str:
-- 
2.43.0


From cae1b1dc16fc77be46384c7b5c21d56683e6e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:17 +0000
Subject: [PATCH 56/66] fix: decode quantum arrays with large or undefined
 labels

---
 src/qrisp/core/quantum_array.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 81f8b94..96e9484 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -746,24 +746,18 @@ class QuantumArray:
 
         from qrisp.qtypes.quantum_float import QuantumFloat
 
-        if isinstance(self.qtype, QuantumFloat):
-            if self.qtype.exponent >= 0:
-                res = np.zeros(len(flattened_array), dtype=np.int32)
-            else:
-                res = np.zeros(len(flattened_array))
-        else:
-            res = np.zeros(len(flattened_array))
-
         n = len(self.qtype)
 
         bin_string = bin_rep(code_int, len(flattened_array) * n)
 
-        for i in range(len(flattened_array)):
-            if isinstance(self.qtype, QuantumFloat):
-                res[i] = self.qtype.decoder(int(bin_string[i * n : (i + 1) * n], 2))
-            else:
-                res = res.astype("object")
-                res[i] = self.qtype.decoder(int(bin_string[i * n : (i + 1) * n], 2))
+        labels = [self.qtype.decoder(int(bin_string[i * n : (i + 1) * n], 2)) for i in range(len(flattened_array))]
+
+        if isinstance(self.qtype, QuantumFloat):
+            res = _shrink_dtype(np.array(labels))
+        else:
+            res = np.empty(len(flattened_array), dtype="object")
+            for i, label in enumerate(labels):
+                res[i] = label
 
         return OutcomeArray(res.reshape(self.shape))
 
@@ -2208,13 +2202,19 @@ def manipulate_array(q_array, index):
     return q_array[0]
 
 
+# Integer labels are stored as 32-bit integers if they fit
+def _shrink_dtype(array):
+    if array.dtype == np.int64 and np.array_equal(array, array.astype(np.int32)):
+        return array.astype(np.int32)
+    return array
+
+
 class OutcomeArray(np.ndarray):
     def __new__(subtype, ndarray):
         if isinstance(ndarray, list):
             ndarray = np.array(ndarray)
 
-            if ndarray.dtype == np.int64:
-                ndarray = np.array(ndarray, dtype=np.int32)
+            ndarray = _shrink_dtype(ndarray)
 
         obj = super().__new__(subtype, ndarray.shape, dtype=ndarray.dtype)
         indices = product(*[list(range(i)) for i in ndarray.shape])
-- 
2.43.0


From 3720909c07703263c753471e543519ecee30feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:34 +0000
Subject: [PATCH 57/66] fix: negative indices and fused single qubits in
 resource estimates

---
 .../interpreters/count_ops_metric.py             | 16 ++++++++++++----
 .../interpreters/depth_metric.py                 |  6 +++++-
 .../interpreters/num_qubits_metric.py            | 16 ++++++++++++----
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
index 588d885..61f27ce 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
@@ -138,15 +138,23 @@ class CountOpsMetric(BaseMetric):
     def handle_fuse(self, invalues, eqn, context_dic):
 
         # The size of the fused qubit array is the size of the two added.
-        return invalues[0] + invalues[1]
+        # Individual qubits are represented by None and contribute a single qubit.
+        size_a, size_b = [1 if size is None else size for size in invalues]
+        return size_a + size_b
 
     def handle_slice(self, invalues, eqn, context_dic):
 
         # For the slice operation, we need to make sure, we don't go out
         # of bounds.
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
-        return stop - start
+        size, start, stop = invalues
+
+        # Negative indices count from the end of the array.
+        start += (start < 0) * size
+        stop += (stop < 0) * size
+
+        start = jnp.max(jnp.array([start, 0]))
+        stop = jnp.min(jnp.array([stop, size]))
+        return jnp.max(jnp.array([stop - start, 0]))
 
     def handle_quantum_gate(self, invalues, eqn, context_dic):
 
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
index 89f683b..b315ade 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
@@ -195,7 +195,11 @@ class DepthMetric(BaseMetric):
 
         qubit_table_handle, qubit_index = invalues
 
-        qubit_ids_table, _ = qubit_table_handle
+        qubit_ids_table, size = qubit_table_handle
+
+        # The table might be longer than the array, so negative indices
+        # have to be resolved with respect to the size of the array.
+        qubit_index += (qubit_index < 0) * size
 
         # Associate the following in context_dic:
         # Qubit -> qubit_id (integer tracer/array scalar)
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
index f2a9134..e3738f7 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
@@ -178,16 +178,24 @@ class NumQubitsMetric(BaseMetric):
 
         # Associate the following in context_dic:
         # QubitArray -> size1 + size2
-        return invalues[0] + invalues[1]
+        # Individual qubits are represented by None and contribute a single qubit.
+        size_a, size_b = [1 if size is None else size for size in invalues]
+        return size_a + size_b
 
     def handle_slice(self, invalues, eqn, context_dic):
 
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
+        size, start, stop = invalues
+
+        # Negative indices count from the end of the array.
+        start += (start < 0) * size
+        stop += (stop < 0) * size
+
+        start = jnp.max(jnp.array([start, 0]))
+        stop = jnp.min(jnp.array([stop, size]))
 
         # Associate the following in context_dic:
         # QubitArray -> size
-        return stop - start
+        return jnp.max(jnp.array([stop - start, 0]))
 
     def handle_reset(self, invalues, eqn, context_dic):
 
-- 
2.43.0


From 0548867a2c2f0130f0bf1ad818989a987fc86bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:42:40 +0000
Subject: [PATCH 58/66] fix: address the right elements when views of quantum
 arrays are concatenated, duplicated or deleted

---
 src/qrisp/core/quantum_array.py | 46 +++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 96e9484..66cccdb 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -265,7 +265,14 @@ class QuantumArray:
         # Retrieve the index address
         # This can either be an integer or an array slice, depending on what
         # the type of key is
-        sliced_ind_array = self.ind_array[key]
+        if check_for_tracing_mode():
+            sliced_ind_array = self.ind_array[key]
+        else:
+            # Jax clamps indices that are out of bounds, numpy reports them.
+            try:
+                sliced_ind_array = jnp.asarray(np.asarray(self.ind_array)[key])
+            except IndexError:
+                raise Exception(f"Index {key} out of bounds for QuantumArray with shape {self.shape}") from None
 
         if len(sliced_ind_array.shape):
             # If the sliced_ind_array has a non trivial shape,
@@ -288,9 +295,6 @@ class QuantumArray:
                 qv.qs = self.qs
                 return qv
             else:
-                for i in range(len(key)):
-                    if key[i] >= self.shape[i]:
-                        raise Exception(f"Index {key} out of bounds for QuantumArray with shape {self.shape}")
                 return self.qv_list[index]
 
     def __setitem__(self, key, value):
@@ -581,7 +585,7 @@ class QuantumArray:
         if check_for_tracing_mode():
             self.qs.clear_qubits(self.qb_array)
         else:
-            for i in range(self.size):
+            for i in self.ind_array.flatten():
                 self.qv_list[i].delete(verify=verify)
 
     def measure(self):
@@ -955,7 +959,14 @@ class QuantumArray:
 
         res = copy.copy(self)
 
-        ind_array_other_shifted = other.ind_array + self.size
+        # The addresses of the other array come after all elements that are stored in
+        # this array (which might be more than self.size elements if self is a slice).
+        if check_for_tracing_mode():
+            stored_elements = self.qb_array.size // self.qtype_size
+        else:
+            stored_elements = len(self.qv_list)
+
+        ind_array_other_shifted = other.ind_array + stored_elements
 
         concat_ind_array = jnp.concatenate((self.ind_array, ind_array_other_shifted), axis=axis)
 
@@ -1022,12 +1033,15 @@ class QuantumArray:
             qs = self.qs
             qb_array_tracer, qs.abs_qst = create_qubits(self.size * self.qtype_size, qs.abs_qst)
             res.qb_array = DynamicQubitArray(qb_array_tracer)
+            res.ind_array = jnp.arange(self.size).reshape(self.shape)
 
             if init:
                 from qrisp import cx
 
-                for i in jrange(self.size * self.qtype_size):
-                    cx(self.qb_array[i], res.qb_array[i])
+                flat_self = self.flatten()
+                flat_res = res.flatten()
+                for i in jrange(self.size):
+                    cx(flat_self[i], flat_res[i])
 
         else:
             if qs is None:
@@ -1035,8 +1049,10 @@ class QuantumArray:
             else:
                 res.qs = qs
 
+            # Only the elements of this array (which might be a slice) are duplicated.
+            res.ind_array = jnp.arange(self.size).reshape(self.shape)
             res.qv_list = []
-            for i in range(self.size):
+            for i in self.ind_array.flatten():
                 res.qv_list.append(self.qv_list[i].duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
 
         return res
@@ -1087,7 +1103,9 @@ class QuantumArray:
                     (out_view[i] << fun)(self_view[i], other_view[i])
             return out
         # If other is a numpy/jax array, flatten and index element-wise
-        elif isinstance(other, (np.ndarray, jnp.ndarray)):
+        elif isinstance(other, (np.ndarray, jnp.ndarray)) and other.ndim:
+            if not check_for_tracing_mode():
+                other = np.asarray(other)
             flattened_other = other.flatten()
             if isinstance(other, np.ndarray):
                 xrange = range
@@ -1141,8 +1159,8 @@ class QuantumArray:
                 )
             if self.shape != other.shape:
                 raise ValueError(f"Shape mismatch: {self.shape} vs {other.shape}.")
-        # If other is a numpy/jax array, check shape
-        elif isinstance(other, (np.ndarray, jnp.ndarray)):
+        # If other is a numpy/jax array, check shape (traced scalars are broadcast)
+        elif isinstance(other, (np.ndarray, jnp.ndarray)) and other.ndim:
             if self.shape != other.shape:
                 raise ValueError(f"Shape mismatch: {self.shape} vs {other.shape}.")
         # For scalar/QuantumVariable cases, no additional validation needed
@@ -1905,7 +1923,9 @@ class QuantumArray:
             else:
                 for i in range(self_view.size):
                     fun(self_view[i], other_view[i])
-        elif isinstance(other, (np.ndarray, jnp.ndarray)):
+        elif isinstance(other, (np.ndarray, jnp.ndarray)) and other.ndim:
+            if not check_for_tracing_mode():
+                other = np.asarray(other)
             if self.shape != other.shape:
                 raise ValueError(
                     f"Tried to perform element-wise function call with missmatching array shapes ({self.shape} vs {other.shape})"
-- 
2.43.0


From 0262f7e20724a65b6fda4defb0cafccd70ab37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:51 +0000
Subject: [PATCH 59/66] fix: shapes of dot products of quantum arrays

Products of matrices with vectors and of higher dimensional arrays now
have the shape that numpy gives.  Indexing with an empty tuple returns
the array itself.
---
 .../arithmetic/matrix_multiplication.py       | 20 +++++++------------
 src/qrisp/core/quantum_array.py               |  2 +-
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 7a82b29..0ba3f38 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -561,27 +561,21 @@ def dot(a, b, out=None):
         temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
         temp_1 = b.reshape((b.shape[0], 1))
 
-        new_shape = list(b.shape)
-        new_shape[-1] = b.shape[0]
-
-        res = (auto_matmul_wrapper(temp_0, temp_1, out)).reshape(new_shape)
+        res = (auto_matmul_wrapper(temp_0, temp_1, out)).reshape(tuple(a.shape[:-1]))
 
         return res
 
     else:
-        temp_0 = a.reshape((a.size // b.shape[-1], b.shape[-1]))
+        # Sum over the last axis of a and the second-to-last axis of b
+        temp_0 = a.reshape((a.size // a.shape[-1], a.shape[-1]))
 
-        temp_1 = np.swapaxes(b, 0, -2)
-        temp_1 = np.reshape(temp_1, (temp_1.shape[0], temp_1.size // temp_1.shape[0]))
+        axes = list(range(b.ndim))
+        axes.insert(0, axes.pop(-2))
+        temp_1 = b.transpose(tuple(axes)).reshape((b.shape[-2], b.size // b.shape[-2]))
 
         res = auto_matmul_wrapper(temp_0, temp_1, out)
 
-        res_shape = list(temp_1.shape)
-        res_shape.pop(-2)
-
-        res_shape = list(temp_0.shape)[:-1] + res_shape
-
-        return np.reshape(res, res_shape)
+        return res.reshape(tuple(a.shape[:-1]) + tuple(b.shape[:-2]) + (b.shape[-1],))
 
 
 def tensordot(a, b, axes):
diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 66cccdb..fc6d865 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -254,7 +254,7 @@ class QuantumArray:
             return conjugate(manipulate_array)(self, key)
 
         if isinstance(key, tuple):
-            if all(isinstance(index, QuantumVariable) for index in key):
+            if len(key) and all(isinstance(index, QuantumVariable) for index in key):
                 merge([self.qs, key[0].qs])
                 return conjugate(manipulate_array)(self, key)
 
-- 
2.43.0


From a0e65c3507a961d66a94a2a6c37992ce0644483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:51 +0000
Subject: [PATCH 60/66] fix: results of finished jobs and of joint measurements

A Qiskit job whose status was polled before its result returned None.
Joint measurements kept only one of several outcomes with equal labels.
---
 src/qrisp/interface/measurement_result.py               | 4 +++-
 src/qrisp/interface/provider_backends/qiskit_backend.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/interface/measurement_result.py b/src/qrisp/interface/measurement_result.py
index 10e81c3..eee1f26 100644
--- a/src/qrisp/interface/measurement_result.py
+++ b/src/qrisp/interface/measurement_result.py
@@ -406,6 +406,7 @@ class MultiMeasurementResult(LazyDict):
 
         new_counts: dict = {}
         for bitstring, count in raw_counts.items():
+            bitstring = bitstring.replace(" ", "")
             labels = []
             offset = 0
             for j, cl_reg in enumerate(regs):
@@ -429,7 +430,8 @@ class MultiMeasurementResult(LazyDict):
 
             outcome = tuple(labels)
             try:
-                new_counts[outcome] = count / total
+                # Distinct bitstrings may decode to the same label.
+                new_counts[outcome] = new_counts.get(outcome, 0) + count / total
             except TypeError as exc:
                 raise TypeError(
                     "Tried to create measurement outcome dic for QuantumVariable with unhashable labels"
diff --git a/src/qrisp/interface/provider_backends/qiskit_backend.py b/src/qrisp/interface/provider_backends/qiskit_backend.py
index b751f18..37dc2c4 100644
--- a/src/qrisp/interface/provider_backends/qiskit_backend.py
+++ b/src/qrisp/interface/provider_backends/qiskit_backend.py
@@ -139,7 +139,9 @@ class QiskitJob(Job):
         """
         if self._last_known_status in JOB_FINAL_STATES:
             self._raise_for_status(self._last_known_status)
-            return cast(JobResult, self._cached_result)
+            # The status may have been polled before the counts were fetched.
+            if self._cached_result is not None:
+                return self._cached_result
 
         try:
             # Only pass timeout when explicitly requested: local backends such
-- 
2.43.0


From 619999775ff75f7b013dc216c5dea44e8f927a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:57 +0000
Subject: [PATCH 61/66] fix: angles of polynomials with complex coefficients in
 GQSP

The complementary polynomial was conjugated, which only makes no
difference when its coefficients are real.
---
 src/qrisp/algorithms/gqsp/gqsp_angles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/algorithms/gqsp/gqsp_angles.py b/src/qrisp/algorithms/gqsp/gqsp_angles.py
index e84d912..0dffc9d 100644
--- a/src/qrisp/algorithms/gqsp/gqsp_angles.py
+++ b/src/qrisp/algorithms/gqsp/gqsp_angles.py
@@ -188,8 +188,8 @@ def _inlft(a: "ArrayLike", b: "ArrayLike") -> Array:
         # Return the new carry state and the output we want to accumulate (Fk)
         return (a_star_new, b_new), Fk
 
-    # Initial state for the carry
-    initial_carry = (jnp.conjugate(a), b)
+    # Initial state for the carry: polynomials with |a_star|^2 + |b|^2 = 1 on the unit circle
+    initial_carry = (a, b)
 
     # Execute the scan loop for the length of 'a'
     # jax.lax.scan returns the final state (which we ignore with '_') and the stacked outputs
-- 
2.43.0


From 7e10ba139ee24fb28c541a8c6657cc0a56783f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:57 +0000
Subject: [PATCH 62/66] fix: qubitization walk operators are not Hermitian
 unitaries

Transforming a walk operator again relied on the wrong flag.
---
 src/qrisp/block_encodings/block_encoding_base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/qrisp/block_encodings/block_encoding_base.py b/src/qrisp/block_encodings/block_encoding_base.py
index 1aafccc..756d2aa 100644
--- a/src/qrisp/block_encodings/block_encoding_base.py
+++ b/src/qrisp/block_encodings/block_encoding_base.py
@@ -853,7 +853,6 @@ class BlockEncoding:
                 self._anc_templates,
                 new_unitary_hermitian,
                 num_ops=self.num_ops,
-                is_hermitian=True,
             )
 
         # We construct a strictly Hermitian block-encoding of A = (A + A†)/2.
@@ -890,7 +889,6 @@ class BlockEncoding:
             new_anc_templates,
             new_unitary,
             num_ops=self.num_ops,
-            is_hermitian=True,
         )
 
     def _hermitianization(self) -> BlockEncoding:
@@ -930,7 +928,6 @@ class BlockEncoding:
             new_anc_templates,
             new_unitary,
             num_ops=self.num_ops,
-            is_hermitian=True,
         )
 
     def chebyshev(self, k: int, rescale: bool = True) -> BlockEncoding:
-- 
2.43.0


From 96e4a1ef798e996d950b358267acf97c15a633d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:12:57 +0000
Subject: [PATCH 63/66] fix: block encodings of a single unitary with negative
 coefficient or without ancillas

The normalisation became negative, which broke sums of encodings.
Reflections about an empty register raised an IndexError.
---
 src/qrisp/block_encodings/constructors/from_lcu.py | 10 ++++++++--
 src/qrisp/misc/utility.py                          |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/block_encodings/constructors/from_lcu.py b/src/qrisp/block_encodings/constructors/from_lcu.py
index 5d630f2..46b4c44 100644
--- a/src/qrisp/block_encodings/constructors/from_lcu.py
+++ b/src/qrisp/block_encodings/constructors/from_lcu.py
@@ -23,6 +23,7 @@ import numpy.typing as npt
 
 from qrisp.alg_primitives.state_preparation import prepare
 from qrisp.block_encodings.block_encoding_base import BlockEncoding
+from qrisp.core.gate_application_functions import gphase
 from qrisp.environments import conjugate, invert
 from qrisp.jasp import q_switch, qache
 from qrisp.qtypes import QuantumFloat
@@ -146,10 +147,15 @@ def build_from_lcu(
     # Block encoding of a single unitary (up to normalization)
     if m == 1:
         if np.abs(complex_coeffs[0].imag) < _TOLERANCE:
+
+            def signed_unitary(*args):
+                unitaries[0](*args)
+                gphase(np.pi, args[0][0])
+
             return cls(
-                complex_coeffs[0].real,
+                alpha,
                 [],
-                unitaries[0],
+                unitaries[0] if complex_coeffs[0].real >= 0 else signed_unitary,
                 num_ops=num_ops,
                 is_hermitian=is_hermitian,
             )
diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 81c56ff..bf630bf 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -446,6 +446,9 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
             qs = find_qs(args)
         except:
             qs_list = recursive_qs_search([args, kwargs])
+            # Nothing to wrap if no quantum objects are involved
+            if len(qs_list) == 0:
+                return function(*args, **kwargs)
             qs = qs_list[0]
 
         initial_qubits = set(qs.qubits)
-- 
2.43.0


From 96a0c6ebab77c0486b2fe90c28697d0d4b139eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:05:01 +0000
Subject: [PATCH 64/66] fix: simulation of resets and of overwritten classical
 bits

A reset followed by operations that only read the qubit was dropped.
A reset after a measurement was moved in front of operations in between.
A classical bit written twice appeared twice in the outcome.
---
 src/qrisp/simulator/circuit_preprocessing.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index ea9f8a2..bb2e92d 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -744,13 +744,18 @@ def insert_multiverse_measurements(qc):
             meas_clbit = instr.clbits[0]
 
             next_instr_is_reset = False
+            qubit_in_use = False
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
                     if data[j].op.name == "reset":
-                        next_instr_is_reset = True
-                        data.pop(j)
+                        # The reset can only be merged into the measurement
+                        # if no other operation acts on the qubit in between
+                        if not qubit_in_use:
+                            next_instr_is_reset = True
+                            data.pop(j)
                         break
-                    elif not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
+                    qubit_in_use = True
+                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
                         break
                 if meas_clbit in data[j].clbits and not isinstance(data[j], ClControlledOperation):
                     break
@@ -763,6 +768,8 @@ def insert_multiverse_measurements(qc):
             else:
                 new_data.append(Instruction(disentangler, [meas_qubit]))
                 new_measurements.append((instr.qubits[0], instr.clbits[0]))
+                # This measurement overwrites the outcome of a previous one
+                cb_to_qb_dic.pop(meas_clbit, None)
                 continue
 
             qb = qc.add_qubit()
@@ -783,8 +790,7 @@ def insert_multiverse_measurements(qc):
 
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
-                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
-                        break
+                    break
             else:
                 continue
 
-- 
2.43.0


From 80580bd27ed90373843af0957dbf7991eae903b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:17:40 +0000
Subject: [PATCH 65/66] fix: weight infeasible outcomes by their probability in
 the set cover cost function

---
 src/qrisp/algorithms/qaoa/problems/minSetCover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index e7d7b13..dc52e21 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -84,7 +84,7 @@ def create_min_set_cover_cl_cost_function(sets, universe):
             if len(solution_sets) > 0 and set.union(*solution_sets) == universe:
                 cost += len(indices) * prob
             else:
-                cost += len(sets)
+                cost += len(sets) * prob
 
         return cost
 
-- 
2.43.0


From 9a29bcc77d0fdce49614f1b3cbebc4e71fdd7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:58 +0000
Subject: [PATCH 66/66] fix: keep sets that alone contain an element in the set
 cover mixer

---
 src/qrisp/algorithms/qaoa/problems/minSetCover.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/algorithms/qaoa/problems/minSetCover.py b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
index dc52e21..4027f1e 100644
--- a/src/qrisp/algorithms/qaoa/problems/minSetCover.py
+++ b/src/qrisp/algorithms/qaoa/problems/minSetCover.py
@@ -45,11 +45,16 @@ def create_min_set_cover_mixer(sets, universe):
         x(anc)
         for anc_index, element in enumerate(sets[i]):
             other_sets = [item for item in membership_dict[element] if item != i]
-            mcx(
-                [qv[set_index] for set_index in other_sets],
-                anc[anc_index],
-                ctrl_state="0" * len(other_sets),
-            )
+            if len(other_sets) == 0:
+                # No other set contains the element
+                x(anc[anc_index])
+            else:
+                mcx(
+                    [qv[set_index] for set_index in other_sets],
+                    anc[anc_index],
+                    ctrl_state="0" * len(other_sets),
+                )
+
         qbl = QuantumBool()
         mcx(anc, qbl)
         return qbl
-- 
2.43.0


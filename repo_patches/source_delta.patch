From 43df33c40f888de5b337fec0c0294c4284cac657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 01/41] fix: Hadamard gate is the Fourier matrix, and so
 unitary, for dimensions above 3

---
 src/qudiet/circuit_library/standard_gates/h.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/h.py b/src/qudiet/circuit_library/standard_gates/h.py
index 7ebe9b7..b0673f0 100644
--- a/src/qudiet/circuit_library/standard_gates/h.py
+++ b/src/qudiet/circuit_library/standard_gates/h.py
@@ -69,16 +69,13 @@ class HGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _usable_roots_of_unity = np.delete(_roots_of_unity, len(_roots_of_unity) - 1)
-        _unitary_builder = circulant(_usable_roots_of_unity)
-        _unitary_builder_first_row = np.ones(len(_usable_roots_of_unity))
-        _unitary_first = np.vstack([_unitary_builder_first_row, _unitary_builder])
-        _unitary_first_column = np.ones(len(_usable_roots_of_unity) + 1)
-        _unitary_unnormalized = np.c_[_unitary_first_column, _unitary_first]
+        # Entry (j, k) of the qudit Hadamard (Fourier) matrix is w^(j*k), with w
+        # the primitive dims-th root of unity
+        _levels = np.arange(self.dims)
+        _exponents = np.outer(_levels, _levels) % self.dims
+        _unitary_unnormalized = np.real_if_close(
+            np.exp(2j * np.pi * _exponents / self.dims)
+        )
         _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
 
         return self.backend.matrix(_unitary)
-- 
2.43.0


From 8e2c7cd1fac3bf1b45daf17bdd1d1d8b5b2629dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 02/41] fix: Z gate multiplies level s by w^s instead of an
 unordered list of roots

---
 src/qudiet/circuit_library/standard_gates/z.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/z.py b/src/qudiet/circuit_library/standard_gates/z.py
index c1ea11a..0783a2f 100644
--- a/src/qudiet/circuit_library/standard_gates/z.py
+++ b/src/qudiet/circuit_library/standard_gates/z.py
@@ -67,12 +67,11 @@ class ZGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _roots_of_unity = np.flipud(_roots_of_unity)
-        _unitary = np.diag(np.flipud(_roots_of_unity))
+        # Ascending powers 1, w, w^2, ... of the primitive dims-th root of unity
+        _roots_of_unity = np.real_if_close(
+            np.exp(2j * np.pi * np.arange(self.dims) / self.dims)
+        )
+        _unitary = np.diag(_roots_of_unity)
 
         return self.backend.matrix(_unitary)
 
-- 
2.43.0


From 0bd8bb68590a8a6f25cc5e2b7d1ed14889ecd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 03/41] fix: probability output is the squared magnitude of the
 amplitude

---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index abe83d0..d59ace4 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -70,7 +70,7 @@ class Output:
                         f"|{''.join([str(s) for s in state])}>"
                         if self.output_type == OutputType.print
                         else tuple(state)
-                    ): (d**2 if self.output_method == OutputMethod.probability else d)
+                    ): (abs(d)**2 if self.output_method == OutputMethod.probability else d)
                 }
             ]
         return qoutput
-- 
2.43.0


From 0784ae2e44e0d8db2ce89f7631216fbcbaad3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 04/41] fix: X gate shift is taken modulo the dimension, as CX
 and Toffoli do

---
 src/qudiet/circuit_library/standard_gates/x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/x.py b/src/qudiet/circuit_library/standard_gates/x.py
index 722085c..f5633fc 100644
--- a/src/qudiet/circuit_library/standard_gates/x.py
+++ b/src/qudiet/circuit_library/standard_gates/x.py
@@ -69,7 +69,7 @@ class XGate(QuantumGate, ABC):
         :return: The gate unitary
         """
         _unitary_builder = np.zeros(shape=(self.dims, 1))
-        _unitary_builder[self.plus] = 1
+        _unitary_builder[self.plus % self.dims] = 1
         _unitary = self.backend.matrix(circulant(_unitary_builder))
 
         return _unitary
-- 
2.43.0


From 998cb6cd90cf5619d26fb664d0ee5e51bf5991aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 05/41] fix: circuits keep their own copies of the register and
 initial state lists

---
 src/qudiet/core/quantum_circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e7d06ac..3c38882 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -96,10 +96,10 @@ class QuantumCircuit:
             raise ValueError(
                 "The registers must be defined as a tuple of two integers or a list of integers"
             )
-        self.qregs = qregs
+        self.qregs = qregs if isinstance(qregs, tuple) else list(qregs)
         self.cregs = cregs or 0
         self.name = name or ""
-        self.init_states = init_states or []
+        self.init_states = list(init_states or [])
         self.circuit_output = None
 
         self.op_flow = OperatorFlow()
-- 
2.43.0


From 97c595e2036a84f5442fa527ab49d1632ffd13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 06/41] fix: circuits declared as (length, dimension) report,
 label and place gates like listed ones

---
 src/qudiet/core/quantum_circuit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 3c38882..53e71f6 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -87,11 +87,6 @@ class QuantumCircuit:
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
-        if output is None:
-            output = Output(qregs, OutputType.print, OutputMethod.amplitude)
-
-        self.output_processor = output
-
         if not isinstance(qregs, (tuple, list)):
             raise ValueError(
                 "The registers must be defined as a tuple of two integers or a list of integers"
@@ -112,11 +107,19 @@ class QuantumCircuit:
         if self._is_qregs_tuple:
             self._reg_length = self.qregs[0]
             self._reg_dims = self._reg_length * [self.qregs[1]]
+            self.qregs = self._reg_dims
 
         elif self._is_qregs_list:
             self._reg_length = len(self.qregs)
             self._reg_dims = self.qregs
 
+        if output is None:
+            output = Output(
+                list(self._reg_dims), OutputType.print, OutputMethod.amplitude
+            )
+
+        self.output_processor = output
+
         if self._reg_length > len(self.init_states):
             self.init_states.extend((self._reg_length - len(self.init_states)) * [0])
 
-- 
2.43.0


From fdd5a6d0787a07c85cde644ace53057dec06fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 07/41] fix: gates on two neighbouring registers are checked
 against the product of their dimensions

---
 src/qudiet/circuit_library/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index fa7d082..7e098c3 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -82,7 +82,7 @@ class ArbitaryGate(QuantumGate, ABC):
             if len(self.dims) == 1:
                 assert self._unitary.shape == (self.dims[0], self.dims[0])
             if len(self.dims) == 2:
-                assert self._unitary.shape == self.dims
+                assert self._unitary.shape == (math.prod(self.dims), math.prod(self.dims))
             if len(self.dims) > 2:
                 # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
                 # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-- 
2.43.0


From 05719e897391f144d510627dfae2a5784d8d491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 08/41] fix: toffoli reports whether the gate was accepted

---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 53e71f6..f16d9f9 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -285,7 +285,7 @@ class QuantumCircuit:
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
 
-        return True
+        return _result
 
     def cx(
         self, acting_on: "tuple[int, int]", plus: int, dims: Optional[int] = None
-- 
2.43.0


From 5395a1a3853fda9cc1adc287f79412d1ad5d4bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 09/41] fix: reject gates on negative, repeated or (cx,
 toffoli) missing registers when they are placed

---
 src/qudiet/core/quantum_circuit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index f16d9f9..3ea44d2 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -153,9 +153,13 @@ class QuantumCircuit:
         :param dims: The dimension of the gate
         """
         if type(qreg) is list:
+            if len(set(qreg)) != len(qreg):
+                raise ValueError(
+                    "Illegal placement of gate. A register is specified more than once."
+                )
             return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
 
-        if qreg > self._reg_length - 1:
+        if qreg < 0 or qreg > self._reg_length - 1:
             raise ValueError(
                 "Illegal placement of gate. Register specified is out of circuit bounds."
             )
@@ -279,6 +283,8 @@ class QuantumCircuit:
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
         # Density Matrix Based
+        _controls, _target = qreg
+        self.__validate_gate_inputs([*_controls, _target], None)
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
         )
@@ -301,6 +307,7 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
+        self.__validate_gate_inputs([*acting_on], None)
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
         else:
-- 
2.43.0


From c59777850b7004c887576d43e79a690a206cffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 10/41] fix: gates and outputs keep their own copies of the
 register lists they are given

---
 src/qudiet/core/output.py          | 2 +-
 src/qudiet/core/quantum_circuit.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index d59ace4..8a17338 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -47,7 +47,7 @@ class Output:
         type: OutputType = OutputType.print,
         method: OutputMethod = OutputMethod.probability,
     ):
-        self.base = base
+        self.base = list(base)
         self.output_type = type
         self.output_method = method
 
diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 3ea44d2..5d28c62 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -286,7 +286,9 @@ class QuantumCircuit:
         _controls, _target = qreg
         self.__validate_gate_inputs([*_controls, _target], None)
         _toffoligate = Toffoli(
-            dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
+            dims=self.qregs,
+            qreg=([*_controls], _target),
+            plus=plus, backend=self.backend
         )
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
@@ -314,7 +316,7 @@ class QuantumCircuit:
             active_qregs = self._reg_dims[acting_on[1] : acting_on[0] + 1]
 
         _cxgate = CXGate(
-            qreg=active_qregs, acting_on=acting_on, plus=plus, backend=self.backend
+            qreg=active_qregs, acting_on=(*acting_on,), plus=plus, backend=self.backend
         )
 
         _result = self.__add_moment_to_opflow(acting_on, _cxgate)
@@ -337,7 +339,7 @@ class QuantumCircuit:
             )
         elif type(qreg) is list:
             _gate = gate(
-                qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
+                qreg=list(qreg), dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
             )
         _result = self.__add_moment_to_opflow(qreg, _gate)
         return _result
-- 
2.43.0


From a20e905f4e0d6f11d0553310f65c389d6e639326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 11/41] fix: cx takes exactly one control and one target

---
 src/qudiet/core/quantum_circuit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 5d28c62..b5eb31d 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -309,14 +309,15 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
-        self.__validate_gate_inputs([*acting_on], None)
+        _control, _target = acting_on
+        self.__validate_gate_inputs([_control, _target], None)
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
         else:
             active_qregs = self._reg_dims[acting_on[1] : acting_on[0] + 1]
 
         _cxgate = CXGate(
-            qreg=active_qregs, acting_on=(*acting_on,), plus=plus, backend=self.backend
+            qreg=active_qregs, acting_on=(_control, _target), plus=plus, backend=self.backend
         )
 
         _result = self.__add_moment_to_opflow(acting_on, _cxgate)
-- 
2.43.0


From 0f58d6d4a6139eac476b84d337391b5cae59b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 12/41] fix: QASM RX gate by 180 degrees shifts by one level,
 not by 180

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 4b74fae..0787c14 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -87,7 +87,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
-            if len(_gate.split()) == 3:
+            if re.search("^X", _gate) and len(_gate.split()) == 3:
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
-- 
2.43.0


From 41dfb4f71eb6f140561cccc2699b61bfd965f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 13/41] fix: load indented QASM text, as shown in the README

---
 src/qudiet/qasm/qasm_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 0787c14..83f5556 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,6 +39,8 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
+    # Indentation carries no meaning
+    _data = "\n".join(_line.strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 30a84f269eb6683dd94910f11027e77e0f98110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 14/41] fix: QASM CX keeps the sign of a negative shift

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 83f5556..17d7c63 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -108,7 +108,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall("\d+", _gate.split()[3])[0])
+                _plus = int(re.findall(r"-?\d+", _gate.split()[3])[0])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From 2700d1f037ed82d7ea84f1eacd6e4817685fa541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 15/41] fix: figures of circuits without gates or with
 controlled gates away from register 0

---
 src/qudiet/utility/circuit_draw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index e4a78f1..9ed422b 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -173,15 +173,17 @@ def _draw_toffoli_gate(gate_,i,ax,dpi):
     crtl_,trgt=gate_.acting_on
     crtl=list(crtl_)
     plus=gate_._plus
-    dim=gate_.dims[trgt]
+    dim=gate_.dims[trgt-gate_._acting_on[0]]
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 
 def _draw_cnot_gate(gate,i,ax,dpi):
     crtl,trgt=gate.acting_on
     crtl=[crtl]
     plus=gate._plus
-    dim=gate._qreg[trgt]
-    if gate._qreg[crtl[0]]==2 and gate._qreg[trgt]==2:
+    # The gate only knows the dimensions of the registers it spans
+    low=min(crtl[0],trgt)
+    dim=gate._qreg[trgt-low]
+    if gate._qreg[crtl[0]-low]==2 and dim==2:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
@@ -233,8 +235,6 @@ def draw_circuit_mpl(cir,compress=1):
     bit=len(cir.qregs)
     
     moments=cir.op_flow.peek()
-    moment=moments[1]
-    gates=moment.peek_list()
     
     fig=1
     dpi=plt.rcParams['figure.dpi']
-- 
2.43.0


From e02de99fc792aa27b456784064ed64a990120b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:02 +0000
Subject: [PATCH 16/41] fix: loading and execution times use the monotonic
 clock, not the settable one

---
 experimental.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experimental.py b/experimental.py
index aa2ef1f..ef514bd 100644
--- a/experimental.py
+++ b/experimental.py
@@ -92,11 +92,11 @@ def main():
 
 def routine(file, backend, suffix, verbose):
     try:
-        start = time.time()
+        start = time.perf_counter()
         qc = parse_qasm(file, backend=backend)
-        load = time.time()
+        load = time.perf_counter()
         result = qc.run()
-        end = time.time()
+        end = time.perf_counter()
 
         result = {
             'value': result,
-- 
2.43.0


From fd04993c71b7912b9fdd7a6e7f7e2a635e97362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:02 +0000
Subject: [PATCH 17/41] fix: batch runner stores a result completely or not at
 all

---
 experimental.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/experimental.py b/experimental.py
index ef514bd..47623bd 100644
--- a/experimental.py
+++ b/experimental.py
@@ -2,7 +2,7 @@ from xmlrpc.client import boolean
 from rich.console import Console
 from qudiet.core import backend
 from src.qudiet.qasm.qasm_parser import parse_qasm
-import argparse, glob, pickle, warnings, time, json
+import argparse, glob, os, pickle, warnings, time, json
 import pprint
 
 console = Console()
@@ -107,8 +107,17 @@ def routine(file, backend, suffix, verbose):
 
         output = ".".join(file.split(".")[:-1])+"-"+suffix+'.pkl'
 
-        with open(output, "wb") as out_file:
-            pickle.dump(result, out_file)
+        # written beside its place and then moved there, so that no failure
+        # leaves a damaged result or destroys an earlier one
+        partial = f"{output}.{os.getpid()}.part"
+        try:
+            with open(partial, "wb") as out_file:
+                pickle.dump(result, out_file)
+            os.replace(partial, output)
+        except BaseException:
+            if os.path.exists(partial):
+                os.remove(partial)
+            raise
 
         console.print(f"[bold yellow]---->[white] Result for file [bold green]'{file}': ", result)
 
-- 
2.43.0


From c1b383b4913fe5c0e365bd292692dbeb6def0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:02 +0000
Subject: [PATCH 18/41] fix: listing results goes on past a file that cannot be
 read

---
 experimental.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/experimental.py b/experimental.py
index 47623bd..691ae3c 100644
--- a/experimental.py
+++ b/experimental.py
@@ -83,8 +83,13 @@ def main():
 
     elif operate_on in ["pkl", "pickle"]:
         for file in files:
-            with open(file, "rb") as out_file:
-                result = pickle.load(out_file)
+            try:
+                with open(file, "rb") as out_file:
+                    result = pickle.load(out_file)
+            except Exception as e:
+                warnings.warn(f"[x] File '{file}' got exception '{e}'...")
+                console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\n[x]")
+            else:
                 console.print(f"Result for [yellow]'{file.split('/')[-1]}'[white] found:")
                 console.print(f"\t{result}\n[o]")
     
-- 
2.43.0


From 0a6ec9a2f04299526ecac1ba1bfd05a29a0dc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 19/41] fix: file names and error messages with brackets no
 longer stop the batch runner

---
 experimental.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/experimental.py b/experimental.py
index 691ae3c..82e44f0 100644
--- a/experimental.py
+++ b/experimental.py
@@ -1,5 +1,6 @@
 from xmlrpc.client import boolean
 from rich.console import Console
+from rich.markup import escape
 from qudiet.core import backend
 from src.qudiet.qasm.qasm_parser import parse_qasm
 import argparse, glob, os, pickle, warnings, time, json
@@ -68,11 +69,11 @@ def main():
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-    console.print(f"Analyzing files: [green]{'[white], [green]'.join(files)}[white]\n\n")
+    console.print(f"Analyzing files: [green]{'[white], [green]'.join(map(escape, files))}[white]\n\n")
 
     if operate_on in ["txt", "qasm"]:
         for file in files:
-            display = f"[bold green]Working on {file}..."
+            display = f"[bold green]Working on {escape(file)}..."
             if terminal:
                 with console.status(display) as status:
                     routine(file, backend, suffix, verbose)
@@ -88,10 +89,10 @@ def main():
                     result = pickle.load(out_file)
             except Exception as e:
                 warnings.warn(f"[x] File '{file}' got exception '{e}'...")
-                console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\n[x]")
+                console.print(f"[bold red][x][white] File [bold green]'{escape(file)}'[white] got exception '{escape(str(e))}'...\n[x]")
             else:
-                console.print(f"Result for [yellow]'{file.split('/')[-1]}'[white] found:")
-                console.print(f"\t{result}\n[o]")
+                console.print(f"Result for [yellow]'{escape(file.split('/')[-1])}'[white] found:")
+                console.print(f"\t{escape(str(result))}\n[o]")
     
     pass
 
@@ -124,16 +125,16 @@ def routine(file, backend, suffix, verbose):
                 os.remove(partial)
             raise
 
-        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{file}': ", result)
+        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{escape(file)}': ", result)
 
         if verbose:
-            console.print(f"[bold]saved in [purple]{output}\n")
+            console.print(f"[bold]saved in [purple]{escape(output)}\n")
 
     except Exception as e: #IndexError as ie:
         # result = ie.args
         # print(f"[x] File '{file}' got exception '{e}'...")
         warnings.warn(f"[x] File '{file}' got exception '{e}'...")
-        console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\n[x]")
+        console.print(f"[bold red][x][white] File [bold green]'{escape(file)}'[white] got exception '{escape(str(e))}'...\n[x]")
 
 # operate_on = "pkl"
 # directory_path = "testbench/tof_qutrit" + "/**/*."+operate_on
-- 
2.43.0


From 663eb63f25a6489975289dcaaff9486367ebc803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:20 +0000
Subject: [PATCH 20/41] fix: header tool rewrites a file completely or not at
 all

---
 scripts/license-headers.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 9aed439..914266a 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -32,6 +32,7 @@ error out if 'fix' would have changed the file.
 import datetime
 import os
 import re
+import shutil
 import sys
 from itertools import chain
 from typing import Iterator, List
@@ -130,9 +131,19 @@ def add_header_to_file(filepath: str) -> None:
         if line not in lines_to_keep:
             break
     lines = lines[:i] + license_header_lines + lines[i:]
-    with open(filepath, mode="w") as f:
-        f.truncate()
-        f.write("".join(lines))
+    # Written beside the file and then moved over it, so that no failure
+    # leaves the file empty or cut short
+    target = os.path.realpath(filepath)
+    partial = f"{target}.{os.getpid()}.part"
+    try:
+        with open(partial, mode="w") as f:
+            f.write("".join(lines))
+        shutil.copymode(target, partial)
+        os.replace(partial, target)
+    except BaseException:
+        if os.path.exists(partial):
+            os.remove(partial)
+        raise
     print(f"Fixed {os.path.relpath(filepath, os.getcwd())}")
 
 
-- 
2.43.0


From 8c0cf80735e801b5ca8e8fbdeace218c0618b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:20 +0000
Subject: [PATCH 21/41] fix: header tool does not stack a second header in a
 later year

---
 scripts/license-headers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 914266a..68f8232 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -97,6 +97,14 @@ def find_files_to_fix(sources: List[str]) -> Iterator[str]:
                         yield filepath
 
 
+def same_but_for_year(line: str, header_line: str) -> bool:
+    """A header added in an earlier year still counts as a header."""
+    return line == header_line or (
+        "Copyright (c)" in header_line
+        and re.sub(r"\d{4}", f"{YEAR}", line, count=1) == header_line
+    )
+
+
 def does_file_need_fix(filepath: str) -> bool:
     if not re.search(r"\.pyi?$", filepath):
         return False
@@ -118,7 +126,7 @@ def does_file_need_fix(filepath: str) -> bool:
         for header_line, line in zip(
             license_header_lines, chain((first_license_line,), f)
         ):
-            if line != header_line:
+            if not same_but_for_year(line, header_line):
                 return True
     return False
 
-- 
2.43.0


From b98a3aa766de23e33e2663583db0234303cd9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:20 +0000
Subject: [PATCH 22/41] fix: header goes after the interpreter and coding lines
 also when nothing follows them

---
 scripts/license-headers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 68f8232..a02ccfa 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -138,6 +138,8 @@ def add_header_to_file(filepath: str) -> None:
     for i, line in enumerate(lines):
         if line not in lines_to_keep:
             break
+    else:
+        i = len(lines)
     lines = lines[:i] + license_header_lines + lines[i:]
     # Written beside the file and then moved over it, so that no failure
     # leaves the file empty or cut short
-- 
2.43.0


From 3cf271e9b8f38b0099acb181e9ac07f6e92696b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:47 +0000
Subject: [PATCH 23/41] fix: a run returns its own result also when another
 thread runs the same circuit

---
 src/qudiet/core/quantum_circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index b5eb31d..398b434 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -398,8 +398,10 @@ class QuantumCircuit:
         # FIXIT:  Every time i run `self.op_flow.exec(self.backend)`, the answer changes.
         # FIXED
         result = self.op_flow.exec(self.backend)
-        self.circuit_output = self.output_processor(result)
-        return self.circuit_output
+        # A concurrent run may set circuit_output as well, so it is not read back
+        output = self.output_processor(result)
+        self.circuit_output = output
+        return output
 
     def print_opflow_list(self):
         for i in self.op_flow.peek():
-- 
2.43.0


From 7f8e146f1dc1c22978793675b050c3f9d0b10d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 24/41] fix: text in QASM comments was read as registers,
 amounts or part of an instruction

---
 src/qudiet/qasm/qasm_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 17d7c63..6d2d875 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,8 +39,8 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
-    # Indentation carries no meaning
-    _data = "\n".join(_line.strip() for _line in _data.split("\n"))
+    # Indentation and comments carry no meaning
+    _data = "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 809c858e2dfbb306eaa2217ec19e07b8cc0be1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 25/41] fix: user-defined and Toffoli gates could not be used
 on the GPU backends

is_unitary mixed the gate's host array with device arrays, which CuPy
refuses; the matrix is brought to the device first, as matrix() does.
---
 src/qudiet/core/backend/CUDABackend.py       | 1 +
 src/qudiet/core/backend/CUDASparseBackend.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/qudiet/core/backend/CUDABackend.py b/src/qudiet/core/backend/CUDABackend.py
index a3146fc..c880bae 100644
--- a/src/qudiet/core/backend/CUDABackend.py
+++ b/src/qudiet/core/backend/CUDABackend.py
@@ -70,4 +70,5 @@ class CUDABackend(Backend):
 
     @staticmethod
     def is_unitary(a):
+        a = cp.asarray(a)
         return cp.allclose(cp.eye(len(a)), a.dot(a.T.conj()))
\ No newline at end of file
diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 08c84e9..d0e242b 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -67,4 +67,5 @@ class CUDASparseBackend(Backend):
 
     @staticmethod
     def is_unitary(a):
+        a = cp.asarray(a)
         return cp.allclose(cp.eye(len(a)), a.dot(a.T.conj()))
\ No newline at end of file
-- 
2.43.0


From ee918ddffee61913aa01ccfe4f934dd015f550d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 26/41] fix: every result on the GPU backends was reported
 under the label |0...0>

The indices of a device array are 0-dimensional device arrays, which
Nbase_to_bin divided in place; the result is brought to the host first.
---
 src/qudiet/core/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index 8a17338..0e5c0b9 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -54,6 +54,8 @@ class Output:
     def __call__(self, result):
         if "sparse" in str(type(result)).lower() or hasattr(result, "toarray"):
             result = result.toarray()
+        if hasattr(result, "get"):
+            result = result.get()
         value = result.nonzero()[0]
         distribution = result[value, 0]
         qoutput = []
-- 
2.43.0


From a45c84bcabc56bf50a5eb632e8cc72ed4359b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 27/41] fix: gates given as integer matrices could not be run
 on the sparse GPU backend

cupyx.scipy.sparse holds floats, complex numbers and booleans only.
---
 src/qudiet/core/backend/CUDASparseBackend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index d0e242b..c1121e3 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -59,6 +59,8 @@ class CUDASparseBackend(Backend):
     def matrix(a):
         if isinstance(a, np.ndarray):
             a = cp.array(a)
+        if a.dtype.kind in "iu":  # not supported by cupyx.scipy.sparse
+            a = a.astype(float)
         return sparse.csr_matrix(a)
 
     @staticmethod
-- 
2.43.0


From ac3e18c538164a61bcd94eeab8302a7ad17b4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 28/41] fix: adding a header changed the line endings of CRLF
 sources

The whole file was read and written in text mode, which turned every
CRLF into LF; and no leading line of such a file is recognised unless its
ending is set aside.
---
 scripts/license-headers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index a02ccfa..3a3ec1d 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -132,21 +132,25 @@ def does_file_need_fix(filepath: str) -> bool:
 
 
 def add_header_to_file(filepath: str) -> None:
-    with open(filepath, mode="r") as f:
+    # Line endings stay what they are; the header takes those of the file
+    with open(filepath, mode="r", newline="") as f:
         lines = list(f)
+    header = license_header_lines
+    if lines and lines[0].endswith("\r\n"):
+        header = [line.replace("\n", "\r\n") for line in header]
     i = 0
     for i, line in enumerate(lines):
-        if line not in lines_to_keep:
+        if line.replace("\r\n", "\n") not in lines_to_keep:
             break
     else:
         i = len(lines)
-    lines = lines[:i] + license_header_lines + lines[i:]
+    lines = lines[:i] + header + lines[i:]
     # Written beside the file and then moved over it, so that no failure
     # leaves the file empty or cut short
     target = os.path.realpath(filepath)
     partial = f"{target}.{os.getpid()}.part"
     try:
-        with open(partial, mode="w") as f:
+        with open(partial, mode="w", newline="") as f:
             f.write("".join(lines))
         shutil.copymode(target, partial)
         os.replace(partial, target)
-- 
2.43.0


From cb8878dad6cfbf768bc93034074a845a1276a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 29/41] fix: a directory with brackets in its name was taken
 for a pattern

The batch runner found no circuit in it and said so only by the count.
---
 experimental.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/experimental.py b/experimental.py
index 82e44f0..3d88651 100644
--- a/experimental.py
+++ b/experimental.py
@@ -65,6 +65,9 @@ def arguments():
 
 def main():
     operate_on, directory_path, verbose, backend, suffix, terminal = arguments()
+    if os.path.isdir(directory_path):
+        # brackets in the name of a directory are no pattern
+        directory_path = glob.escape(directory_path)
     directory_path += "/**/*."+operate_on
 
     files = glob.glob(directory_path, recursive = True)
-- 
2.43.0


From 3b4aa368541202eb6275f66526026ae00bc0a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:28 +0000
Subject: [PATCH 30/41] fix: a negative or too high initial state is refused

InitState took -1 for the top level and drew it as |-1>.
---
 src/qudiet/core/init_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 655466c..9de3384 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -40,7 +40,7 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
-        if dim < state or dim < 2:
+        if not 0 <= state < dim or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
             self.dim = dim
-- 
2.43.0


From ee815f74e643e9f7bc4693488a2a17830f5ee31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 31/41] fix: QASM instructions the loader cannot carry out are
 refused

They were dropped silently, lower-case names (x x0) among them, and so was
what followed a comma without a blank; the circuit loaded was another one
(testbench/tof_large/grover_n2). Names are now taken in either case, // starts
a comment, and anything else raises.
---
 src/qudiet/qasm/qasm_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 6d2d875..3f8bb91 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -40,7 +40,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 def circuit_from_qasm(_data, backend: Backend = None):
     # Indentation and comments carry no meaning
-    _data = "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
+    _data = "\n".join(re.split("#|//", _line)[0].strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
@@ -59,8 +59,8 @@ def circuit_from_qasm(_data, backend: Backend = None):
     if backend is None:
         backend = DefaultBackend
 
-    _gates = list(filter(None, _data[1].split("\n")))
-    _found_tofs = list(filter(lambda s: re.match("^Toffoli", s), _gates))
+    _gates = list(filter(None, _data[1].upper().replace(",", " ").split("\n")))
+    _found_tofs = list(filter(lambda s: re.match("^TOFFOLI", s), _gates))
 
     if _found_tofs:
         _toffolis = list(
@@ -69,7 +69,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 set(
                     (
                         re.sub(
-                            r"Toffoli x\d+[, ]+x(\d+)[, ]+x\d+",
+                            r"TOFFOLI X\d+[, ]+X(\d+)[, ]+X\d+",
                             r"\1",
                             ";".join(_found_tofs),
                         )
@@ -113,13 +113,16 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
 
-        elif re.search("^Toffoli", _gate):
+        elif re.search("^TOFFOLI", _gate):
             ints = list(map(int, re.findall("\d+", _gate)))
             _gate_qreg = (ints[:-1], ints[-1])
             _plus = 1
             # qc.toffoli(_gate_qreg, _plus)
             qc.toffoli(_gate_qreg)
 
+        else:
+            raise ValueError(f"Unsupported instruction: {_gate}")
+
     qc.measure_all()
 
     return qc
-- 
2.43.0


From 6aff681065c195d1d5607281562a9be3f256cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:41 +0000
Subject: [PATCH 32/41] fix: QASM registers are placed by their number

They were placed in the order of their declarations, and declarations that
could not be read were dropped, so that gates met other registers.
---
 src/qudiet/qasm/qasm_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 3f8bb91..9b1988d 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -53,9 +53,14 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data[0] = re.sub(r"qubit x(\d+)", r"qudit x\1 (2)", _data[0])
     _data[0] = re.sub(r"qutrit x(\d+)", r"qudit x\1 (3)", _data[0])
 
-    _qregs = [
-        int(re.findall("\d+", _dims)[0]) for _dims in re.findall("\d+\)", _data[0])
-    ]
+    _declared = sorted(
+        (int(_reg), int(_dim))
+        for _reg, _dim in re.findall(r"(\d+)\s*\((\d+)\)", _data[0])
+    )
+    _qregs = [_dim for _, _dim in _declared]
+    _lines = list(filter(None, _data[0].split("\n")))
+    if [_reg for _reg, _ in _declared] != list(range(len(_lines))):
+        raise ValueError("Every register must be declared once, numbered from zero")
     if backend is None:
         backend = DefaultBackend
 
-- 
2.43.0


From e1ca4071a11fb463b6d1742ce716249f5fc7931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 33/41] fix: a failed drawing, or one of several figures, left
 figures open

The next drawing showed them again.
---
 src/qudiet/utility/circuit_draw.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index 9ed422b..02a52f5 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -231,6 +231,16 @@ def _draw_layer(gates,i,ax,dpi):
     return max(width) 
 
 def draw_circuit_mpl(cir,compress=1):
+    others=plt.get_fignums()
+    try:
+        _draw_circuit(cir,compress)
+    finally:
+        # A figure left open would be shown again by the next drawing
+        for num in plt.get_fignums():
+            if num not in others:
+                plt.close(num)
+
+def _draw_circuit(cir,compress):
 
     bit=len(cir.qregs)
     
-- 
2.43.0


From d881b0708ee37a8b8561210ce1d8697330ba12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:28 +0000
Subject: [PATCH 34/41] fix: the header tool passed over directories it could
 not list

---
 scripts/license-headers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 3a3ec1d..743b0d3 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -82,6 +82,11 @@ license_header_lines = [
 ]
 
 
+def stop(error: OSError) -> None:
+    """A directory that cannot be listed must not pass for one without files."""
+    raise error
+
+
 def find_files_to_fix(sources: List[str]) -> Iterator[str]:
     """Iterates over all files and dirs in 'sources' and returns
     only the filepaths that need fixing.
@@ -90,7 +95,7 @@ def find_files_to_fix(sources: List[str]) -> Iterator[str]:
         if os.path.isfile(source) and does_file_need_fix(source):
             yield source
         elif os.path.isdir(source):
-            for root, _, filenames in os.walk(source):
+            for root, _, filenames in os.walk(source, onerror=stop):
                 for filename in filenames:
                     filepath = os.path.join(root, filename)
                     if does_file_need_fix(filepath):
-- 
2.43.0


From 87f9f20f90e98e76271b5f3d82760258742a930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 35/41] fix: shifts by no whole number of levels were accepted

---
 src/qudiet/core/quantum_circuit.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 398b434..6952aa9 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -166,6 +166,16 @@ class QuantumCircuit:
         if dims and dims > self._reg_dims[qreg]:
             raise ValueError("Input dimension is greater than the register dimension.")
 
+    def __validate_shift(self, plus: int) -> int:
+        """
+        Responsible for checking that a register is shifted by a whole number of levels.
+
+        :param plus: The amount by which a gate shifts its target
+        """
+        if int(plus) != plus:
+            raise ValueError("A register can only be shifted by a whole number of levels.")
+        return int(plus)
+
     def __add_moment_to_opflow(
         self,
         qreg: "Union[int, tuple[int, int]]",
@@ -227,6 +237,7 @@ class QuantumCircuit:
         :return: True if everything goes well, else False
         """
         self.__validate_gate_inputs(qreg, dims)
+        plus = self.__validate_shift(plus)
         _xgate = XGate(
             qreg=qreg,
             dims=dims or self._reg_dims[qreg],
@@ -285,6 +296,7 @@ class QuantumCircuit:
         # Density Matrix Based
         _controls, _target = qreg
         self.__validate_gate_inputs([*_controls, _target], None)
+        plus = self.__validate_shift(plus)
         _toffoligate = Toffoli(
             dims=self.qregs,
             qreg=([*_controls], _target),
@@ -311,6 +323,7 @@ class QuantumCircuit:
         # ]
         _control, _target = acting_on
         self.__validate_gate_inputs([_control, _target], None)
+        plus = self.__validate_shift(plus)
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
         else:
-- 
2.43.0


From 52cff95c6a8d63acb55a741564989dae683187c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 36/41] fix: initial states given as booleans gave no state at
 all

---
 src/qudiet/core/init_states.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 9de3384..9d42412 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -23,6 +23,8 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 #
 
+import operator
+
 import numpy as np
 from scipy import sparse
 from scipy.sparse import csr_matrix, dok_matrix
@@ -43,6 +45,8 @@ class InitState:
         if not 0 <= state < dim or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
+            # True and False are states of a qubit, but no index of an array
+            state = int(operator.index(state))
             self.dim = dim
             self.state = state
             self.qreg = qreg
-- 
2.43.0


From c7bbccf2005c60e5ca997339d5a40b0b7e3e48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 37/41] fix: of a longer tuple of registers only two entries
 were used

---
 src/qudiet/core/quantum_circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 6952aa9..6a2a3aa 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -87,7 +87,9 @@ class QuantumCircuit:
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
-        if not isinstance(qregs, (tuple, list)):
+        if not isinstance(qregs, (tuple, list)) or (
+            isinstance(qregs, tuple) and len(qregs) != 2
+        ):
             raise ValueError(
                 "The registers must be defined as a tuple of two integers or a list of integers"
             )
-- 
2.43.0


From 44de179b4c0a25bdb4edcec36a1ed81c2a04b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:54 +0000
Subject: [PATCH 38/41] fix: whether a QASM file could be read depended on the
 locale

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 9b1988d..0599f01 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -33,7 +33,7 @@ from qudiet.utils.numpy import Nbase_to_bin
 
 
 def parse_qasm(filename: str, backend: Backend = None):
-    with open(filename, "r") as f:
+    with open(filename, "r", encoding="utf-8") as f:
         _data = f.read()
     return circuit_from_qasm(_data, backend)
 
-- 
2.43.0


From 12b4e397a7420650ec2d943ed92519de65c3769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 39/41] fix: operands a QASM instruction does not have were
 dropped, and angles that end in 180 taken for 180

---
 src/qudiet/qasm/qasm_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 0599f01..8291aaa 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -90,8 +90,9 @@ def circuit_from_qasm(_data, backend: Backend = None):
     qc = QuantumCircuit(qregs=_qregs, backend=backend)
 
     for _gate in _gates:
-        if re.search("^X", _gate) or (
-            re.search("^RX", _gate) and re.search("180$", _gate)
+        _operands = len(_gate.split()) - 1
+        if (re.search("^X", _gate) and _operands <= 2) or (
+            re.search("^RX", _gate) and _operands == 2 and re.search(r"\s-?180$", _gate)
         ):
             plus = 1
             if re.search("^X", _gate) and len(_gate.split()) == 3:
@@ -99,21 +100,21 @@ def circuit_from_qasm(_data, backend: Backend = None):
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
 
-        elif re.search("^H", _gate):
+        elif re.search("^H", _gate) and _operands == 1:
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.h(qreg=_gate_qreg)
 
-        elif re.search("^Z", _gate):
+        elif re.search("^Z", _gate) and _operands == 1:
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.z(qreg=_gate_qreg)
 
-        elif re.search("^CX", _gate) or re.search("^CNOT", _gate):
+        elif re.search("^CX|^CNOT", _gate) and _operands in (2, 3):
             _gate_qreg = (
                 int(re.findall("\d+", _gate.split()[1])[0]),
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall(r"-?\d+", _gate.split()[3])[0])
+                _plus = int(_gate.split()[3])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From 48ad2676b1b96e3432064938217d206a80fe07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:24 +0000
Subject: [PATCH 40/41] fix: circuits without a single register were accepted,
 and no run of them could succeed

---
 src/qudiet/core/quantum_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 6a2a3aa..6c6a2b1 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -115,6 +115,9 @@ class QuantumCircuit:
             self._reg_length = len(self.qregs)
             self._reg_dims = self.qregs
 
+        if self._reg_length < 1:
+            raise ValueError("A circuit needs at least one register")
+
         if output is None:
             output = Output(
                 list(self._reg_dims), OutputType.print, OutputMethod.amplitude
-- 
2.43.0


From c1dea681b21f9c8851c4ce3fc6320a5f40abe581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 41/41] fix: an object of a GPU backend class gave None for
 every operation

---
 src/qudiet/core/backend/CUDABackend.py       | 2 +-
 src/qudiet/core/backend/CUDASparseBackend.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/backend/CUDABackend.py b/src/qudiet/core/backend/CUDABackend.py
index c880bae..0fcfd4b 100644
--- a/src/qudiet/core/backend/CUDABackend.py
+++ b/src/qudiet/core/backend/CUDABackend.py
@@ -41,7 +41,7 @@ class CUDABackend(Backend):
     def __getattribute__(self, name):
         if not CUDA_HOME:
             raise Exception("CUDA Backend is disabled.")
-        super().__getattribute__(name)
+        return super().__getattribute__(name)
 
     @staticmethod
     def kron(a, b):
diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index c1121e3..f1bc0f8 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -41,7 +41,7 @@ class CUDASparseBackend(Backend):
     def __getattribute__(self, name):
         if not CUDA_HOME:
             raise Exception("CUDA Backend is disabled.")
-        super().__getattribute__(name)
+        return super().__getattribute__(name)
 
     @staticmethod
     def kron(a, b):
-- 
2.43.0


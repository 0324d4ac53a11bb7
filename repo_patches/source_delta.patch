From 39b84e9aac1869ce4f6b45988dcec06baea6f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:41 +0000
Subject: [PATCH 01/23] fix: X lattice readout parsing used a missing attribute
 (DW) and always raised

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..7231742 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -276,7 +276,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From 051bebacd646962efe24c70a79b7d7426021eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 02/23] fix: degeneracy of boundary matches ignored the
 syndrome node with graph index 0

The node index was tested for truth, so index 0 was taken for 'no virtual node'
and only one of its equally close boundary nodes was counted.
---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..4a7dbe5 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From 1a05e0ced75549faefdb541d77b479fff556a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 03/23] fix: decoding appended the virtual nodes to the
 caller's syndrome list

A second decode of the same syndromes therefore saw different hits.
---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 4a7dbe5..d2e4870 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = nodes + self.virtual[syndrome_graph_key]
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From 09abae8f6b531242cd5d29c6d881a3ed31dacbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/23] fix: topological qubits wrote their counters into the
 caller's params

Two qubits built from one params dict shared T and the readout counters, and the
default ancilla of a logical CX shared them with the control, so that stabilize()
after cx() raised on a duplicate register name.
---
 qtcodes/circuits/base.py       | 3 ++-
 qtcodes/circuits/repetition.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..67509b4 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -79,7 +79,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         self.name = name
         self.circ = circ
-        self.params: Dict[str, Any] = params
+        # own copy, as this lattice keeps its counters (e.g. T) in here
+        self.params: Dict[str, Any] = dict(params)
         self._params_validate_and_generate()
 
         self.qregisters: Dict[str, QuantumRegister] = {}  # quantum
diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..4384b39 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -24,7 +24,7 @@ class RepetitionQubit(XXZZQubit):
         name: str = "tq",
         circ: Optional[QuantumCircuit] = None,
     ) -> None:
-        params = self._validate_params(params)
+        params = self._validate_params(dict(params) if params else None)
         super().__init__(params, name, circ)
 
     @staticmethod
-- 
2.43.0


From eae33e43af5e1e32d0eef3dfd5ed7b13b4dc6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/23] fix: XZZX logical readouts raised on lattices of width
 or height 1

Indexing the data register with an empty list of qubits is an error in qiskit.
---
 qtcodes/circuits/xzzx.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..cbdf44d 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -146,16 +146,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -186,16 +184,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-- 
2.43.0


From f7232359c4fed4c60e051831a71c55e12cca1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 06/23] fix: logical CX onto a physical target dephased the
 logical qubit

The Z readout was copied onto the lattice ancilla first, which stayed entangled with
the logical qubit: a logical CNOT of |+>|0> gave a classical mixture, not a Bell pair.
---
 qtcodes/circuits/xxzz.py |  9 +++++----
 qtcodes/circuits/xzzx.py | 12 ++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..9bf2c1c 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,11 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row
+            # Directly onto target: a copy left in the ancilla would dephase this tqubit
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index cbdf44d..5c2e129 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -126,8 +126,16 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row
+            # Directly onto target: a copy left in the ancilla would dephase this tqubit
+            for i in range(self.params["d"][self.W]):
+                if i % 2 == 0:
+                    self.circ.h(self.qregisters["data"][i])
+                    self.circ.cx(self.qregisters["data"][i], target)
+                    self.circ.h(self.qregisters["data"][i])
+                else:
+                    self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From 5681d3ba380f1fdfe382c79d104b6110a72c719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 07/23] fix: entangle_x/entangle_z on one-dimensional lattices

entangle_x raised when there are no X plaquettes, and an empty selection was taken
for 'not given', so that all stabilizers were entangled.
---
 qtcodes/circuits/base.py            | 6 ++++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index 67509b4..0cd4911 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -146,8 +146,10 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        qubit_indices = (
+            qubit_indices if qubit_indices is not None else self.qubit_indices
+        )
+        stabilizers = stabilizers if stabilizers is not None else self.stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 7231742..b4ef502 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -213,14 +213,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From bcf7a7a1e8269fc63d543f09d260ae54c097cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 08/23] fix: sweep_mp always failed, as its lambda can't be
 sent to worker processes

With that repaired, the workers would have raced on the data file, so the parent now
saves the data points.
---
 qtcodes/tools/benchmarking.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 7e908f9..5564af8 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,7 +4,7 @@ benchmarking class for qtcodes
 """
 
 import glob
-
+from functools import partial
 
 import numpy as np
 import matplotlib.pyplot as plt
@@ -151,11 +151,15 @@ class TopologicalBenchmark:
             if physical_error_rates is not None
             else [0.04, 0.07, 0.10, 0.13, 0.16,],
         )
-        p = Pool(4)  # TODO change on HPC
-        single_lambda = lambda physical_error_rate: self.single(
-            physical_error_rate, save_data=save_data, shots=shots
-        )
-        logical_error_rates = p.map(single_lambda, physical_error_rates)
+        # The workers do not save: they would overwrite each other's data points.
+        # functools.partial as a lambda can't be sent to the workers.
+        single_partial = partial(self.single, save_data=False, shots=shots)
+        with Pool(4) as p:  # TODO change on HPC
+            logical_error_rates = p.map(single_partial, physical_error_rates)
+
+        if save_data:
+            for data_point in zip(physical_error_rates, logical_error_rates):
+                self.append_data(*data_point)
 
         self.data["physical_error_rates"] = physical_error_rates
         self.data["logical_error_rates"] = logical_error_rates
-- 
2.43.0


From 03017f2641933113f53ad20ed8f173222d5f92f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 09/23] fix: decoder construction exceeded the recursion limit
 from d = 49 on

The syndrome graph is now traversed in the same order with an explicit stack.
---
 qtcodes/fitters/rotated_surface.py | 36 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..3581d81 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -64,9 +64,16 @@ class RotatedDecoder(LatticeDecoder):
                 self.node_map[syndrome_graph_key][node_label] = self.S[
                     syndrome_graph_key
                 ].add_node(node_label)
-                self._populate_syndrome_graph(
-                    (t,) + start_node, t, [], syndrome_graph_key, 1
-                )
+                # depth first, without recursion, which would limit the code distance
+                visited_nodes: List[TQubit] = []
+                to_visit: List[TQubit] = [(t,) + start_node]
+                while to_visit:
+                    current_node = to_visit.pop()
+                    if current_node not in visited_nodes:
+                        next_nodes = self._populate_syndrome_graph(
+                            current_node, t, visited_nodes, syndrome_graph_key, 1
+                        )
+                        to_visit.extend(reversed(next_nodes))
 
             # connect physical qubits in same location across subgraphs of adjacent times
             syndrome_nodes_t0 = [
@@ -88,8 +95,8 @@ class RotatedDecoder(LatticeDecoder):
         visited_nodes: List[TQubit],
         syndrome_graph_key: str,
         edge_weight: int = 1,
-    ) -> None:
-        """Recursive function to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
+    ) -> List[TQubit]:
+        """Step of populating the syndrome subgraph at time t with syndrome_graph_key X/Z.
         The current_node is connected to neighboring nodes without revisiting a node.
 
         Args:
@@ -101,7 +108,7 @@ class RotatedDecoder(LatticeDecoder):
                                            Defaults to 1.
 
         Returns:
-            None: function is to traverse the syndrome nodes and connect neighbors
+            List[TQubit]: the connected neighbors, to be traversed next
         """
         visited_nodes.append(current_node)
         neighbors = []
@@ -127,7 +134,7 @@ class RotatedDecoder(LatticeDecoder):
 
         # no neighbors to add edges
         if not normal_neighbors and not virtual_neighbors:
-            return
+            return []
 
         # add normal/non-virtual neighbors
         for target in normal_neighbors:
@@ -164,17 +171,10 @@ class RotatedDecoder(LatticeDecoder):
                 edge_weight,
             )  # add edge between current_node and virtual target_node
 
-        # recursively traverse normal neighbors
-        for target in normal_neighbors:
-            self._populate_syndrome_graph(
-                (t,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
-
-        # recursively traverse virtual neighbors
-        for target in virtual_neighbors:
-            self._populate_syndrome_graph(
-                (-1,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
+        # to be traversed next
+        return [(t,) + target for target in normal_neighbors] + [
+            (-1,) + target for target in virtual_neighbors
+        ]
 
     def _valid_syndrome(self, node: TQubitLoc, syndrome_graph_key: str) -> bool:
         """
-- 
2.43.0


From 132f47702606825d48c7920bbed7efe0b3ef6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 10/23] fix: sweep_mp hung after an earlier simulation in the
 same process

---
 qtcodes/tools/benchmarking.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 5564af8..fb70092 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,6 +4,7 @@ benchmarking class for qtcodes
 """
 
 import glob
+from concurrent.futures import ThreadPoolExecutor
 from functools import partial
 
 import numpy as np
@@ -181,17 +182,22 @@ class TopologicalBenchmark:
                 Shots in the circuit simulation.
 
         """
-        results = (
-            execute(
-                self.circ,
-                Aer.get_backend("aer_simulator"),
-                noise_model=self.noise_model_func(physical_error_rate),
-                optimization_level=0,
-                shots=shots,
+        # Aer's default executor is a thread of this process: after a first simulation here,
+        # a worker of sweep_mp (a fork) would wait forever for the thread it did not inherit.
+        with ThreadPoolExecutor(max_workers=1) as executor:
+            backend = Aer.get_backend("aer_simulator")
+            backend.set_options(executor=executor)
+            results = (
+                execute(
+                    self.circ,
+                    backend,
+                    noise_model=self.noise_model_func(physical_error_rate),
+                    optimization_level=0,
+                    shots=shots,
+                )
+                .result()
+                .get_counts()
             )
-            .result()
-            .get_counts()
-        )
         logical_error_rate_value = self.logical_error_rate(
             results, err_prob=physical_error_rate
         )
-- 
2.43.0


From 8638c98977ebee930a2731e7d62e4185273eef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:04 +0000
Subject: [PATCH 11/23] fix: TopologicalAnalysis.plot drew on the current axes
 instead of the given ones

---
 qtcodes/tools/benchmarking.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index fb70092..3533423 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -242,12 +242,12 @@ class TopologicalAnalysis:
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
 
     def plot(self, fig=None, ax=None, log=True, per_round=False, **kwargs):
-        if fig is None:
-            fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
         if ax is None:
+            if fig is None:
+                fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
             ax = fig.subplots()
 
-        plt.plot(
+        ax.plot(
             np.array(self.data["physical_error_rates"]),
             np.array(self.data["logical_error_rates"])
             / (self.params["T"] if per_round else 1.0),
@@ -255,8 +255,8 @@ class TopologicalAnalysis:
             **kwargs,
         )
         if log:
-            plt.yscale("log")
-            plt.xscale("log")
+            ax.set_yscale("log")
+            ax.set_xscale("log")
 
 
 class TopologicalBatchAnalysis:
-- 
2.43.0


From d81cb3a3bf1783f1be9fa027f060fa296adf443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 12/23] fix: decoder drawings of several time steps ignored
 show and returned no figure

---
 qtcodes/fitters/lattice_decoder.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index d2e4870..2b582fa 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -440,8 +440,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             (figure, axes): A matplotlib Figure and Axes object
         """
         if self.params["T"] > 1:
-            self.draw3D(graph)
-            return
+            return self.draw3D(graph, show=show)
 
         node_count = len(graph.nodes())
         scale = 5 / (math.sqrt(node_count) if node_count > 0 else 5)
@@ -472,15 +471,21 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             plt.close(fig)
         return (fig, ax)
 
-    def draw3D(self, graph: rx.PyGraph, angle: Optional[List[float]] = None) -> None:
+    def draw3D(
+        self,
+        graph: rx.PyGraph,
+        angle: Optional[List[float]] = None,
+        show: Optional[bool] = True,
+    ) -> Tuple[figure.Figure, axes.Axes]:
         """Plots a graph with edge labels in 3D.
 
         Args:
             G (rx.PyGraph): Graph to be plotted in 3D.
             angle ([float, float]): Initial 3D angle view. Defaults to [-116, 22]
+            show (bool): whether to display the plot. Defaults to True.
 
         Returns:
-            None: Plot is displayed in plt.show()
+            (figure, axes): A matplotlib Figure and Axes object
         """
 
         angle = [-116, 22] if not angle else angle
@@ -555,4 +560,8 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
         ax.yaxis.pane.set_edgecolor("w")
         ax.zaxis.pane.set_edgecolor("w")
 
-        plt.show()
+        if show:
+            plt.show()
+        else:
+            plt.close(fig)
+        return (fig, ax)
-- 
2.43.0


From 432a8b742b6345cfad35695b39de03090250f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 13/23] fix: loaded distances were labelled d=(3, np.int64(3))

---
 qtcodes/tools/benchmarking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 3533423..a1f3221 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -236,7 +236,7 @@ class TopologicalAnalysis:
 
     def load_data(self):
         data = np.load(self.filename)
-        self.params["d"] = (int(data["d"][0]), (data["d"][1]))
+        self.params["d"] = (int(data["d"][0]), int(data["d"][1]))
         self.params["T"] = int(data["T"])
         self.data["physical_error_rates"] = data["physical_error_rates"]  # TODO
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
-- 
2.43.0


From 66f73f6aa824bf7a022c11f0bd64b81aabd2b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:12 +0000
Subject: [PATCH 14/23] fix: decoders of float pairs raised, and those of lists
 or numpy integers saved to files of their own

---
 qtcodes/fitters/rotated_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 3581d81..dd21ce1 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -47,6 +47,9 @@ class RotatedDecoder(LatticeDecoder):
         if dw % 2 != 1:
             raise LatticeError("Surface code width must be odd!")
 
+        # also given as a list, or as other number types (in the caller's dictionary)
+        self.params = dict(self.params, d=(int(dh), int(dw)))
+
     def _make_syndrome_graph(self) -> None:
         """
         Populates self.S["X"] and self.S["Z"] syndrome rx.PyGraph's
-- 
2.43.0


From e4b34db503cd437e88cf9e0c220642742d871f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:16 +0000
Subject: [PATCH 15/23] fix: negative distances were accepted by decoders, and
 rejected by encoders only after adding registers

---
 qtcodes/circuits/rotated_surface.py | 4 ++++
 qtcodes/fitters/rotated_surface.py  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index b4ef502..9d18333 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -76,6 +76,10 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         dw = self.params["d"][self.W]
         if dh % 2 != 1 or dw % 2 != 1:
             raise LatticeError("Surface code distance must be odd in all dimensions!")
+        if dh < 1 or dw < 1:
+            raise LatticeError(
+                "Surface code distance must be positive in all dimensions!"
+            )
 
         # calculated params
         self.params["T"] = -1  # -1 until a stabilizer round is added!
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index dd21ce1..786b575 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -46,6 +46,8 @@ class RotatedDecoder(LatticeDecoder):
             raise LatticeError("Surface code height must be odd!")
         if dw % 2 != 1:
             raise LatticeError("Surface code width must be odd!")
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code height and width must be positive!")
 
         # also given as a list, or as other number types (in the caller's dictionary)
         self.params = dict(self.params, d=(int(dh), int(dw)))
-- 
2.43.0


From 7f304d12fe08ff4826e83a0334e21d47ffa747f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 16/23] fix: a second topological circuit on the same circuit
 could not add its registers, e.g. those of its CX gates

---
 qtcodes/circuits/circ.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index dfe2665..3db01b5 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -125,17 +125,25 @@ class TopologicalCircuit:
         self.creg: Dict[str, ClassicalRegister] = {}
         self.circ = treg.circ
 
+    def _free_name(self, name: Optional[str]) -> Optional[str]:
+        """
+        None (i.e. a name generated by qiskit) if the circuit, which other topological
+        circuits can share, already has a register of this name.
+        """
+        registers = self.circ.qregs + self.circ.cregs
+        return None if name in [register.name for register in registers] else name
+
     def add_creg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.creg and not override:
             return
-        creg = ClassicalRegister(size=size, name=name, bits=bits)
+        creg = ClassicalRegister(size=size, name=self._free_name(name), bits=bits)
         self.creg[name] = creg
         self.circ.add_register(creg)
 
     def add_qreg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.qreg and not override:
             return
-        qreg = QuantumRegister(size=size, name=name, bits=bits)
+        qreg = QuantumRegister(size=size, name=self._free_name(name), bits=bits)
         self.qreg[name] = qreg
         self.circ.add_register(qreg)
 
-- 
2.43.0


From 17844219f88eb7e2485d52195f11093a3fb65d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 17/23] fix: look-up tables changed with the caller's counts,
 but their totals did not

---
 qtcodes/fitters/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 242bc2e..01c6533 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -151,7 +151,8 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
                 key (str): readout_string
                 val (int): counts
         """
-        self.look_up_table[logical_readout_type][logical_qubit_value] = results
+        # a copy: later changes to results would not agree with the total recorded here
+        self.look_up_table[logical_readout_type][logical_qubit_value] = dict(results)
         self.look_up_table_shots[logical_readout_type][logical_qubit_value] = sum(
             results.values()
         )
-- 
2.43.0


From b88de8a7aea54bb298219d4423dd43a0dad25fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:34 +0000
Subject: [PATCH 18/23] fix: a save cut short (killed, disk full, interrupted)
 lost every point saved before

---
 qtcodes/tools/benchmarking.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index a1f3221..8817563 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,6 +4,8 @@ benchmarking class for qtcodes
 """
 
 import glob
+import io
+import os
 from concurrent.futures import ThreadPoolExecutor
 from functools import partial
 
@@ -211,7 +213,7 @@ class TopologicalBenchmark:
             data = np.load(self.filename)
             physical_error_rates = data["physical_error_rates"]
             logical_error_rates = data["logical_error_rates"]
-        except:
+        except FileNotFoundError:
             physical_error_rates = np.array([])
             logical_error_rates = np.array([])
 
@@ -219,13 +221,18 @@ class TopologicalBenchmark:
         logical_error_rates = np.append(logical_error_rates, logical_error_rate)
 
         indxs = np.argsort(physical_error_rates)
+        contents = io.BytesIO()
         np.savez(
-            self.filename,
+            contents,
             d=self.decoder.params["d"],
             T=self.decoder.params["T"],
             physical_error_rates=physical_error_rates[indxs],
             logical_error_rates=logical_error_rates[indxs],
         )
+        # not in place: a save that is cut short must not lose the points saved before
+        with open(self.filename + ".tmp", "wb") as file:
+            file.write(contents.getvalue())
+        os.replace(self.filename + ".tmp", self.filename)
 
 
 class TopologicalAnalysis:
-- 
2.43.0


From f08eb471a3a0e3be7f08bd1a06a280e09091d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:07 +0000
Subject: [PATCH 19/23] fix: a batch analysis found no file in a directory
 whose name holds [, ] , * or ?

---
 qtcodes/tools/benchmarking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 8817563..150d6ad 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -269,7 +269,7 @@ class TopologicalAnalysis:
 class TopologicalBatchAnalysis:
     def __init__(self, dirname: str):
         self.dirname = dirname
-        self.filenames = glob.glob(self.dirname + "*.npz")
+        self.filenames = glob.glob(glob.escape(self.dirname) + "*.npz")
         self.analyses = []
         for filename in self.filenames:
             self.analyses.append(TopologicalAnalysis(filename))
-- 
2.43.0


From a7f8fc68d9c0a3c56c27aa253e7b550d82841ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:34 +0000
Subject: [PATCH 20/23] fix: drawing a graph from which nodes were removed
 raised or misplaced its nodes

---
 qtcodes/fitters/lattice_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 2b582fa..828d6c4 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -449,7 +449,8 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
         font_size = font_size if font_size is not None else 6 * scale
 
         positions = {}
-        for idx, node in enumerate(graph.nodes()):
+        for idx in graph.node_indices():  # not 0, 1, ... if nodes were removed
+            node = graph[idx]
             positions[idx] = [node[2], -node[1]]
 
         fig = plt.figure(dpi=dpi)
-- 
2.43.0


From cc78b195f10b17ca9f695dd1575f53e95f954d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:50 +0000
Subject: [PATCH 21/23] fix: a rejected topological qubit left an empty
 sub-register behind, e.g. one no later CX could use as its ancilla

---
 qtcodes/circuits/circ.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 3db01b5..2dca376 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -90,11 +90,13 @@ class TopologicalRegister:
             params (Dict[str, int]):
                 Specifies the params for the Tqubit being added
         """
-        if sub_register not in self.tqubits:
-            self.tqubits[sub_register] = {}
-        self.tqubits[sub_register][self.n] = str2qtype[ctype](
+        # first, as it can raise: no empty sub-register should be left behind
+        tqubit = str2qtype[ctype](
             params, name=self.name + "_" + str(self.n), circ=self.circ
         )
+        if sub_register not in self.tqubits:
+            self.tqubits[sub_register] = {}
+        self.tqubits[sub_register][self.n] = tqubit
         self.params.append(params)
         self.n += 1
 
-- 
2.43.0


From 543f5f64a69bcfde000853711063d2dad329a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 22/23] fix: decoders replaced the distance in the caller's
 params, so a second decoder of the same params could get another lattice

---
 qtcodes/fitters/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 01c6533..3e83571 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -24,7 +24,8 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
     def __init__(self, params: Dict) -> None:
         self.S: Dict[str, rx.PyGraph] = {}
         self.node_map: Dict[str, Dict[TQubit, int]] = {}
-        self.params = params
+        # a copy, as the params are completed (e.g. d = 3 becomes (3, 3) or (3, 1))
+        self.params = dict(params)
 
         self.look_up_table: Dict[str, Dict[int, Dict[str, int]]] = {}
         self.look_up_table_shots: Dict[str, Dict[int, int]] = {}
-- 
2.43.0


From 38e31d0fe5bf8ecc8f1027189e1dbf961502da1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:31 +0000
Subject: [PATCH 23/23] fix: complete the caller's params in place again
 (reverts 543f5f6), as users of the decoders rely on it

---
 qtcodes/fitters/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 3e83571..01c6533 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -24,8 +24,7 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
     def __init__(self, params: Dict) -> None:
         self.S: Dict[str, rx.PyGraph] = {}
         self.node_map: Dict[str, Dict[TQubit, int]] = {}
-        # a copy, as the params are completed (e.g. d = 3 becomes (3, 3) or (3, 1))
-        self.params = dict(params)
+        self.params = params
 
         self.look_up_table: Dict[str, Dict[int, Dict[str, int]]] = {}
         self.look_up_table_shots: Dict[str, Dict[int, int]] = {}
-- 
2.43.0


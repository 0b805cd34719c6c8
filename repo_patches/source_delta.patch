From 41bac2100126f7aee9db48539a83cabd975f758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:03 +0000
Subject: [PATCH 1/7] fix: keep the correlated measurement ancilla of
 noisy_circuit clear of every qubit when recursing into REPEAT blocks

The ancilla index was recomputed from the body of the block, so a body that
doesn't touch the highest qubits had its parity measurements performed with a
data qubit as the ancilla.
---
 src/noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..c8ae028 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,14 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self,
+                      circuit: stim.Circuit,
+                      *,
+                      qs: Optional[Set[int]] = None,
+                      ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
+        if ancilla is None:
+            ancilla = circuit.num_qubits
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -164,7 +169,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From be7de6d732cd810bc2a591b627abc02a9e7c4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:03 +0000
Subject: [PATCH 2/7] fix: keep inverted MPP results inverted in the correlated
 parity measurement gadget

---
 src/noise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index c8ae028..abb59c7 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -280,6 +280,8 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    # An inverted target (e.g. `!X0*X1`) inverts the reported result.
+    inverted = t1.is_inverted_result_target != t2.is_inverted_result_target
+    circuit.append_operation('M', [stim.target_inv(ancilla) if inverted else ancilla])
 
     return circuit
-- 
2.43.0


From 45e6bb3c1de50c4d65802bdd136e3310e33cb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:03 +0000
Subject: [PATCH 3/7] fix: honour min_shots and max_shots in
 collect_simulated_experiment_data when batching

max_shots was overshot by a first batch of min_shots, and a max_batch below
min_shots let the statistical stopping rules end a case before min_shots.
---
 src/collect_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..8f59b63 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -147,9 +147,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_shots, max_batch)
         total_shots = 0
         while True:
             t0 = time.monotonic()
@@ -185,10 +183,11 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
-            if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
-                break
-            if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
-                break
+            if total_shots >= min_shots:
+                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
+                    break
+                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
+                    break
             num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
-- 
2.43.0


From 9a31d35aff96b325b3889c8f0ed53cd1ca1f527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 4/7] fix: reject negative sub-round counts instead of
 generating a circuit for some other number of rounds

---
 src/honeycomb_circuit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/honeycomb_circuit.py b/src/honeycomb_circuit.py
index e05f6ff..9f6722a 100644
--- a/src/honeycomb_circuit.py
+++ b/src/honeycomb_circuit.py
@@ -121,7 +121,7 @@ def fault_tolerant_measurement(lay: HoneycombLayout, mtrack: MeasurementTracker)
 def generate_rounds_sd6(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     result = stim.Circuit()
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
     elif n == 1:
         # For a single sub round there's no time to pipeline.
@@ -186,7 +186,7 @@ def generate_rounds_sd6(lay: HoneycombLayout, mtrack: MeasurementTracker) -> sti
 def generate_rounds_pc3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     moments = []
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
     k = 0
     while k < n + 2:
@@ -236,7 +236,7 @@ def generate_rounds_pc3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> sti
 def generate_rounds_em3(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
     moments = []
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
 
     k = 0
@@ -296,7 +296,7 @@ def generate_cycle_SI1000(subround: int, lay: HoneycombLayout, mtrack: Measureme
 
 def generate_rounds_SI1000(lay: HoneycombLayout, mtrack: MeasurementTracker) -> stim.Circuit:
     n = lay.sub_rounds
-    if n == 0:
+    if n <= 0:
         raise NotImplementedError("Zero rounds.")
     if n % 3 != 0:
         raise NotImplementedError(n)
-- 
2.43.0


From 5ba74348f43997a11d585a558815cb985d83a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 5/7] fix: mark low confidence projections in the lambda
 figure, as in the teraquop figure

---
 src/paper/main_render_lambda_figure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index f3849be..244e0df 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -237,6 +237,8 @@ def plot_lambda_combo(all_data: ProblemShotData) -> Tuple[plt.Figure, plt.Axes]:
                 label += " (Standard)"
             ax.plot(lambda_xs, lambda_ys, marker="ov*s"[case_i], label=label, zorder=100 - i)
             ax.fill_between(lambda_xs, lambda_ys_low, lambda_ys_high, alpha=0.3)
+
+        have_any_poor |= bool(poor_ys)
         if have_any_poor:
             ax.scatter(poor_xs, poor_ys, s=200, color="red", zorder=100, alpha=0.3)
 
-- 
2.43.0


From b58b9fa22aaac7cbc2bb189eed669207e4fdb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 6/7] fix: the label of a noisy layout used an invalid format
 and always failed

---
 src/honeycomb_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index ff6f120..4b2a5fd 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -420,7 +420,7 @@ class HoneycombLayout:
             f"{self.data_width}x{self.data_height} data",
         ]
         if self.noise:
-            terms.append(f"noise {self.noise:!r}")
+            terms.append(f"noise {self.noise!r}")
         return ", ".join(terms)
 
 
-- 
2.43.0


From f52eacc175c2234d8ab8aa16b9f13633ea85e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 7/7] fix: let the graph writing script find its modules and
 write its file without networkx's removed pickling

---
 src/paper/write_honeycomb_networkx_graph.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/paper/write_honeycomb_networkx_graph.py b/src/paper/write_honeycomb_networkx_graph.py
index ec657a1..a7d2ab3 100644
--- a/src/paper/write_honeycomb_networkx_graph.py
+++ b/src/paper/write_honeycomb_networkx_graph.py
@@ -1,10 +1,7 @@
 import pathlib
+import pickle
 import sys
 
-import networkx as nx
-
-from paper.main_collect_all import surface_code_circuit
-
 sys.path.append(str(pathlib.Path(__file__).resolve().parents[1]))  # Non-package import directory hack.
 
 from decoding import detector_error_model_to_nx_graph
@@ -22,7 +19,8 @@ def main():
         obs="H",
     ))
     g = detector_error_model_to_nx_graph(c.detector_error_model(decompose_errors=True))
-    nx.readwrite.gpickle.write_gpickle(g, path="test.graph")
+    with open("test.graph", "wb") as f:
+        pickle.dump(g, f, pickle.HIGHEST_PROTOCOL)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From f3798852d1eb7204126e00c157d4eff40cd72762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 01/11] fix: HoneycombLayout.legend_label raised ValueError for
 noisy layouts

---
 src/honeycomb_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index ff6f120..4b2a5fd 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -420,7 +420,7 @@ class HoneycombLayout:
             f"{self.data_width}x{self.data_height} data",
         ]
         if self.noise:
-            terms.append(f"noise {self.noise:!r}")
+            terms.append(f"noise {self.noise!r}")
         return ", ".join(terms)
 
 
-- 
2.43.0


From 54e3ca5f7225e9455c49ce9c00e54795d80b438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 02/11] fix: keep the first of two parallel edges with
 conflicting frame changes, as documented

---
 src/decoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index e80611f..c1e8311 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -244,9 +244,10 @@ def detector_error_model_to_nx_graph(model: stim.DetectorErrorModel) -> nx.Graph
             old_p = edge_data["error_probability"]
             old_frame_changes = edge_data["qubit_id"]
             # If frame changes differ, the code has distance 2; just keep whichever was first.
-            if set(old_frame_changes) == set(frame_changes):
-                p = p * (1 - old_p) + old_p * (1 - p)
-                g.remove_edge(*dets)
+            if set(old_frame_changes) != set(frame_changes):
+                return
+            p = p * (1 - old_p) + old_p * (1 - p)
+            g.remove_edge(*dets)
         g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
 
     def handle_detector_coords(detector: int, coords: np.ndarray):
-- 
2.43.0


From 9f280512b91bc6ef70a694d881ba30948dc4aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 03/11] fix: pymatching predictions omitted observables that no
 matchable error flips

---
 src/decoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoding.py b/src/decoding.py
index c1e8311..e71568c 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -275,4 +275,7 @@ def detector_error_model_to_pymatching_graph(model: stim.DetectorErrorModel) ->
         g.add_edge(k, num_detectors + 1, weight=9999999999)
     g.add_edge(num_detectors, num_detectors + 1, weight=9999999999, qubit_id=list(range(num_observables)))
 
-    return pymatching.Matching(g)
+    matching = pymatching.Matching(g)
+    # Observables that no graphlike error affects still need a column in the predictions.
+    matching.ensure_num_fault_ids(num_observables)
+    return matching
-- 
2.43.0


From 9a10ad27a6f75fb43ab64918e06dccf24fa36ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 04/11] fix: respect min_shots when batches are smaller, and
 max_shots when min_shots exceeds it

---
 src/collect_data.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..8f59b63 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -147,9 +147,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_shots, max_batch)
         total_shots = 0
         while True:
             t0 = time.monotonic()
@@ -185,10 +183,11 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
-            if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
-                break
-            if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
-                break
+            if total_shots >= min_shots:
+                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
+                    break
+                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
+                    break
             num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
-- 
2.43.0


From 2245d3319212b6e7a5e13d3592337b493bff1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 05/11] fix: write the CSV header when appending to a file left
 empty by an interrupted run

---
 src/collect_data.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8f59b63..76b8095 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -93,6 +93,14 @@ class DecodingProblem:
     circuit_maker: Callable[[], stim.Circuit]
 
 
+def _write_csv_header_if_needed(out_path: str, discard_previous_data: bool):
+    path = pathlib.Path(out_path)
+    # An interrupted run can leave behind a file that was created but has no header yet.
+    if discard_previous_data or not path.exists() or path.stat().st_size == 0:
+        with open(out_path, "w") as f:
+            print(CSV_HEADER, file=f)
+
+
 def collect_simulated_experiment_data(problems: List[DecodingProblem],
                                       *,
                                       min_shots: int,
@@ -138,9 +146,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
-            with open(out_path, "w") as f:
-                print(CSV_HEADER, file=f)
+        _write_csv_header_if_needed(out_path, discard_previous_data)
 
     if max_batch is None:
         max_batch = max_shots
@@ -198,9 +204,7 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
-            with open(out_path, "w") as f:
-                print(CSV_HEADER, file=f)
+        _write_csv_header_if_needed(out_path, discard_previous_data)
 
     for problem in problems:
         t0 = time.monotonic()
-- 
2.43.0


From 922ea1a8f04fdcb4eb6913208637f751d5f712b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 06/11] fix: correlated parity measurements inside loops reused
 a circuit qubit as their ancilla

---
 src/noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..c8ae028 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,14 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self,
+                      circuit: stim.Circuit,
+                      *,
+                      qs: Optional[Set[int]] = None,
+                      ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
+        if ancilla is None:
+            ancilla = circuit.num_qubits
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -164,7 +169,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From bfe611485a4285b63f34e449ba5f3a29061f8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 07/11] fix: correlated parity measurements dropped inverted
 result targets

---
 src/noise.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index c8ae028..4413a1e 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -280,6 +280,9 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    if t1.is_inverted_result_target != t2.is_inverted_result_target:
+        circuit.append_operation('M', [stim.target_inv(ancilla)])
+    else:
+        circuit.append_operation('M', [ancilla])
 
     return circuit
-- 
2.43.0


From c6924de87b4e58b2c413198cf88a69f34371cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:20 +0000
Subject: [PATCH 08/11] fix: accept measurements with inverted results in noise
 models

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index 4413a1e..4fcae65 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -103,7 +103,8 @@ class NoiseModel:
                 if op.name in RESET_OPS:
                     post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
                 if op.name in MEASURE_OPS:
-                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    # Noise channels don't accept inverted targets.
+                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", [t.value for t in targets], p)
             elif op.name == "MPP":
                 assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)
                 assert args == [] or args == [0]
-- 
2.43.0


From 5a693d08e82ce538ad07810490399d816b951728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:33 +0000
Subject: [PATCH 09/11] fix: compute log likelihoods in double precision

In single precision the likelihood interval of large samples ends at
points whose likelihood ratio is off by an order of magnitude (e.g. 3e7
errors in 1e8 shots).
---
 src/probability_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/probability_util.py b/src/probability_util.py
index 74c25a2..5d4ebc0 100644
--- a/src/probability_util.py
+++ b/src/probability_util.py
@@ -31,7 +31,7 @@ def log_binomial(*, p: Union[float, np.ndarray], n: int, hits: int) -> Union[flo
     # Clamp probabilities into the valid [0, 1] range (in case float error put them outside it).
     p_clipped = np.clip(p, 0, 1)
 
-    result = np.zeros(shape=p_clipped.shape, dtype=np.float32)
+    result = np.zeros(shape=p_clipped.shape, dtype=np.float64)
     misses = n - hits
 
     # Handle p=0 and p=1 cases separately, to avoid arithmetic warnings.
-- 
2.43.0


From 0f3681b3232f7bbf0e31939c8146e830ea7600ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:41 +0000
Subject: [PATCH 10/11] fix: draw connectors between qubits of a single-file
 patch

In a patch with one row (or column) every operation along it satisfied the
'spans the whole patch' test in the other direction, so its connector was
drawn as two stubs leaving the patch instead of joining the two qubits.
---
 src/circuit_diagrams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/circuit_diagrams.py b/src/circuit_diagrams.py
index c920fa4..fa4ea34 100644
--- a/src/circuit_diagrams.py
+++ b/src/circuit_diagrams.py
@@ -67,14 +67,14 @@ def diagram_3d(values: List[Dict[complex, Any]], connector_levels: List[List[Tup
             v2 = max(b.real, a.real)
             w1 = min(a.imag, b.imag)
             w2 = max(b.imag, a.imag)
-            if v1 == min_r and v2 == max_r:
+            if v1 == min_r and v2 == max_r and v1 != v2:
                 v1 += a.imag * 1j
                 v2 += b.imag * 1j
                 plotted_connectors.append((plot(v1, z), plot(v1 - 0.5, z)))
                 plotted_connectors.append((plot(v2, z), plot(v2 + 0.5, z)))
                 plotted_values[plot(v1 - 0.5, z)] = '~'
                 plotted_values[plot(v2 + 0.5, z)] = '~'
-            elif w1 == min_i and w2 == max_i:
+            elif w1 == min_i and w2 == max_i and w1 != w2:
                 w1 *= 1j
                 w2 *= 1j
                 w1 += a.real
-- 
2.43.0


From 348c1383c5b0ada039b0e549d9d1438c6b80bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 11/11] fix: give plots with many curves enough colours

plot_data cycles through 1800 markers but had only 30 colours, so plotting
more than 30 experiments raised IndexError.
---
 src/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting.py b/src/plotting.py
index 3805e67..d5a5d90 100644
--- a/src/plotting.py
+++ b/src/plotting.py
@@ -38,7 +38,7 @@ def plot_data(data: ProblemShotData,
         ax = fig.add_subplot()
 
     markers = "ov*sp^<>8PhH+xXDd|" * 100
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    colors = list(mcolors.TABLEAU_COLORS) * 100
     order = 0
     d: DecodingProblemDesc
     for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
-- 
2.43.0


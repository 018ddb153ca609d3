From 1d61781e800e8553b57bbd4c22d6526a5dc5c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 1/8] fix: tolerate rounding error in Unitary.close_to with a
 threshold

---
 stoqcompiler/unitary/unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 5dbbe85..6957d40 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -298,7 +298,8 @@ class Unitary:
         distance = self.distance_from(u)
         if threshold is not None:
             max_distance = 1.0 - threshold
-            return distance <= max_distance
+            return (distance <= max_distance
+                    or np.isclose(distance, max_distance, rtol=0.0))
 
         return np.isclose(distance, 0.0)
 
-- 
2.43.0


From 5874bc954ae7019c9b598e4f58a0b75d49f1e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 2/8] fix: store the qubits of a sequence entry as plain
 integers

---
 stoqcompiler/unitary/unitary_sequence_entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..e4a82f4 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -26,7 +26,7 @@ class UnitarySequenceEntry:
         '''
         Creates a UnitarySequenceEntry object.
         '''
-        apply_to = list(apply_to)
+        apply_to = [int(qubit) for qubit in apply_to]
         assert len(apply_to) == len(set(apply_to))
         assert 2**len(apply_to) == unitary.get_dimension()
         assert np.min(apply_to) >= 0
-- 
2.43.0


From 8c7c96d4ca8d46528ce581498f4eeb073e55376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 3/8] fix: keep the inverse mark in
 UnitarySequenceEntry.get_full_unitary

---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index e4a82f4..1af7147 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -164,6 +164,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From 7731b1a88a94843a5c78847d7abcb4700d84b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 4/8] fix: drop the probabilities of excluded primitives
 together with them

---
 stoqcompiler/compiler/compiler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..340ebb3 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -214,10 +214,14 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
-        unitary_primitives = [
-            u for u in unitary_primitives
+        allowed = [
+            i for i, u in enumerate(unitary_primitives)
             if (u.get_allowed_apply_to() is None
                 or len(u.get_allowed_apply_to()) > 0)]
+        unitary_primitives = [unitary_primitives[i] for i in allowed]
+        if probabilities is not None:
+            probabilities = np.array([probabilities[i] for i in allowed])
+            probabilities = probabilities / np.sum(probabilities)
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From 819a1e0e4315f55927c53077463bd793390729b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 5/8] fix: restart the annealing schedule for each compilation

---
 stoqcompiler/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 340ebb3..be29d73 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -164,6 +164,7 @@ class Compiler:
         Internal implementation of STOQ compilation.
         See documentation for Compiler.compile() for full details.
         '''
+        self.beta = 0.0
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
 
@@ -258,6 +259,7 @@ class Compiler:
         Internal implementation of layered STOQ compilation.
         See documentation for Compiler.compile_layered() for full details.
         '''
+        self.beta = 0.0
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
 
-- 
2.43.0


From b36a1a64f4ff13f71c2d8a7f96192955c9aa8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 6/8] fix: accept a threshold of None in verification, as
 documented

---
 stoqcompiler/verification/verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 63b1e7e..4191e11 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -66,7 +66,7 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
         assert sequence_length >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired length
         random_sequence = UnitarySequence(dimension)
@@ -146,7 +146,7 @@ class Verification:
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired number of layers
         # Total sequence length will therefore be
-- 
2.43.0


From c5b654b75a8a90bd6595699a06e237de142a58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 7/8] fix: refuse negative primitive counts in layered
 verification

---
 stoqcompiler/verification/verification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 4191e11..1ee35f4 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -143,7 +143,7 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitive_counts.keys()])
         assert np.all([
-            isinstance(count, int)
+            isinstance(count, int) and count >= 0
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
         assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
-- 
2.43.0


From fd997c4519830d1b207d0b71bf544dd7e4835001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 8/8] fix: shuffle Trotter steps with the NumPy generator

---
 stoqcompiler/hamiltonian/hamiltonian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stoqcompiler/hamiltonian/hamiltonian.py b/stoqcompiler/hamiltonian/hamiltonian.py
index 5a1f852..6f3b68d 100644
--- a/stoqcompiler/hamiltonian/hamiltonian.py
+++ b/stoqcompiler/hamiltonian/hamiltonian.py
@@ -3,7 +3,6 @@ Defines the Hamiltonian class.
 '''
 import copy
 import numpy as np
-import random
 import itertools
 from typing import Iterable, List, Tuple
 
@@ -141,7 +140,7 @@ class Hamiltonian:
         term_indices = list(range(len(self.terms)))
         for _ in range(num_trotter_steps):
             if randomize:
-                random.shuffle(term_indices)
+                np.random.shuffle(term_indices)
             for term_index in term_indices:
                 term = self.terms[term_index]
                 u = UnitaryDefinitions.time_evolution(
-- 
2.43.0


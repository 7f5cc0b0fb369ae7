From 2c4680b8eac796193b9a8b97b08a2fbdfc11767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 01/35] fix: break the circular import that made summarize
 unusable as first name

segeval.compute imports segeval.util.math, whose package imported
segeval.compute again; using segeval.summarize (or importing segeval.compute)
before anything else in a process failed with ImportError.
---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..4fe260b 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -30,6 +29,7 @@ class SegmentationMetricError(Exception):
 
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
+    from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
-- 
2.43.0


From ab6979c32c88d947d3b4f01cf4e0f407bed7d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 02/35] fix: comparing two segmentations without boundaries no
 longer raises

No boundary type was identified for such a pair, so max() of an empty set
raised ValueError in every edit-distance-based metric (and chance agreement
divided zero by zero potential boundaries).  Fall back to the documented
default boundary type.
---
 segeval/similarity/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/similarity/distance/__init__.py b/segeval/similarity/distance/__init__.py
index e85f478..57876f5 100644
--- a/segeval/similarity/distance/__init__.py
+++ b/segeval/similarity/distance/__init__.py
@@ -15,4 +15,5 @@ def identify_types(string_a, string_b):
         for position in string:
             for boundary_type in position:
                 boundary_types.add(boundary_type)
-    return frozenset(boundary_types)
+    # Without any boundary only the default boundary type is possible
+    return frozenset(boundary_types or [1])
-- 
2.43.0


From e3c6773d731894cae2d490c52dec2b98f9bc0cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 03/35] fix: window_diff is 0, not an error, when no window
 fits the text

With n == window size the division 0/0 raised InvalidOperation (e.g.
window_diff((2,), (2,))); pk already returns 0 here.
---
 segeval/window/windowdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..489e96f 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -125,7 +125,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     denominator = n - window_size
     if lamprier_et_al_2007_fix:
         denominator = measurements + 1
-    win_diff = Decimal(sum_differences) / denominator
+    win_diff = Decimal(sum_differences) / denominator if measurements > 0 else 0
     # Check normalization
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
-- 
2.43.0


From de864a35c1e51d08f66d8d40aab316aa091fa02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 04/35] fix: Lamprier correction accepts position lists and
 labels starting at 0

Position segmentations given as lists raised TypeError (tuple + list), and
the phantom label 0 merged with a first segment labelled 0, so equal
segmentations with different labels got a penalty.
---
 segeval/window/windowdiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 489e96f..bac32e8 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -32,9 +32,9 @@ def __create_paired_window__(hypothesis, reference, window_size,
     else:
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
-        phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        phantom = tuple([None] * phantom_size)
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0


From 5a0ddf8e02b7e42a9ed4a2704258e7e1fe3f150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 05/35] fix: window metrics compare labels and counts by value,
 not identity

Position labels that are equal but not the same object (strings; on CPython
also integers above 256) counted as different segments, and on CPython a
window of 256 or more units failed an identity assertion.
---
 segeval/window/pk.py         | 4 ++--
 segeval/window/windowdiff.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/segeval/window/pk.py b/segeval/window/pk.py
index d5d0ca5..d19539d 100644
--- a/segeval/window/pk.py
+++ b/segeval/window/pk.py
@@ -46,8 +46,8 @@ def __pk__(hypothesis, reference, window_size, one_minus, boundary_format,
         window_ref = reference[i:i + window_size + 1]
         window_hyp = hypothesis[i:i + window_size + 1]
         # Probe agreement
-        agree_ref = window_ref[0] is window_ref[-1]
-        agree_hyp = window_hyp[0] is window_hyp[-1]
+        agree_ref = window_ref[0] == window_ref[-1]
+        agree_hyp = window_hyp[0] == window_hyp[-1]
         # If the windows agreements agree
         if agree_ref is not agree_hyp:
             sum_differences += 1
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index bac32e8..a8dca5d 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -107,18 +107,18 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         ref_boundaries = 0
         hyp_boundaries = 0
         # Check that the number of loops is correct
-        assert len(window) is window_size + 1
+        assert len(window) == window_size + 1
         # For pair in window
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
             # Boundary exists in the reference segmentation
-            if ref_part[0] is not ref_part[1]:
+            if ref_part[0] != ref_part[1]:
                 ref_boundaries += 1
             # Boundary exists in the hypothesis segmentation
-            if hyp_part[0] is not hyp_part[1]:
+            if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
-        if ref_boundaries is not hyp_boundaries:
+        if ref_boundaries != hyp_boundaries:
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-- 
2.43.0


From c098ec67a0b03d060240bf93602eceb91ebbf9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 06/35] fix: edit distance compares boundary types by value,
 not identity

On CPython equal boundary types above 256 are different objects, so the same
boundary could take part in two transpositions.
---
 segeval/similarity/distance/multipleboundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index 2ed4ba7..a165f96 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -69,7 +69,7 @@ def __additions_substitutions_sets__(d, a, b):
     # Add from b
     for addition in b - set(substituted):
         added.append(Addition(addition, 'b'))
-    assert len(added) is len(additions)
+    assert len(added) == len(additions)
     return added, set([Substitution(a_i, b_i) for a_i, b_i in set(substitutions)])
 
 
@@ -103,7 +103,7 @@ def __overlaps_existing__(i, j, d, options_transp):
         if position in options_transp:
             for t in options_transp[position]:
                 # If the transposition 't' is of the boundary type 'd'
-                if t[2] is d:
+                if t[2] == d:
                     return True
     return check_position(i) or check_position(j)
 
-- 
2.43.0


From 56c09d02c695dc97c93f5486d32844ec67297ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 07/35] fix: datasets of equal boundary format are comparable
 after unpickling

The formats were compared by identity, so equal format strings that are not
the same object (e.g. from an unpickled dataset) were refused.
---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 4fe260b..7b46be0 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -70,7 +70,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
             # Compare pairwise values between coders paired from two datasets
             metric_kwargs['boundary_format'] = hypothesis.boundary_format
-            if hypothesis.boundary_format is not reference.boundary_format:
+            if hypothesis.boundary_format != reference.boundary_format:
                 raise SegmentationMetricError(
                     'Datasets contain differing boundary formats; {0} != {1}'
                     .format(hypothesis.boundary_format, reference.boundary_format))
-- 
2.43.0


From 03e847da3b3118f72f0f025ae12e34b6f14be5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:26 +0000
Subject: [PATCH 08/35] fix: precision and recall treat a Decimal zero count
 like 0

A class whose diagonal count is Decimal(0) in an empty row or column divided
0 by 0 and raised InvalidOperation.
---
 segeval/ml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..878578a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -70,7 +70,7 @@ def __precision__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -86,7 +86,7 @@ def __recall__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
-- 
2.43.0


From 009a3f5b11f2a6ae943dffccaf2097aa74e97a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 09/35] fix: window_diff returns its parts when asked to, also
 with one_minus

All other metrics let return_parts take precedence; window_diff silently
ignored it when one_minus was given.
---
 segeval/window/windowdiff.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index a8dca5d..65192f9 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -130,11 +130,10 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
     assert win_diff <= 1
-    if not one_minus:
-        if return_parts:
-            return sum_differences, denominator
-        else:
-            return win_diff
+    if return_parts:
+        return sum_differences, denominator
+    elif not one_minus:
+        return win_diff
     else:
         return Decimal('1.0') - win_diff
 
-- 
2.43.0


From dd6befa00191b47ec250cb6449faf9ed0e101139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 10/35] fix: segmentation similarity counts potential
 boundaries once per type

statistics['pbs'] already is positions times boundary types; multiplying by
the number of types again overestimated S for multiple boundary types (and
its weight in pooled agreement).
---
 segeval/similarity/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..f0da283 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -23,7 +23,7 @@ def __segmentation_similarity__(*args, **kwargs):
     # Compute
     statistics = __boundary_statistics__(*args, **metric_kwargs)
     # Process
-    pbs = statistics['pbs'] * len(statistics['boundary_types'])
+    pbs = statistics['pbs']
     # Fraction
     denominator = pbs
     numerator = pbs - statistics['count_edits']
-- 
2.43.0


From cc2162448f6f4c511891f5fd7601f77b4f83e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 11/35] fix: agreement covers the coders a dataset contains,
 however it was built

The readers and item assignment never updated Dataset.coders, so agreement on
a dataset read from JSON or TSV divided by zero, and coders added by
assignment were silently left out.  Register coders in the readers and derive
the coders to compare from the codings.
---
 segeval/data/__init__.py  | 11 ++++-------
 segeval/data/jsonutils.py |  1 +
 segeval/data/tsv.py       |  1 +
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..2be96ba 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -100,13 +100,10 @@ class Dataset(defaultdict):
 
 
 def get_coders(container):
-    if isinstance(container, Dataset):
-        return container.coders
-    else:
-        coders = set()
-        for value in container.values():
-            coders = coders.union(value.keys())
-        return coders
+    coders = set()
+    for value in container.values():
+        coders = coders.union(value.keys())
+    return coders
 
 
 def name_from_filepath(filepath):
diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..d5b5787 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -84,6 +84,7 @@ def input_linear_mass_json(filepath):
             dataset[item] = dict()
             for coder, masses in coder_masses.items():
                 dataset[item][coder] = tuple(masses)
+                dataset.coders.add(coder)
         # Remove from properties
         del dataset.properties[Field.items]
     else:
diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..944687d 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -44,6 +44,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j is 0:
                         coder = str(col)
+                        dataset.coders.add(coder)
                         dataset[item][coder] = list()
                     else:
                         dataset[item][coder].append(int(col))
-- 
2.43.0


From 485c27a38c7d98e401ff56fbe4a4a221610a2db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 12/35] fix: close JSON files after reading

The file was left to the garbage collector, which on PyPy keeps it open;
loading a large folder tree could run out of file descriptors.
---
 segeval/data/jsonutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index d5b5787..12986fe 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -66,6 +66,8 @@ def input_linear_mass_json(filepath):
     except Exception as exception:
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
+    finally:
+        json_file.close()
     # Check type
     if Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
-- 
2.43.0


From cd885d47ee72c57f8e1fd3e8226a16269076ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 13/35] fix: load every data file of a folder, also those
 sharing a base name

Files were collected by name without extension, so of 'a.json' and 'a.jsn'
(or 'a.tsv' and 'a.csv') only the one listed last was loaded.
---
 segeval/data/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 2be96ba..4df3d4d 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -167,7 +167,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
         else:
             name, ext = os.path.splitext(name)
             if len(ext) > 0 and ext.lower() in allowable_extensions:
-                files[name] = path
+                files[path] = path
                 datafile_found = True
     # If a data file was found
     if datafile_found:
-- 
2.43.0


From 118c223505dfaae00d6ce37b63eb1b3f3715641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 14/35] fix: confusion matrix classes are never stale or shared

A row created by access was missing from classes() until the next cell
assignment, and a matrix without cells returned the set shared by all
matrices, so changing the returned set changed every new matrix.
---
 segeval/ml/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 878578a..dcda1a4 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -234,6 +234,7 @@ class ConfusionMatrix(dict):
         if key not in self:
             value = _InnerConfusionMatrix(self)
             dict.__setitem__(self, key, value)
+            self.__dirty_classes__ = True
         else:
             value = dict.__getitem__(self, key)
         return value
@@ -249,4 +250,4 @@ class ConfusionMatrix(dict):
                 for actual in values.keys():
                     self.__classes__.add(actual)
             self.__dirty_classes__ = False
-        return self.__classes__
+        return set(self.__classes__)
-- 
2.43.0


From ab507018693057aafc56f94e153c6786878f3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 15/35] fix: asking for the precision or recall of an absent
 class adds no class

Reading the cells of an unknown class stored it in the matrix, so later
macro averages changed.
---
 segeval/ml/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index dcda1a4..91d1c21 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -62,6 +62,9 @@ def __value_micro_macro__(fnc, arguments, classification=None,
 
 def __precision__(matrix, classification, return_parts=False):
 
+    # Reading a cell stores it; do not add an unknown class to the matrix
+    if classification not in matrix.classes():
+        return (0, 0) if return_parts else Decimal(0)
     predicted = classification
     denominator = 0
     for actual in matrix.classes():
@@ -78,6 +81,9 @@ def __precision__(matrix, classification, return_parts=False):
 
 def __recall__(matrix, classification, return_parts=False):
 
+    # Reading a cell stores it; do not add an unknown class to the matrix
+    if classification not in matrix.classes():
+        return (0, 0) if return_parts else Decimal(0)
     actual = classification
     denominator = 0
     for predicted in matrix.classes():
-- 
2.43.0


From 2df5790b58e752302d7ef2a5cddbae9a3343bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 16/35] fix: agreement functions honour the documented
 one_minus option

It was accepted and silently ignored.
---
 segeval/agreement/__init__.py | 4 +++-
 segeval/agreement/bias.py     | 2 +-
 segeval/agreement/kappa.py    | 2 +-
 segeval/agreement/pi.py       | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index e120173..2cd102a 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -139,6 +139,7 @@ def __actual_agreement_linear__(dataset, **kwargs):
     # Arguments
     fnc_compare = kwargs['fnc_compare']
     return_parts = kwargs['return_parts']
+    one_minus = kwargs['one_minus']
     # Initialize
     all_numerators = list()
     all_denominators = list()
@@ -172,7 +173,8 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        return sum(all_numerators) / sum(all_denominators)
+        value = sum(all_numerators) / sum(all_denominators)
+        return 1 - value if one_minus else value
 
 
 def actual_agreement_linear(dataset, **kwargs):
diff --git a/segeval/agreement/bias.py b/segeval/agreement/bias.py
index 6f77901..faf3566 100644
--- a/segeval/agreement/bias.py
+++ b/segeval/agreement/bias.py
@@ -25,7 +25,7 @@ def __artstein_poesio_bias_linear__(dataset, **kwargs):
     if return_parts:
         return A_pi_e, A_fleiss_e
     else:
-        return bias
+        return 1 - bias if kwargs['one_minus'] else bias
 
 
 def artstein_poesio_bias_linear(dataset, **kwargs):
diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index fd1f858..5ebe716 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -53,7 +53,7 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
     if return_parts:
         return A_a, A_e
     else:
-        return kappa
+        return 1 - kappa if kwargs['one_minus'] else kappa
 
 
 def fleiss_kappa_linear(dataset, **kwargs):
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 791b31b..5254e71 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -43,7 +43,7 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     if return_parts:
         return A_a, A_e
     else:
-        return pi
+        return 1 - pi if kwargs['one_minus'] else pi
 
 
 def fleiss_pi_linear(dataset, **kwargs):
-- 
2.43.0


From 58899cc54021072e44c6fcb9a6a4ddbe24ebc11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:09 +0000
Subject: [PATCH 17/35] fix: window size of nested position segmentations

A dictionary or dataset of position segmentations was itself converted as if
it were one position sequence (of its keys), giving a wrong window size.
---
 segeval/window/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index be26b63..85009bb 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -41,12 +41,12 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
             for cur_inner_coder_masses in inner_coder_masses.values():
                 __list_coder_masses__(cur_inner_coder_masses)
         elif hasattr(inner_coder_masses, '__iter__') and not isinstance(inner_coder_masses, str):
+            if boundary_format == BoundaryFormat.position:
+                inner_coder_masses = convert_positions_to_masses(inner_coder_masses)
             all_masses.extend(inner_coder_masses)
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
-    if boundary_format == BoundaryFormat.position:
-        reference = convert_positions_to_masses(reference)
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
-- 
2.43.0


From 03848990d0a7f73b9da7ebf5341091a019d16a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:58 +0000
Subject: [PATCH 18/35] fix: one_minus of the similarities also works with
 weights that count in integers

---
 segeval/similarity/boundary.py     | 3 +--
 segeval/similarity/segmentation.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..907abf9 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -6,7 +6,6 @@ Boundary Similarity (B) package.
 from __future__ import absolute_import, division
 from segeval.similarity import __boundary_statistics__, SIMILARITY_METRIC_DEFAULTS
 from segeval.util import __fnc_metric__
-from decimal import Decimal
 
 
 def __boundary_similarity__(*args, **kwargs):
@@ -31,7 +30,7 @@ def __boundary_similarity__(*args, **kwargs):
     else:
         value = numerator / denominator if denominator > 0 else 1
         if one_minus:
-            return Decimal('1') - value
+            return 1 - value
         else:
             return value
 
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index f0da283..4d94733 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -6,7 +6,6 @@ Segmentation Similarity (S) package.
 from __future__ import absolute_import, division
 from segeval.similarity import __boundary_statistics__, SIMILARITY_METRIC_DEFAULTS
 from segeval.util import __fnc_metric__
-from decimal import Decimal
 
 
 def __segmentation_similarity__(*args, **kwargs):
@@ -32,7 +31,7 @@ def __segmentation_similarity__(*args, **kwargs):
     else:
         value = numerator / denominator if denominator > 0 else 1
         if one_minus:
-            return Decimal('1') - value
+            return 1 - value
         else:
             return value
 
-- 
2.43.0


From 6042e2a6552ae96e50c299de38d91d6c41ef2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 19/35] fix: querying a confusion matrix stores nothing, so
 that queries can run side by side

---
 segeval/ml/__init__.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 91d1c21..6ee43d0 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -60,16 +60,20 @@ def __value_micro_macro__(fnc, arguments, classification=None,
         return values
 
 
+def __count__(matrix, predicted, actual):
+    '''
+    Read a cell of a confusion matrix without storing it.
+    '''
+    return matrix[predicted].get(actual, 0) if predicted in matrix else 0
+
+
 def __precision__(matrix, classification, return_parts=False):
 
-    # Reading a cell stores it; do not add an unknown class to the matrix
-    if classification not in matrix.classes():
-        return (0, 0) if return_parts else Decimal(0)
     predicted = classification
     denominator = 0
     for actual in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __count__(matrix, predicted, actual)
+    numerator = __count__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
@@ -81,14 +85,11 @@ def __precision__(matrix, classification, return_parts=False):
 
 def __recall__(matrix, classification, return_parts=False):
 
-    # Reading a cell stores it; do not add an unknown class to the matrix
-    if classification not in matrix.classes():
-        return (0, 0) if return_parts else Decimal(0)
     actual = classification
     denominator = 0
     for predicted in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __count__(matrix, predicted, actual)
+    numerator = __count__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
@@ -250,10 +251,11 @@ class ConfusionMatrix(dict):
         Retrieve the set of all classes.
         '''
         if self.__dirty_classes__:
-            self.__classes__ = set()
+            classes = set()
             for predicted, values in self.items():
-                self.__classes__.add(predicted)
+                classes.add(predicted)
                 for actual in values.keys():
-                    self.__classes__.add(actual)
+                    classes.add(actual)
+            self.__classes__ = classes
             self.__dirty_classes__ = False
         return set(self.__classes__)
-- 
2.43.0


From 02dacc8e23e0da323f1b0eaaf0f77fed2bc9cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 20/35] fix: JSON that is no object, or has no items in an
 object, is refused with a data error

---
 segeval/data/jsonutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 12986fe..2ad14fd 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -69,7 +69,7 @@ def input_linear_mass_json(filepath):
     finally:
         json_file.close()
     # Check type
-    if Field.segmentation_type in data:
+    if isinstance(data, dict) and Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
             raise DataIOError('Segmentation type \'{0}\' expected, but encountered \'{1}\' for file: {2}'
                               .format(SegmentationType.linear, data[Field.segmentation_type], filepath))
@@ -79,7 +79,7 @@ def input_linear_mass_json(filepath):
     # Duplicate to store other properties
     dataset.properties = data
     # If separated into multiple items for one coder per file
-    if Field.items in data:
+    if isinstance(data.get(Field.items), dict):
         data = data[Field.items]
         # Convert item labels into strings
         for item, coder_masses in data.items():
-- 
2.43.0


From ec4762e7918e52b0aeb756f18508a7775fb394ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 21/35] fix: blank lines of delimited files are no data rows

---
 segeval/data/tsv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 944687d..e8e8553 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -37,8 +37,8 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
             if i is 0:
                 for col_name in row[1:]:
                     header.append(col_name)
-            # Read data
-            else:
+            # Read data, skipping blank lines
+            elif row:
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-- 
2.43.0


From 39e8d510f0f772d90461dd568dd1c7b2619bc074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 22/35] fix: copies and pickles of datasets keep coders,
 properties, types and format

---
 segeval/data/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 4df3d4d..d3a3175 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -98,6 +98,13 @@ class Dataset(defaultdict):
         dataset.boundary_format = copy.deepcopy(self.boundary_format)
         return dataset
 
+    def __copy__(self):
+        return self.copy()
+
+    def __reduce__(self):
+        # Items are restored last, by assignment
+        return type(self), (), self.__dict__, None, iter(list(self.items()))
+
 
 def get_coders(container):
     coders = set()
-- 
2.43.0


From 2943ff3b392ca221b3ea8cf1e8b4e7ad65497d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 23/35] fix: confusion matrices can be copied and pickled

---
 segeval/ml/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 6ee43d0..77dee60 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -259,3 +259,12 @@ class ConfusionMatrix(dict):
             self.__classes__ = classes
             self.__dirty_classes__ = False
         return set(self.__classes__)
+
+    def __reduce__(self):
+        # Rows know the matrix they belong to and are therefore made anew
+        return type(self), (), dict((predicted, dict(values))
+                                    for predicted, values in self.items())
+
+    def __setstate__(self, state):
+        for predicted, values in state.items():
+            self[predicted].update(values)
-- 
2.43.0


From 3fcd11b9c30b29b3377bf53ba5001f09f76d6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 24/35] fix: properties named like structural fields do not
 replace codings in JSON

---
 segeval/data/jsonutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 2ad14fd..a1013bd 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -42,9 +42,9 @@ def output_linear_mass_json(filepath, dataset):
     :param filepath: Path to the mass file containing segment position codings.
     :type filepath: :func:`str`
     '''
-    data = {Field.segmentation_type: SegmentationType.linear}
+    data = dict(dataset.properties)
+    data[Field.segmentation_type] = SegmentationType.linear
     data[Field.items] = dataset
-    data.update(dataset.properties)
     __write_json__(filepath, data)
 
 
-- 
2.43.0


From 7df961e8e0070252a23f4781f38b5a50b1487989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 25/35] fix: a coder given twice in a delimited file is refused

---
 segeval/data/tsv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index e8e8553..6151f5f 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -22,7 +22,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
     :type delimiter: str
     '''
 
-    from segeval.data import Dataset, name_from_filepath
+    from segeval.data import Dataset, DataIOError, name_from_filepath
     # List version of file
     header = []
     dataset = Dataset()
@@ -44,6 +44,9 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j is 0:
                         coder = str(col)
+                        if coder in dataset[item]:
+                            raise DataIOError('Duplicate coders of same name \
+%(coder)s found in file %(filepath)s' % {'coder': coder, 'filepath': filepath})
                         dataset.coders.add(coder)
                         dataset[item][coder] = list()
                     else:
-- 
2.43.0


From d2c64655af2b158499e2685c4b1a855485e3a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 26/35] fix: summaries of floats mixed a Decimal sum with
 floats

---
 segeval/util/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/util/math.py b/segeval/util/math.py
index db827e7..053253b 100644
--- a/segeval/util/math.py
+++ b/segeval/util/math.py
@@ -19,7 +19,7 @@ def mean(values):
     '''
     summation = Decimal(0)
     for value in values:
-        summation += value
+        summation += Decimal(value)
     if len(values) > 0:
         return summation / len(values)
     else:
@@ -39,7 +39,7 @@ def var(values):
     mean_value = mean(values)
     summation = Decimal(0)
     for value in values:
-        summation += (value - mean_value) ** 2
+        summation += (Decimal(value) - mean_value) ** 2
     return summation / len(values)
 
 
-- 
2.43.0


From ac43467bb5023b8743378a6c0ddd4d5720f59c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 27/35] fix: pairwise values of datasets whose items are not
 named by strings

---
 segeval/compute.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/compute.py b/segeval/compute.py
index ba4de4f..1c4cf24 100644
--- a/segeval/compute.py
+++ b/segeval/compute.py
@@ -69,7 +69,7 @@ def compute_pairwise_values(fnc_metric, dataset_a, dataset_b=None, **kwargs):
                 segs_m = coder_masses_m[m]
                 segs_n = coder_masses_n[n]
                 entry_parts = list(prefix)
-                entry_parts.extend([label, str(m), str(n)])
+                entry_parts.extend([str(label), str(m), str(n)])
                 entry = ','.join(entry_parts)
                 if return_parts:
                     label_pairs[entry] = fnc_metric(segs_m, segs_n,
@@ -80,7 +80,7 @@ def compute_pairwise_values(fnc_metric, dataset_a, dataset_b=None, **kwargs):
                 # Handle permutation
                 if permuted and not has_two_datasets:
                     entry_parts = list(prefix)
-                    entry_parts.extend([label, str(n), str(m)])
+                    entry_parts.extend([str(label), str(n), str(m)])
                     entry = ','.join(entry_parts)
                     if return_parts:
                         label_pairs[entry] = \
-- 
2.43.0


From 14fb78e46c19b4a1825275554f47f0ad5af490e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 28/35] fix: the window size of a Dataset follows its own
 boundary format

---
 segeval/window/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index 85009bb..43e0263 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -60,6 +60,8 @@ collection of segmentations or a segmentation as a list-like object')
 def compute_window_size(reference, **kwargs):
     metric_kwargs = dict(WINDOW_METRIC_DEFAULTS)
     metric_kwargs.update(kwargs)
+    if 'boundary_format' not in kwargs and hasattr(reference, 'boundary_format'):
+        metric_kwargs['boundary_format'] = reference.boundary_format
     del metric_kwargs['one_minus']
     del metric_kwargs['permuted']
     del metric_kwargs['window_size']
-- 
2.43.0


From 793d9890b83ae263b1fa3a3ddec4728e081d6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 29/35] fix: accept the empty boundary strings of single unit
 texts

---
 segeval/util/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 7b46be0..49659a9 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -31,6 +31,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
     from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
+    from segeval.format import BoundaryFormat
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
     metric_kwargs.update(kwargs)
@@ -59,12 +60,15 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         hypothesis = (hypothesis, )
     if isinstance(reference, int):
         reference = (reference, )
+    # The boundary strings of a single unit are empty, but are segmentations
+    empty_types = (str, list, tuple) if metric_kwargs['boundary_format'] in \
+        (BoundaryFormat.sets, BoundaryFormat.nltk) else ()
     # Compute
     if dataset:
         # Compute pairwise values over all coders in a dataset
         metric_kwargs['boundary_format'] = dataset.boundary_format
         return compute_pairwise_values(fnc_metric, dataset, **metric_kwargs)
-    elif hypothesis and reference:
+    elif all(segs or isinstance(segs, empty_types) for segs in (hypothesis, reference)):
         # Compute values between hypotheses (i.e, automatic) and reference
         # (i.e., manual) coder segmentations
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
-- 
2.43.0


From 5d9578e1a7155b57582f5bee66a5c2d763c5730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 30/35] fix: micro-averages of counts in floats divided a
 Decimal by a float

---
 segeval/ml/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 77dee60..3572964 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -32,7 +32,7 @@ def __value_micro_macro__(fnc, arguments, classification=None,
                 if numerator == 0:
                     return 0
                 else:
-                    return Decimal(numerator) / denominator
+                    return Decimal(numerator) / Decimal(denominator)
             elif version is Average.macro:
                 # Macro-average
                 values = list()
-- 
2.43.0


From ea5a064e9f245fcd09b62a63e795030de67d2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 31/35] fix: classes stored by update or setdefault on a row
 were missed

---
 segeval/ml/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 3572964..fe4179e 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -209,6 +209,14 @@ class _InnerConfusionMatrix(defaultdict):
         self.__parent__.__dirty_classes__ = True
         defaultdict.__setitem__(self, key, value)
 
+    def update(self, *args, **kwargs):
+        self.__parent__.__dirty_classes__ = True
+        defaultdict.update(self, *args, **kwargs)
+
+    def setdefault(self, *args, **kwargs):
+        self.__parent__.__dirty_classes__ = True
+        return defaultdict.setdefault(self, *args, **kwargs)
+
 
 class ConfusionMatrix(dict):
 
-- 
2.43.0


From 30370d96553400463f7bb40d20188a2630a45697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:27 +0000
Subject: [PATCH 32/35] fix: in-place union of a confusion matrix row makes its
 classes known

---
 segeval/ml/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index fe4179e..a67752a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -213,6 +213,10 @@ class _InnerConfusionMatrix(defaultdict):
         self.__parent__.__dirty_classes__ = True
         defaultdict.update(self, *args, **kwargs)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def setdefault(self, *args, **kwargs):
         self.__parent__.__dirty_classes__ = True
         return defaultdict.setdefault(self, *args, **kwargs)
-- 
2.43.0


From 0a3ffad38f6aa3eb681a043e2707306ea7b3b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 33/35] fix: rows of a confusion matrix can be copied and
 pickled

---
 segeval/ml/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a67752a..5230636 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -221,6 +221,15 @@ class _InnerConfusionMatrix(defaultdict):
         self.__parent__.__dirty_classes__ = True
         return defaultdict.setdefault(self, *args, **kwargs)
 
+    def copy(self):
+        # A copy belongs to no matrix
+        return defaultdict(int, self)
+
+    __copy__ = copy
+
+    def __reduce__(self):
+        return defaultdict, (int, dict(self))
+
 
 class ConfusionMatrix(dict):
 
-- 
2.43.0


From 163126bea1a8369a65fe12d56b24b3e5d6ac33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:08 +0000
Subject: [PATCH 34/35] fix: first uses of names by several threads no longer
 deadlock in the imports

A thread that imports a package (e.g., segeval.data) holds it while it waits
for its submodules; another one resolving a name of such a submodule held the
submodule while it waited for the package, and one of them was given a
_DeadlockError instead of the name.
---
 segeval/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segeval/__init__.py b/segeval/__init__.py
index 932bc0f..2265a73 100644
--- a/segeval/__init__.py
+++ b/segeval/__init__.py
@@ -77,6 +77,12 @@ class module(ModuleType):
 
     def __getattr__(self, name):
         if name in object_origins:
+            # Import the packages first, because while a package is imported it
+            # waits for its submodules (i.e., another thread must not hold one
+            # of them while it waits for the package)
+            parts = object_origins[name].split('.')
+            for i in range(2, len(parts)):
+                __import__('.'.join(parts[:i]))
             module = __import__(object_origins[name], None, None, [name])
             for extra_name in all_by_module[module.__name__]:
                 setattr(self, extra_name, getattr(module, extra_name))
-- 
2.43.0


From e8bdea1a50d8e09afd21bef681b4d2e6144018fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:08 +0000
Subject: [PATCH 35/35] fix: the package object survives an import by several
 threads at once

segeval replaced its own entry in sys.modules, so a thread that waited for
another one to finish importing the package was left with the old module,
which has none of the names.
---
 segeval/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/segeval/__init__.py b/segeval/__init__.py
index 2265a73..1929a60 100644
--- a/segeval/__init__.py
+++ b/segeval/__init__.py
@@ -103,8 +103,14 @@ class module(ModuleType):
 old_module = sys.modules['segeval']
 
 
-# setup the new module and patch it into the dict of loaded modules
-new_module = sys.modules['segeval'] = module('segeval')
+# setup the new module and patch it into the dict of loaded modules; where
+# possible this is the module itself, because another thread that is importing
+# the package at the same time may already hold it
+try:
+    old_module.__class__ = module
+    new_module = old_module
+except TypeError:
+    new_module = sys.modules['segeval'] = module('segeval')
 new_module.__dict__.update({
     '__file__':             __file__,
     '__path__':             __path__,
-- 
2.43.0


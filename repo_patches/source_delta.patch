From d101ca458796e1f95c072b0e8a3668aab1613dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 01/35] fix: eph fails with IndexError if there is only one
 candidate

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e2ae4e7..1d0601d 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4515,7 +4515,7 @@ def _eph_algorithm(rule_id, profile, algorithm, committeesize, resolute, max_num
                 sdv_score[cand] += division(voter.weight, len(remaining_approved))
                 av_score[cand] += voter.weight
 
-        cutoff_sdv = sorted(sdv_score.values())[1]  # 2nd smallest value
+        cutoff_sdv = sorted(sdv_score.values())[:2][-1]  # 2nd smallest value (if it exists)
         elimination_cands = [
             cand
             for cand in remaining_candidates
-- 
2.43.0


From f4e80e63a0ac9a360e872ea569014cb352ef4831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 02/35] fix: seqphragmen selects wrong candidates if loads
 exceed committeesize (small fractional weights)

---
 abcvoting/abcrules.py | 52 +++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 1d0601d..a6400ad 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2836,23 +2836,22 @@ def _seqphragmen_resolute(
             approvers_load[cand] = sum(
                 voter.weight * load[v] for v, voter in enumerate(profile) if cand in voter.approved
             )
-        new_maxload = [
-            division(approvers_load[cand] + 1, approvers_weight[cand])
-            if approvers_weight[cand] > 0
-            else committeesize + 1
+        # candidates without approvals have an infinite load;
+        # candidates already in the committee are not considered
+        new_maxload = {
+            cand: (
+                division(approvers_load[cand] + 1, approvers_weight[cand])
+                if approvers_weight[cand] > 0
+                else math.inf
+            )
             for cand in profile.candidates
-        ]
-        # exclude committees already in the committee
-        for cand in profile.candidates:
-            if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
-        opt = min(new_maxload)
+            if cand not in committee
+        }
+        opt = min(new_maxload.values())
         if algorithm == "float-fractions":
-            tied_cands = [
-                cand for cand in profile.candidates if misc.isclose(new_maxload[cand], opt)
-            ]
+            tied_cands = [cand for cand in new_maxload if misc.isclose(new_maxload[cand], opt)]
         else:
-            tied_cands = [cand for cand in profile.candidates if new_maxload[cand] == opt]
+            tied_cands = [cand for cand in new_maxload if new_maxload[cand] == opt]
         next_cand = tied_cands[0]
         # compute new loads and add new candidate
         for v, voter in enumerate(profile):
@@ -2914,23 +2913,24 @@ def _seqphragmen_irresolute(
             approvers_load[cand] = sum(
                 voter.weight * load[v] for v, voter in enumerate(profile) if cand in voter.approved
             )
-        new_maxload = [
-            division(approvers_load[cand] + 1, approvers_weight[cand])
-            if approvers_weight[cand] > 0
-            else committeesize + 1
+        # candidates without approvals have an infinite load;
+        # candidates already in the committee are not considered
+        new_maxload = {
+            cand: (
+                division(approvers_load[cand] + 1, approvers_weight[cand])
+                if approvers_weight[cand] > 0
+                else math.inf
+            )
             for cand in profile.candidates
-        ]
-        # exclude committees already in the committee
-        for cand in profile.candidates:
-            if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+            if cand not in committee
+        }
         # compute new loads
         new_committee_load_pairs = []
-        for cand in profile.candidates:
+        for cand in new_maxload:
             if algorithm == "float-fractions":
-                select_cand = misc.isclose(new_maxload[cand], min(new_maxload))
+                select_cand = misc.isclose(new_maxload[cand], min(new_maxload.values()))
             else:
-                select_cand = new_maxload[cand] <= min(new_maxload)
+                select_cand = new_maxload[cand] <= min(new_maxload.values())
 
             if select_cand:
                 new_load = [0] * len(profile)
-- 
2.43.0


From 090ea9b9183c71de286b9fc7bf75a98d036e58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 03/35] fix: increment completion of Equal Shares terminates
 too early for fractional weights

---
 abcvoting/abcrules.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index a6400ad..122f86c 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3459,9 +3459,11 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
-    for increment_committeesize in range(
-        committeesize, math.ceil(committeesize * profile.total_weight() + 1)
-    ):
+    # a budget of `committeesize` for each voter is always sufficient
+    max_committeesize = math.ceil(
+        committeesize * profile.total_weight() / min(voter.weight for voter in profile)
+    )
+    for increment_committeesize in range(committeesize, max_committeesize + 1):
         committees, detailed_info = _equal_shares_algorithm(
             profile,
             committeesize,
-- 
2.43.0


From 9dfb81199b1e176c2040117c468a3e5e748e817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 04/35] fix: minimax-/leximax-Phragmen ignore
 max_num_of_committees and return plain sets if few candidates are approved

---
 abcvoting/abcrules_gurobi.py | 20 ++++++++++----------
 abcvoting/abcrules_mip.py    | 10 +++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4abf087..1e831ec 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -424,13 +424,13 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         ]
         num_missing_candidates = committeesize - len(approved_candidates)
 
-        if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
-
-        return [
+        committees = (
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )
+        if resolute:
+            max_num_of_committees = 1
+        return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
@@ -520,13 +520,13 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         ]
         num_missing_candidates = committeesize - len(approved_candidates)
 
-        if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
-
-        return [
+        committees = (
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )
+        if resolute:
+            max_num_of_committees = 1
+        return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 419043b..fccdbe7 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -360,13 +360,13 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         ]
         num_missing_candidates = committeesize - len(approved_candidates)
 
-        if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
-
-        return [
+        committees = (
             approved_candidates | set(extra)
             for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+        )
+        if resolute:
+            max_num_of_committees = 1
+        return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
     committees = _optimize_rule_mip(
         set_opt_model_func,
-- 
2.43.0


From 5727a68a57e976ce770a495a0fa7131a30ad3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 05/35] fix: reverse sequential rules return duplicate
 committees for more than 8 candidates

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 122f86c..60f078b 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1713,7 +1713,7 @@ def _revseq_thiele_irresolute(scorefct_id, profile, committeesize, max_num_of_co
                 cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
             ]
             for cand in cands_to_remove:
-                next_committee = tuple(set(committee) - {cand})
+                next_committee = tuple(sorted(set(committee) - {cand}))
                 comm_scores_next[next_committee] = score - score_reduction
             comm_scores = comm_scores_next
 
-- 
2.43.0


From 8da2c2e830711d3ca30fd3b83d0c91c5df41127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 06/35] fix: minimax-Phragmen restricts loads incorrectly for
 voters with weight less than 1

---
 abcvoting/abcrules_gurobi.py | 6 +++---
 abcvoting/abcrules_mip.py    | 6 ++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 1e831ec..2fe7f60 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -381,7 +381,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         load = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         # constraint: the committee has the required size
         model.addConstr(
@@ -404,7 +404,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 >= in_committee[cand]
             )
 
-        loadbound = model.addVar(lb=0, ub=committeesize, name="loadbound")
+        loadbound = model.addVar(lb=0, name="loadbound")
         for voter in profile:
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved) <= loadbound
@@ -449,7 +449,7 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         loadbound_constraint = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         for i, _ in enumerate(profile):
             for j, _ in enumerate(profile):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index fccdbe7..2510998 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -318,7 +318,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
                 load[(voter, cand)] = model.add_var(
-                    lb=0.0, ub=1.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
+                    lb=0.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
                 )
 
         # constraint: the committee has the required size
@@ -340,9 +340,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
                 >= in_committee[cand]
             )
 
-        loadbound = model.add_var(
-            lb=0, ub=committeesize, var_type=mip.CONTINUOUS, name="loadbound"
-        )
+        loadbound = model.add_var(lb=0, var_type=mip.CONTINUOUS, name="loadbound")
         for voter in profile:
             model += mip.xsum(load[(voter, cand)] for cand in voter.approved) <= loadbound
 
-- 
2.43.0


From aa3226b451be72faa7f8a988b2dbbc1c27739263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 07/35] fix: leximax-Phragmen treats a voter with weight as a
 single load

---
 abcvoting/abcrules_gurobi.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 2fe7f60..7961781 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -4,10 +4,12 @@ import functools
 import gurobipy as gb
 import itertools
 import math
+from fractions import Fraction
 from abcvoting.misc import sorted_committees
 from abcvoting import scores
 from abcvoting import misc
 from abcvoting.output import output
+from abcvoting.preferences import Profile
 
 
 ACCURACY = 1e-8  # 1e-9 causes problems (some unit tests fail)
@@ -443,6 +445,29 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
     return sorted_committees(committees)
 
 
+def _replace_weights_by_copies(profile):
+    """
+    Return a profile with unit weights that is proportional to the given weighted profile.
+
+    Each voter is replaced by a number of copies; this number is proportional to her weight.
+    """
+    weights = [
+        Fraction(voter.weight).limit_denominator(1000)
+        if isinstance(voter.weight, float)
+        else Fraction(voter.weight)
+        for voter in profile
+    ]
+    denominator = functools.reduce(
+        lambda x, y: x * y // math.gcd(x, y), (weight.denominator for weight in weights)
+    )
+    copies = [int(weight * denominator) for weight in weights]
+    divisor = functools.reduce(math.gcd, copies)
+    unit_weight_profile = Profile(num_cand=profile.num_cand)
+    for voter, num_copies in zip(profile, copies):
+        unit_weight_profile.add_voters([voter.approved] * (num_copies // divisor))
+    return unit_weight_profile
+
+
 def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committees):
     def set_opt_model_func(model, in_committee):
         load = {}
@@ -528,6 +553,10 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
             max_num_of_committees = 1
         return sorted_committees(itertools.islice(committees, max_num_of_committees))
 
+    if not profile.has_unit_weights():
+        # the leximax order compares the loads of individual voters
+        profile = _replace_weights_by_copies(profile)
+
     loadbounds = []
     for iteration in range(len(profile) - 1):
         # in interation we enforce a new loadbound.
-- 
2.43.0


From d5ad5df756a7934b0a72349c9b6d563be2869590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 08/35] fix: rules computed with mip-cbc return wrong
 committees or crash when a solved model is reused

---
 abcvoting/abcrules_mip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 2510998..feba5c3 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -44,7 +44,9 @@ def _optimize_rule_mip(
         a function used to compute the score of a committee
     reuse_model : bool
         use the same model in each iteration and just add additional constraints,
-        faster if reuse_model==True
+        faster if reuse_model==True;
+        ignored for CBC, as CBC may return wrong results (or even crash) when a solved model is
+        extended by a constraint that excludes the previous solution
 
     Returns
     -------
@@ -94,6 +96,9 @@ def _optimize_rule_mip(
     if solver_id not in ["gurobi", "cbc"]:
         raise ValueError(f"Solver {solver_id} not known in Python MIP.")
 
+    if solver_id == "cbc":
+        reuse_model = False
+
     model = None
 
     while True:
-- 
2.43.0


From 40309d8eac3775ec29e21e072d3c8b52cd08e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 09/35] fix: copies of a profile lose candidate names and
 copy.deepcopy(profile) raises TypeError

---
 abcvoting/preferences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index a92bf7e..5da1f07 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -268,12 +268,14 @@ class Profile:
         -------
             Profile
         """
-        copy_profile = Profile(num_cand=self.num_cand)
+        copy_profile = Profile(num_cand=self.num_cand, cand_names=self.cand_names)
         copy_profile.add_voters(self._voters)
         return copy_profile
 
     __copy__ = copy
-    __deepcopy__ = copy
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     def is_party_list(self):
         """
-- 
2.43.0


From cacde02199f2f55b6bc02f2f934390470fdd3318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 10/35] fix: Profile.str_compact may list the same approval set
 more than once

---
 abcvoting/preferences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 5da1f07..99e2fc0 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -303,10 +303,11 @@ class Profile:
         """
         compact = OrderedDict()
         for voter in self._voters:
-            if tuple(voter.approved) in compact:
-                compact[tuple(voter.approved)] += voter.weight
+            approval_set = tuple(sorted(voter.approved))
+            if approval_set in compact:
+                compact[approval_set] += voter.weight
             else:
-                compact[tuple(voter.approved)] = voter.weight
+                compact[approval_set] = voter.weight
         if self.has_unit_weights():
             output = ""
         else:
-- 
2.43.0


From 8266f862c0dbd27a4ce44b50466a20ed71a6bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 11/35] fix: Voter accepts NaN as weight

---
 abcvoting/preferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 99e2fc0..4b2eb5e 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -353,7 +353,7 @@ class Voter:
         self.weight = weight
 
         # check weights
-        if self.weight <= 0:
+        if not self.weight > 0:
             raise ValueError("Weight should be a number > 0.")
 
     def __str__(self):
-- 
2.43.0


From a9c0fa8cc303d79ed1cb8315f5fb5346259f5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 12/35] fix: adding the voters of a profile to itself does not
 terminate

---
 abcvoting/preferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 4b2eb5e..b1787e1 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -131,7 +131,7 @@ class Profile:
         -------
             None
         """
-        for voter in voters:
+        for voter in list(voters):
             self.add_voter(voter)
 
     def total_weight(self):
-- 
2.43.0


From 73c786cfec69001a481abb96401ed7519bb24706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 13/35] fix: read_preflib_file with setsize loses voters if
 truncated rankings coincide

---
 abcvoting/fileio.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index d1c3d9a..93878ab 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -115,16 +115,10 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
             "The preflib parser returned the following error: " + str(e)
         )
 
-    if isinstance(preflib_inst, preflib.OrdinalInstance):
-        if setsize:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, size_truncators=[setsize]
-            )
-        elif top_ranks:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, num_indif_classes=[1] * preflib_inst.num_alternatives
-            )
-    elif not isinstance(preflib_inst, preflib.CategoricalInstance):
+    # Both ordinal and categorical preferences are tuples of tuples (of candidates). Note that
+    # ordinal instances are not converted via `CategoricalInstance.from_ordinal()` because
+    # this function loses voters if two truncated rankings are the same.
+    if not isinstance(preflib_inst, (preflib.OrdinalInstance, preflib.CategoricalInstance)):
         raise ValueError("Only ordinal and categorical preferences can be converted from PrefLib")
 
     # normalize candidates to 0, 1, 2, ...
-- 
2.43.0


From 2222abf218e1a3187d5b98627508bd590eefd73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 14/35] fix: integer-valued float weights are written to
 Preflib files as floats (unreadable)

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 93878ab..8b44593 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -227,7 +227,7 @@ def write_profile_to_preflib_cat_file(filepath, profile):
             tuple(cand + 1 for cand in profile.candidates if cand not in voter.approved),
         )
         if int(voter.weight) == voter.weight:
-            multiplicity = voter.weight
+            multiplicity = int(voter.weight)
         else:
             multiplicity = 1
         if pref not in preflib_inst.preferences:
-- 
2.43.0


From 66fe085bd86ac74aadc904adf025556115db988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 15/35] fix: profiles with fractional weights cannot be written
 to yaml files

---
 abcvoting/fileio.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 8b44593..2ec4fb2 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -7,6 +7,8 @@ Two data formats are supported:
 """
 
 import os
+from fractions import Fraction
+from numbers import Rational
 import ruamel.yaml
 import preflibtools.instances as preflib
 from abcvoting.preferences import Profile, Voter
@@ -245,6 +247,14 @@ def _yaml_flow_style_list(x):
     return yamllist
 
 
+def _yaml_weight(weight):
+    """Convert a weight to a type that can be stored in a yaml file without loss."""
+    if isinstance(weight, Rational):  # includes integers, numpy integers and gmpy2 numbers
+        weight = Fraction(int(weight.numerator), int(weight.denominator))
+        return int(weight) if weight.denominator == 1 else str(weight)
+    return float(weight)
+
+
 def read_abcvoting_yaml_file(filename):
     """
     Read contents of an abcvoting yaml file (ending with .abc.yaml).
@@ -288,6 +298,11 @@ def read_abcvoting_yaml_file(filename):
                 f"{filename}: the number of voters differs from the number of voter weights."
             )
         for appr_set, weight in zip(approval_sets, weights):
+            if isinstance(weight, str):  # fractions are stored as strings
+                try:
+                    weight = Fraction(weight)
+                except (ValueError, ZeroDivisionError) as e:
+                    raise MalformattedFileException(f"{filename}: {weight} is not a weight.") from e
             profile.add_voter(Voter(appr_set, weight=weight))
     else:
         profile.add_voters(approval_sets)
@@ -350,7 +365,9 @@ def write_abcvoting_instance_to_yaml_file(
         data["description"] = description
     data["profile"] = _yaml_flow_style_list([list(voter.approved) for voter in profile])
     if not profile.has_unit_weights():
-        data["voter_weights"] = _yaml_flow_style_list([voter.weight for voter in profile])
+        data["voter_weights"] = _yaml_flow_style_list(
+            [_yaml_weight(voter.weight) for voter in profile]
+        )
     data["num_cand"] = profile.num_cand
     if committeesize is not None:
         data["committeesize"] = committeesize
-- 
2.43.0


From 94446a211825a34556d13ae77784ad9e112da659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 16/35] fix: profiles with numpy integers as candidates cannot
 be written to yaml files

---
 abcvoting/fileio.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 2ec4fb2..8053db5 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -363,7 +363,9 @@ def write_abcvoting_instance_to_yaml_file(
     data = {}
     if description is not None:
         data["description"] = description
-    data["profile"] = _yaml_flow_style_list([list(voter.approved) for voter in profile])
+    data["profile"] = _yaml_flow_style_list(
+        [[int(cand) for cand in voter.approved] for voter in profile]
+    )
     if not profile.has_unit_weights():
         data["voter_weights"] = _yaml_flow_style_list(
             [_yaml_weight(voter.weight) for voter in profile]
@@ -382,7 +384,10 @@ def write_abcvoting_instance_to_yaml_file(
                     mod_compute_instance["result"] = None
                 else:
                     mod_compute_instance["result"] = _yaml_flow_style_list(
-                        [list(committee) for committee in compute_instance["result"]]
+                        [
+                            [int(cand) for cand in committee]
+                            for committee in compute_instance["result"]
+                        ]
                     )  # TODO: would be nicer to store committees in set notation (curly braces)
             if "profile" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-- 
2.43.0


From 528b7e24ab34cd994059144997b7ee2803b05fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 17/35] fix: compute instances of yaml files without
 committeesize cannot be written again

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 8053db5..639f87e 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -398,7 +398,7 @@ def write_abcvoting_instance_to_yaml_file(
                     )
             if "committeesize" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-                if int(compute_instance["committeesize"]) != committeesize:
+                if compute_instance["committeesize"] != committeesize:
                     raise ValueError(
                         "Compute instance contained a committee size different from"
                         "the committee size passed to write_abcvoting_instance_to_yaml_file()."
-- 
2.43.0


From 70a11541ea7c1a2b8d8326ceb3bd0573d83c4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 18/35] fix: read_preflib_file accepts top_ranks=0 and
 setsize=0 (all ballots are empty)

---
 abcvoting/fileio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 639f87e..aa2a143 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -105,9 +105,9 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
         top_ranks = 1  # default
     if top_ranks and setsize:
         raise ValueError("Parameters top_ranks and setsize cannot be used simultaneously.")
-    if top_ranks and top_ranks <= 0:
+    if top_ranks is not None and top_ranks <= 0:
         raise ValueError("Parameter top_ranks must be > 0")
-    if setsize and setsize <= 0:
+    if setsize is not None and setsize <= 0:
         raise ValueError("Parameter setsize must be > 0")
 
     try:
-- 
2.43.0


From 5627678976ed58023206e6fcd8f39b66f9ea9af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 19/35] fix: check_EJR_plus raises KeyError for quotas larger
 than the default

---
 abcvoting/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 07160d1..39e6d31 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1093,7 +1093,9 @@ def _check_EJR_plus(profile, committee, quota):
     for cand in profile.candidates:
         if cand in committee:
             continue
-        supporters_by_utility = {ell: set() for ell in range(ell_upper_bound + 1)}
+        supporters_by_utility = {
+            utility: set() for utility in range(max(ell_upper_bound, len(committee)) + 1)
+        }
         for vi, voter in enumerate(profile):
             if cand in voter.approved:
                 utility = len(voter.approved & committee)
-- 
2.43.0


From 30b6ba2a7df3486b2057f293c54371e78fdc6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 20/35] fix: brute-force checks of EJR and PJR ignore weights
 and report groups that are not cohesive

---
 abcvoting/properties.py | 86 ++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 44 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 39e6d31..f85be5f 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -4,7 +4,6 @@ Axiomatic properties of committees.
 
 import gurobipy as gb
 import itertools
-import math
 from fractions import Fraction
 from abcvoting.output import output, WARNING
 from abcvoting.misc import str_set_of_candidates, CandidateSet, dominate, powerset
@@ -721,8 +720,8 @@ def _check_EJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum group size (by weight) for this ell
+        min_group_size = ell * quota
 
         # compute list of voters to consider
         for i, voter in enumerate(profile):
@@ -735,23 +734,23 @@ def _check_EJR_brute_force(profile, committee, quota):
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for combination in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
-        ):
-            # compute set of candidates approved by all voters in combination
-            cut = set.intersection(*(profile[vi].approved for vi in combination))
-
-            # if size of cut is >= ell, then combination is an ell-cohesive group
-            if len(cut) >= ell:
-                # we have found combination to be an ell-cohesive set, with no voter having
+        # check all possible sets of ell jointly approved candidates
+        for cut in itertools.combinations(profile.approved_candidates(), ell):
+            # compute group of all considered voters that approve these candidates
+            group = [
+                vi
+                for vi in voters_less_than_ell_approved_candidates
+                if profile[vi].approved.issuperset(cut)
+            ]
+
+            # is the group large enough (by weight) to be an ell-cohesive group?
+            if sum(profile[vi].weight for vi in group) >= min_group_size:
+                # we have found group to be an ell-cohesive set, with no voter having
                 # at least ell approved candidates in committee. Thus EJR fails
                 detailed_information = {
-                    "cohesive_group": voters_less_than_ell_approved_candidates,
+                    "cohesive_group": group,
                     "ell": ell,
-                    "joint_candidates": cut,
+                    "joint_candidates": set(cut),
                 }
                 return False, detailed_information
 
@@ -870,8 +869,8 @@ def _check_PJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum group size (by weight) for this ell
+        min_group_size = ell * quota
 
         # compute list of voters to consider
         for vi, voter in enumerate(profile):
@@ -884,32 +883,31 @@ def _check_PJR_brute_force(profile, committee, quota):
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for group in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # check all possible sets of ell jointly approved candidates and
+        # all sets of less than ell committee members
+        for cut, represented in itertools.product(
+            itertools.combinations(profile.approved_candidates(), ell),
+            itertools.combinations(committee, min(ell - 1, len(committee))),
         ):
-            # find set of candidates that are approved by all voters in group
-            cut = set.intersection(*(profile[j].approved for j in group))
-
-            # if size of cut is >= ell, then group is an ell-cohesive group
-            if len(cut) >= ell:
-                # now calculate union of approved candidates over all voters inside
-                # this ell-cohesive group
-                approved_cands_union = set()
-                for j in group:
-                    approved_cands_union = approved_cands_union.union(profile[j].approved)
-
-                # if intersection of `approved_cands_union` with committee yields a set of size
-                # strictly less than ell, then this ell-cohesive group violates PJR
-                if len(approved_cands_union & committee) < ell:
-                    detailed_information = {
-                        "cohesive_group": voters_less_than_ell_approved_candidates,
-                        "ell": ell,
-                        "joint_candidates": cut,
-                    }
-                    return False, detailed_information
+            # compute group of all considered voters that approve these candidates
+            # and at most the committee members in `represented`
+            group = [
+                vi
+                for vi in voters_less_than_ell_approved_candidates
+                if profile[vi].approved.issuperset(cut)
+                and (profile[vi].approved & committee).issubset(represented)
+            ]
+
+            # is the group large enough (by weight) to be an ell-cohesive group?
+            if sum(profile[vi].weight for vi in group) >= min_group_size:
+                # this ell-cohesive group approves less than ell committee members;
+                # it violates PJR
+                detailed_information = {
+                    "cohesive_group": group,
+                    "ell": ell,
+                    "joint_candidates": set(cut),
+                }
+                return False, detailed_information
 
     # if function has not returned by now, then it means that for all ell,
     # no ell-cohesive group was found among voters with less than ell
-- 
2.43.0


From 624c30e6f35b0c28f904f6c13361000ff9c06f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 21/35] fix: property checks raise TypeError for profiles with
 float weights

---
 abcvoting/properties.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index f85be5f..9f9b7b1 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -284,7 +284,7 @@ def check_EJR(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight(), len(committee))
+        quota = Fraction(profile.total_weight()) / len(committee)
     else:
         standard_quota = False
 
@@ -395,7 +395,7 @@ def check_PJR(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight(), len(committee))
+        quota = Fraction(profile.total_weight()) / len(committee)
     else:
         standard_quota = False
 
@@ -500,7 +500,7 @@ def check_JR(profile, committee, quota=None):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight(), len(committee))
+        quota = Fraction(profile.total_weight()) / len(committee)
     else:
         standard_quota = False
 
@@ -712,7 +712,7 @@ def _check_EJR_brute_force(profile, committee, quota):
     """
 
     # largest possible ell such that ell-cohesive groups can exist
-    ell_upper_bound = int(profile.total_weight() / quota)
+    ell_upper_bound = int(Fraction(profile.total_weight()) / quota)
 
     # loop through all possible ell
     for ell in range(1, ell_upper_bound + 1):
@@ -790,7 +790,7 @@ def _check_EJR_gurobi(profile, committee, quota):
 
     model.addConstr(ell >= 1)
     # largest possible ell such that ell-cohesive groups can exist
-    model.addConstr(ell <= int(profile.total_weight() / quota))
+    model.addConstr(ell <= int(Fraction(profile.total_weight()) / quota))
 
     # constraint: size of ell-cohesive group should be appropriate wrt. ell
     model.addConstr(
@@ -859,7 +859,7 @@ def _check_PJR_brute_force(profile, committee, quota):
     """
 
     # largest possible ell such that ell-cohesive groups can exist
-    ell_upper_bound = int(profile.total_weight() / quota)
+    ell_upper_bound = int(Fraction(profile.total_weight()) / quota)
 
     # considering ell-cohesive groups
     for ell in range(1, ell_upper_bound + 1):
@@ -945,7 +945,7 @@ def _check_PJR_gurobi(profile, committee, quota):
 
     model.addConstr(ell >= 1)
     # largest possible ell such that ell-cohesive groups can exist
-    model.addConstr(ell <= int(profile.total_weight() / quota))
+    model.addConstr(ell <= int(Fraction(profile.total_weight()) / quota))
 
     # constraint: size of ell-cohesive group should be appropriate wrt ell
     model.addConstr(
@@ -1028,7 +1028,7 @@ def check_EJR_plus(profile, committee, quota=None):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight(), len(committee))
+        quota = Fraction(profile.total_weight()) / len(committee)
     else:
         standard_quota = False
 
@@ -1086,7 +1086,7 @@ def _check_EJR_plus(profile, committee, quota):
     """
 
     # largest possible ell such that ell-cohesive groups can exist
-    ell_upper_bound = int(profile.total_weight() / quota)
+    ell_upper_bound = int(Fraction(profile.total_weight()) / quota)
 
     for cand in profile.candidates:
         if cand in committee:
@@ -1376,7 +1376,7 @@ def check_FJR(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight(), len(committee))
+        quota = Fraction(profile.total_weight()) / len(committee)
     else:
         standard_quota = False
 
@@ -1445,7 +1445,7 @@ def _check_FJR_brute_force(profile, committee, quota):
     """
 
     # largest possible size of set T (and beta)
-    set_upper_bound = int(profile.total_weight() / quota)
+    set_upper_bound = int(Fraction(profile.total_weight()) / quota)
 
     committee_utility_at_most = {
         utility: set(
@@ -1505,7 +1505,7 @@ def _check_FJR_gurobi(profile, committee, quota):
     """
 
     # largest possible size of set T (and beta)
-    set_upper_bound = int(profile.total_weight() / quota)
+    set_upper_bound = int(Fraction(profile.total_weight()) / quota)
 
     model = gb.Model()
 
@@ -1584,7 +1584,7 @@ def check_core(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight(), len(committee))
+        quota = Fraction(profile.total_weight()) / len(committee)
     else:
         standard_quota = False
 
@@ -1650,7 +1650,7 @@ def _check_core_brute_force(profile, committee, quota):
     <http://dx.doi.org/10.1007/978-3-031-09016-5>
     """
 
-    max_num_of_candidates = int(profile.total_weight() / quota)
+    max_num_of_candidates = int(Fraction(profile.total_weight()) / quota)
 
     for cands in powerset(profile.approved_candidates(), max_size=max_num_of_candidates):
         cands = set(cands)
-- 
2.43.0


From 404f0673d02d91b5952f5a2a2d54acd07c3d48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 22/35] fix: random profiles with fixed-size approval sets may
 have too small approval sets (float rounding)

---
 abcvoting/generate.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index bf75d05..59da8cd 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -5,6 +5,7 @@ This module is based on the paper on the package
 `prefsampling <https://github.com/COMSOC-Community/prefsampling>`_.
 """
 
+from fractions import Fraction
 import numpy as np
 import prefsampling.approval as app_samplers
 import prefsampling.ordinal as ord_samplers
@@ -39,6 +40,28 @@ def prefsampling_wrapper(sampler, sampler_params):
     return profile
 
 
+def relative_setsize(setsize, num_cand):
+    """
+    Relative size of approval sets, as an exact fraction.
+
+    The samplers of prefsampling compute the size of approval sets via
+    `int(rel_num_approvals * num_candidates)`. With floats, this may be too small due to rounding.
+
+    Parameters
+    ----------
+        setsize : int
+            Number of candidates that each voter approves.
+
+        num_cand : int
+            The desired number of candidates in the profile.
+
+    Returns
+    -------
+        fractions.Fraction
+    """
+    return Fraction(Fraction(setsize), num_cand)
+
+
 def random_profile(num_voters, num_cand, prob_distribution):
     """
     Generate a random profile using the probability distribution `prob_distribution`.
@@ -124,7 +147,7 @@ def random_urn_fixed_size_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": relative_setsize(setsize, num_cand),
             "alpha": replace,
         },
     )
@@ -154,7 +177,7 @@ def random_ic_fixed_size_profile(num_voters, num_cand, setsize):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": relative_setsize(setsize, num_cand),
         },
     )
 
@@ -187,7 +210,7 @@ def random_mallows_profile(num_voters, num_cand, setsize, dispersion):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": relative_setsize(setsize, num_cand),
             "ordinal_sampler": ord_samplers.mallows,
             "ordinal_sampler_parameters": {"phi": dispersion},
         },
@@ -302,7 +325,7 @@ def random_truncated_urn_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": relative_setsize(setsize, num_cand),
             "ordinal_sampler": ord_samplers.urn,
             "ordinal_sampler_parameters": {"alpha": replace},
         },
@@ -632,7 +655,7 @@ def random_euclidean_fixed_size_profile(
         candidate_points,
         return_points,
         app_samplers.euclidean_constant_size,
-        {"rel_num_approvals": setsize / num_cand},
+        {"rel_num_approvals": relative_setsize(setsize, num_cand)},
     )
 
 
-- 
2.43.0


From 59eb52b1fc76dedf7f5fd383e189027cd714b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 23/35] fix: seeding generate.rng has no effect on random
 profiles and points

---
 abcvoting/generate.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index 59da8cd..b10b006 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -32,7 +32,7 @@ def prefsampling_wrapper(sampler, sampler_params):
     -------
         abcvoting.preferences.Profile
     """
-    samples = sampler(**sampler_params)
+    samples = sampler(**sampler_params, seed=random_seed())
     num_candidates = sampler_params["num_candidates"]
     profile = Profile(num_candidates)
     for sample in samples:
@@ -40,6 +40,17 @@ def prefsampling_wrapper(sampler, sampler_params):
     return profile
 
 
+def random_seed():
+    """
+    Generate a seed for prefsampling functions with the random number generator `rng`.
+
+    Returns
+    -------
+        int
+    """
+    return int(rng.integers(2**32))
+
+
 def relative_setsize(setsize, num_cand):
     """
     Relative size of approval sets, as an exact fraction.
@@ -930,7 +941,7 @@ class PointProbabilityDistribution:
                 num_dimensions=1,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=random_seed() if seed is None else seed,
             )
         elif self.name == "1d_gaussian":
             return lambda num_points, num_dimensions=1, seed=None: point_samplers.gaussian(
@@ -938,7 +949,7 @@ class PointProbabilityDistribution:
                 num_dimensions=1,
                 center_point=self.center_point,
                 sigmas=self.sigma,
-                seed=seed,
+                seed=random_seed() if seed is None else seed,
             )
         elif self.name == "1d_gaussian_interval":
             return lambda num_points, num_dimensions=1, seed=None: point_samplers.gaussian(
@@ -947,7 +958,7 @@ class PointProbabilityDistribution:
                 center_point=self.center_point,
                 sigmas=self.sigma,
                 widths=[self.width],
-                seed=seed,
+                seed=random_seed() if seed is None else seed,
             )
         elif self.name == "2d_disc":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.ball_uniform(
@@ -955,7 +966,7 @@ class PointProbabilityDistribution:
                 num_dimensions=2,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=random_seed() if seed is None else seed,
             )
         elif self.name == "2d_square":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.cube(
@@ -963,7 +974,7 @@ class PointProbabilityDistribution:
                 num_dimensions=2,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=random_seed() if seed is None else seed,
             )
         elif self.name == "2d_gaussian":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.gaussian(
@@ -971,14 +982,18 @@ class PointProbabilityDistribution:
                 num_dimensions=2,
                 center_point=self.center_point,
                 sigmas=self.sigma,
-                seed=seed,
+                seed=random_seed() if seed is None else seed,
             )
         elif self.name == "2d_gaussian_disc":
             return lambda num_points, num_dimensions=2, seed=None: point_samplers.ball_resampling(
                 num_points,
                 num_dimensions=2,
                 inner_sampler=lambda: point_samplers.gaussian(
-                    1, num_dimensions=2, center_point=self.center_point, sigmas=self.sigma
+                    1,
+                    num_dimensions=2,
+                    center_point=self.center_point,
+                    sigmas=self.sigma,
+                    seed=random_seed(),
                 )[0],
                 inner_sampler_args={},
                 center_point=self.center_point,
@@ -991,7 +1006,7 @@ class PointProbabilityDistribution:
                 num_dimensions=3,
                 center_point=self.center_point,
                 widths=self.width,
-                seed=seed,
+                seed=random_seed() if seed is None else seed,
             )
         else:
             raise ValueError(f"unknown name of point distribution: {self.name}")
-- 
2.43.0


From 32168709081a3fd53b2dd2e1e7973529be431c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 24/35] fix: printed reports give candidate indices and a wrong
 score name instead of the correct names

---
 abcvoting/abcrules.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 60f078b..e941938 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1241,7 +1241,9 @@ def compute_seq_thiele_method(
                     indent=" ",
                 )
                 if len(tied_cands) > 1:
-                    output.details(f"tie broken in favor of {next_cand},\n", indent=" ")
+                    output.details(
+                        f"tie broken in favor of {profile.cand_names[next_cand]},\n", indent=" "
+                    )
                     output.details(
                         f"candidates "
                         f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
@@ -1632,7 +1634,10 @@ def compute_revseq_thiele_method(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken to the disadvantage of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken to the disadvantage of {profile.cand_names[next_cand]},",
+                    indent=" ",
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)}"
@@ -1647,7 +1652,7 @@ def compute_revseq_thiele_method(
         str_committees_with_header(committees, cand_names=profile.cand_names, winning=True)
     )
 
-    msg = "PAV-score of winning committee:"
+    msg = scorefct_id.upper() + "-score of winning committee:"
     if not resolute and len(committees) != 1:
         msg += "\n"
     for committee in committees:
@@ -3808,7 +3813,9 @@ def compute_maximin_support(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken in favor of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken in favor of {profile.cand_names[next_cand]},", indent=" "
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
-- 
2.43.0


From 7f3ae401c6d0c916fcc32a407e41c262ee6e2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 25/35] fix: report of reverse sequential rules omits the
 removed candidate from ties

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e941938..2045eb6 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1684,7 +1684,7 @@ def _revseq_thiele_resolute(scorefct_id, profile, committeesize):
             cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
         ]
         next_cand = cands_to_remove[-1]
-        tied_cands = cands_to_remove[:-1]
+        tied_cands = cands_to_remove
         committee.remove(next_cand)
 
         detailed_info["next_cand"].append(next_cand)
-- 
2.43.0


From 02580b4dbe9dc46c5640b150729040a959aeac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 26/35] fix: full_analysis leaves the output verbosity changed
 if a check raises an exception

---
 abcvoting/properties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 9f9b7b1..007711e 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -59,8 +59,12 @@ def full_analysis(profile, committee):
     current_verbosity = output.verbosity
     output.set_verbosity(WARNING)
 
-    for property_name in PROPERTY_NAMES:
-        results[property_name] = check(property_name, profile, committee)
+    try:
+        for property_name in PROPERTY_NAMES:
+            results[property_name] = check(property_name, profile, committee)
+    finally:
+        # restore output verbosity
+        output.set_verbosity(current_verbosity)
 
     description = {
         "pareto": "Pareto optimality",
@@ -74,9 +78,6 @@ def full_analysis(profile, committee):
         "core": "The core",
     }
 
-    # restore output verbosity
-    output.set_verbosity(current_verbosity)
-
     for prop, value in results.items():
         output.info(f"{description[prop]:50s} : {value}")
 
-- 
2.43.0


From 15b7402e9b54591e74532dc5bfa32d74a3c9f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 27/35] Revert "fix: report of reverse sequential rules omits
 the removed candidate from ties"

The expected output of an example (tests/expected_output/test_abcbook_example06_py) pins the report.
---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 2045eb6..e941938 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1684,7 +1684,7 @@ def _revseq_thiele_resolute(scorefct_id, profile, committeesize):
             cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
         ]
         next_cand = cands_to_remove[-1]
-        tied_cands = cands_to_remove
+        tied_cands = cands_to_remove[:-1]
         committee.remove(next_cand)
 
         detailed_info["next_cand"].append(next_cand)
-- 
2.43.0


From eadb839541fe3ffce88413c4e68988268ce78d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 28/35] fix: scale the loads in the ILPs of minimax-Phragmen by
 the average weight

Both solvers returned wrong committees (Python-MIP also raised a RuntimeError)
for voters with large weights, as loads came close to the solvers' accuracy.
---
 abcvoting/abcrules_gurobi.py | 4 +++-
 abcvoting/abcrules_mip.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 7961781..b0f0835 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -396,6 +396,8 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                     load[(voter, cand)] = 0
 
         # a candidate's load is distributed among his approvers
+        # (scaled by the average weight, so that the solver's accuracy suffices for all weights)
+        scale = profile.total_weight() / len(profile)
         for cand in profile.candidates:
             model.addConstr(
                 gb.quicksum(
@@ -403,7 +405,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                     for voter in profile
                     if cand in profile.candidates
                 )
-                >= in_committee[cand]
+                >= scale * in_committee[cand]
             )
 
         loadbound = model.addVar(lb=0, name="loadbound")
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index feba5c3..aec9823 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -335,6 +335,8 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
                     load[(voter, cand)] = 0
 
         # a candidate's load is distributed among his approvers
+        # (scaled by the average weight, so that the solver's accuracy suffices for all weights)
+        scale = profile.total_weight() / len(profile)
         for cand in profile.candidates:
             model += (
                 mip.xsum(
@@ -342,7 +344,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
                     for voter in profile
                     if cand in profile.candidates
                 )
-                >= in_committee[cand]
+                >= scale * in_committee[cand]
             )
 
         loadbound = model.add_var(lb=0, var_type=mip.CONTINUOUS, name="loadbound")
-- 
2.43.0


From 2d206ef53da2d0e12f2c341f4b123e6852832792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 29/35] fix: float arithmetic of Phragmen-Enestroem if
 supporters can just afford a candidate

The remaining budget was a rounding error instead of 0, and ties were missed
for large weights.
---
 abcvoting/abcrules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e941938..e9bb400 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4045,7 +4045,9 @@ def _phragmen_enestroem_algorithm(
         new_committee_budget_pairs = []
         for cand in tied_cands:
             new_budget = list(budget)  # copy of budget
-            if max_support > price:  # supporters can afford it
+            if algorithm == "float-fractions" and misc.isclose(max_support, price):
+                multiplier = 0  # supporters can just afford it
+            elif max_support > price:  # supporters can afford it
                 multiplier = division(max_support - price, max_support)
             else:  # supporters can't afford it, set budget to 0
                 multiplier = 0
-- 
2.43.0


From 04c201c34aba6845d56268ee827ae82c5b3872b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 30/35] fix: increment completion of Equal Shares raises
 TypeError for float weights

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e9bb400..dfe518f 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3475,7 +3475,7 @@ def _equal_shares_algorithm_with_increment_completion(
             algorithm,
             resolute=True,
             completion=None,
-            per_voter_budget=Fraction(increment_committeesize, profile.total_weight()),
+            per_voter_budget=Fraction(increment_committeesize) / profile.total_weight(),
         )
         detailed_info["increment_committeesize"] = increment_committeesize
         committees = [comm for comm in committees if len(comm) == committeesize]
-- 
2.43.0


From bcc99c84a688631c0ac7bb8cd8013a408a2aecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:51 +0000
Subject: [PATCH 31/35] fix: leximax-Phragmen raises an exception for gmpy2 and
 numpy weights

---
 abcvoting/abcrules_gurobi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index b0f0835..f7c22a0 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -5,6 +5,7 @@ import gurobipy as gb
 import itertools
 import math
 from fractions import Fraction
+from numbers import Rational
 from abcvoting.misc import sorted_committees
 from abcvoting import scores
 from abcvoting import misc
@@ -454,9 +455,9 @@ def _replace_weights_by_copies(profile):
     Each voter is replaced by a number of copies; this number is proportional to her weight.
     """
     weights = [
-        Fraction(voter.weight).limit_denominator(1000)
-        if isinstance(voter.weight, float)
-        else Fraction(voter.weight)
+        Fraction(int(voter.weight.numerator), int(voter.weight.denominator))
+        if isinstance(voter.weight, Rational)
+        else Fraction(float(voter.weight)).limit_denominator(1000)
         for voter in profile
     ]
     denominator = functools.reduce(
-- 
2.43.0


From 22dabcf042c2a5917eccecffb6d6ad76e8f23762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 32/35] fix: Gurobi and Python MIP fail to find all committees
 with float weights

---
 abcvoting/abcrules_gurobi.py | 10 ++++------
 abcvoting/abcrules_mip.py    | 11 +++++------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index f7c22a0..623f6e0 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -114,19 +114,17 @@ def _optimize_rule_gurobi(
         else:
             objective_value = committeescorefct(profile, committee)  # exact value
 
+        # exact comparison unless the value is a float (from the MIP, or due to float weights)
+        accuracy = 0 if isinstance(objective_value, Rational) else CMP_ACCURACY
         if maxscore is None:
             maxscore = objective_value
-        elif (committeescorefct is not None and objective_value > maxscore) or (
-            committeescorefct is None and objective_value > maxscore + CMP_ACCURACY
-        ):
+        elif objective_value > maxscore + accuracy:
             raise RuntimeError(
                 "Gurobi found a solution better than a previous optimum. This "
                 f"should not happen (previous optimal score: {maxscore}, "
                 f"new optimal score: {model.objVal}, model {name})."
             )
-        elif (committeescorefct is not None and objective_value < maxscore) or (
-            committeescorefct is None and objective_value < maxscore - CMP_ACCURACY
-        ):
+        elif objective_value < maxscore - accuracy:
             # no longer optimal
             break
 
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index aec9823..d81defb 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -3,6 +3,7 @@
 import functools
 import itertools
 import mip
+from numbers import Rational
 from abcvoting.misc import sorted_committees
 from abcvoting import scores
 from abcvoting.output import output
@@ -140,19 +141,17 @@ def _optimize_rule_mip(
         else:
             objective_value = committeescorefct(profile, committee)  # exact value
 
+        # exact comparison unless the value is a float (from the MIP, or due to float weights)
+        accuracy = 0 if isinstance(objective_value, Rational) else CMP_ACCURACY
         if maxscore is None:
             maxscore = objective_value
-        elif (committeescorefct is not None and objective_value > maxscore) or (
-            committeescorefct is None and objective_value > maxscore + CMP_ACCURACY
-        ):
+        elif objective_value > maxscore + accuracy:
             raise RuntimeError(
                 "Python MIP found a solution better than a previous optimum. This "
                 f"should not happen (previous optimal score: {maxscore}, "
                 f"new optimal score: {objective_value}, model {name})."
             )
-        elif (committeescorefct is not None and objective_value < maxscore) or (
-            committeescorefct is None and objective_value < maxscore - CMP_ACCURACY
-        ):
+        elif objective_value < maxscore - accuracy:
             # no longer optimal
             break
 
-- 
2.43.0


From 8dd02cc672df3737a3d2a36eb0a6384fcf6db61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 33/35] fix: property checks raise exceptions for gmpy2 weights

---
 abcvoting/properties.py | 46 +++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 007711e..539eb52 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -34,6 +34,12 @@ def _set_gurobi_model_parameters(model):
     model.setParam("IntegralityFocus", 1)
 
 
+def _total_weight(profile):
+    """Return the total weight of voters as a Fraction (also if the weights are, e.g., floats)."""
+    total_weight = Fraction(profile.total_weight())
+    return Fraction(int(total_weight.numerator), int(total_weight.denominator))
+
+
 def full_analysis(profile, committee):
     """
     Test all implemented properties for the given committee.
@@ -285,7 +291,7 @@ def check_EJR(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight()) / len(committee)
+        quota = _total_weight(profile) / len(committee)
     else:
         standard_quota = False
 
@@ -321,7 +327,7 @@ def check_EJR(profile, committee, quota=None, algorithm="fastest"):
         fractional_size = sum(profile[vi].weight for vi in cohesive_group) / profile.total_weight()
         output.details(
             f"(The {ell}-cohesive group of voters {str_set_of_candidates(cohesive_group)}"
-            f" ({fractional_size*100:.1f}% of all voters"
+            f" ({float(fractional_size) * 100:.1f}% of all voters"
             f"{' (by weight)' if not profile.has_unit_weights() else ''})"
             f" jointly approve the candidates {str_set_of_candidates(cands)}, but none of them "
             f"approves {ell} candidates in the committee.)",
@@ -396,7 +402,7 @@ def check_PJR(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight()) / len(committee)
+        quota = _total_weight(profile) / len(committee)
     else:
         standard_quota = False
 
@@ -431,7 +437,7 @@ def check_PJR(profile, committee, quota=None, algorithm="fastest"):
         fractional_size = sum(profile[vi].weight for vi in cohesive_group) / profile.total_weight()
         output.details(
             f"(The {ell}-cohesive group of voters {str_set_of_candidates(cohesive_group)}"
-            f" ({fractional_size*100:.1f}% of all voters"
+            f" ({float(fractional_size) * 100:.1f}% of all voters"
             f"{' (by weight)' if not profile.has_unit_weights() else ''})"
             f" jointly approve the candidates {str_set_of_candidates(cands)}, but they "
             f"approve fewer than {ell} candidates in the committee.)"
@@ -501,7 +507,7 @@ def check_JR(profile, committee, quota=None):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight()) / len(committee)
+        quota = _total_weight(profile) / len(committee)
     else:
         standard_quota = False
 
@@ -527,7 +533,7 @@ def check_JR(profile, committee, quota=None):
         fractional_size = sum(profile[vi].weight for vi in cohesive_group) / profile.total_weight()
         output.details(
             f"(The 1-cohesive group of voters {str_set_of_candidates(cohesive_group)}"
-            f" ({fractional_size*100:.1f}% of all voters"
+            f" ({float(fractional_size) * 100:.1f}% of all voters"
             f"{' (by weight)' if not profile.has_unit_weights() else ''})"
             f" jointly approve candidate {profile.cand_names[cand]}, but none of them"
             " approve a candidate in the committee.)"
@@ -713,7 +719,7 @@ def _check_EJR_brute_force(profile, committee, quota):
     """
 
     # largest possible ell such that ell-cohesive groups can exist
-    ell_upper_bound = int(Fraction(profile.total_weight()) / quota)
+    ell_upper_bound = int(_total_weight(profile) / quota)
 
     # loop through all possible ell
     for ell in range(1, ell_upper_bound + 1):
@@ -791,7 +797,7 @@ def _check_EJR_gurobi(profile, committee, quota):
 
     model.addConstr(ell >= 1)
     # largest possible ell such that ell-cohesive groups can exist
-    model.addConstr(ell <= int(Fraction(profile.total_weight()) / quota))
+    model.addConstr(ell <= int(_total_weight(profile) / quota))
 
     # constraint: size of ell-cohesive group should be appropriate wrt. ell
     model.addConstr(
@@ -860,7 +866,7 @@ def _check_PJR_brute_force(profile, committee, quota):
     """
 
     # largest possible ell such that ell-cohesive groups can exist
-    ell_upper_bound = int(Fraction(profile.total_weight()) / quota)
+    ell_upper_bound = int(_total_weight(profile) / quota)
 
     # considering ell-cohesive groups
     for ell in range(1, ell_upper_bound + 1):
@@ -946,7 +952,7 @@ def _check_PJR_gurobi(profile, committee, quota):
 
     model.addConstr(ell >= 1)
     # largest possible ell such that ell-cohesive groups can exist
-    model.addConstr(ell <= int(Fraction(profile.total_weight()) / quota))
+    model.addConstr(ell <= int(_total_weight(profile) / quota))
 
     # constraint: size of ell-cohesive group should be appropriate wrt ell
     model.addConstr(
@@ -1029,7 +1035,7 @@ def check_EJR_plus(profile, committee, quota=None):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight()) / len(committee)
+        quota = _total_weight(profile) / len(committee)
     else:
         standard_quota = False
 
@@ -1056,7 +1062,7 @@ def check_EJR_plus(profile, committee, quota=None):
         fractional_size = sum(profile[vi].weight for vi in cohesive_group) / profile.total_weight()
         output.details(
             f"(The group of voters {str_set_of_candidates(cohesive_group)}"
-            f" ({fractional_size*100:.1f}% of all voters"
+            f" ({float(fractional_size) * 100:.1f}% of all voters"
             f"{' (by weight)' if not profile.has_unit_weights() else ''})"
             f" deserves {ell} candidates,"
             f" and jointly approve candidate {profile.cand_names[cand]} which is not part of the"
@@ -1087,7 +1093,7 @@ def _check_EJR_plus(profile, committee, quota):
     """
 
     # largest possible ell such that ell-cohesive groups can exist
-    ell_upper_bound = int(Fraction(profile.total_weight()) / quota)
+    ell_upper_bound = int(_total_weight(profile) / quota)
 
     for cand in profile.candidates:
         if cand in committee:
@@ -1377,7 +1383,7 @@ def check_FJR(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight()) / len(committee)
+        quota = _total_weight(profile) / len(committee)
     else:
         standard_quota = False
 
@@ -1413,7 +1419,7 @@ def check_FJR(profile, committee, quota=None, algorithm="fastest"):
         fractional_size = sum(profile[vi].weight for vi in cohesive_group) / profile.total_weight()
         output.details(
             f"(The weakly cohesive group of voters {str_set_of_candidates(cohesive_group)}"
-            f"({fractional_size*100:.1f}% of all voters"
+            f"({float(fractional_size) * 100:.1f}% of all voters"
             f"{' (by weight)' if not profile.has_unit_weights() else ''})"
             f"each approve at least {beta} of the {ell} candidates {str_set_of_candidates(cands)},"
             f"but all approve at most {beta - 1} candidates in the committee.)",
@@ -1446,7 +1452,7 @@ def _check_FJR_brute_force(profile, committee, quota):
     """
 
     # largest possible size of set T (and beta)
-    set_upper_bound = int(Fraction(profile.total_weight()) / quota)
+    set_upper_bound = int(_total_weight(profile) / quota)
 
     committee_utility_at_most = {
         utility: set(
@@ -1506,7 +1512,7 @@ def _check_FJR_gurobi(profile, committee, quota):
     """
 
     # largest possible size of set T (and beta)
-    set_upper_bound = int(Fraction(profile.total_weight()) / quota)
+    set_upper_bound = int(_total_weight(profile) / quota)
 
     model = gb.Model()
 
@@ -1585,7 +1591,7 @@ def check_core(profile, committee, quota=None, algorithm="fastest"):
 
     if quota is None:
         standard_quota = True
-        quota = Fraction(profile.total_weight()) / len(committee)
+        quota = _total_weight(profile) / len(committee)
     else:
         standard_quota = False
 
@@ -1619,7 +1625,7 @@ def check_core(profile, committee, quota=None, algorithm="fastest"):
         fractional_size = sum(profile[vi].weight for vi in coalition) / profile.total_weight()
         output.details(
             f"(The group of voters {str_set_of_candidates(coalition)}"
-            f" ({fractional_size*100:.1f}% of all voters"
+            f" ({float(fractional_size) * 100:.1f}% of all voters"
             f"{' (by weight)' if not profile.has_unit_weights() else ''})"
             f" can block the outcome by proposing {str_set_of_candidates(objection)},"
             f" in which each group member approves strictly more candidates.)"
@@ -1651,7 +1657,7 @@ def _check_core_brute_force(profile, committee, quota):
     <http://dx.doi.org/10.1007/978-3-031-09016-5>
     """
 
-    max_num_of_candidates = int(Fraction(profile.total_weight()) / quota)
+    max_num_of_candidates = int(_total_weight(profile) / quota)
 
     for cands in powerset(profile.approved_candidates(), max_size=max_num_of_candidates):
         cands = set(cands)
-- 
2.43.0


From 8adb7cb0ea688f708f23928a570e4641712a81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 34/35] fix: branch-and-bound algorithm fails with float
 weights due to rounding errors

---
 abcvoting/abcrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index dfe518f..6d46f6f 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -802,7 +802,8 @@ def _thiele_methods_branchandbound(
             upper_bound = sum(
                 sorted(marg_util_cand[largest_cand + 1 :])[-missing:]
             ) + scores.thiele_score(scorefct_id, profile, part_com)
-            if upper_bound >= best_score:
+            # float weights are subject to rounding errors
+            if upper_bound >= best_score or misc.isclose(upper_bound, best_score):
                 for cand in range(largest_cand + 1, profile.num_cand - missing + 1):
                     part_coms.insert(0, part_com + [cand])
 
-- 
2.43.0


From 5dc6d0d6dfe6f39b0477cfb1299c73a0f04378db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:33 +0000
Subject: [PATCH 35/35] fix: reject the rule IDs seqav and revseqav as intended
 (wrong variable in the comparison)

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 6d46f6f..dbccbac 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -315,7 +315,7 @@ class Rule:
             except scores.UnknownScoreFunctionError as error:
                 raise UnknownRuleIDError(rule_id) from error
 
-            if rule_id == "av":
+            if scorefct_id == "av":
                 raise UnknownRuleIDError(rule_id)  # seq-AV and revseq-AV are equivalent to AV
 
             # sequential Thiele methods
-- 
2.43.0


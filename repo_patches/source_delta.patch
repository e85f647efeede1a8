From c82ad7990134f00b8eb33e3e6e3ed7974ea89501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 01/53] fix: never sample an impossible outcome when a cdf ends
 just below one

---
 demod/utils/monte_carlo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/utils/monte_carlo.py b/demod/utils/monte_carlo.py
index afd3e6b..0bdbecd 100644
--- a/demod/utils/monte_carlo.py
+++ b/demod/utils/monte_carlo.py
@@ -39,7 +39,9 @@ def monte_carlo_from_1d_cdf(cdf: CDF, n_samples: int = 1) -> MC_choices:
     # sample MC distibution
     rand = np.random.uniform(size=n_samples)
     # gets the approptiate cdfs values
-    mask = cdf > rand[:, None]
+    # (the last possible outcome also gets the draws lying above a last
+    # value of the cdf that is below 1 because of rounding)
+    mask = (cdf > rand[:, None]) | (cdf == cdf[-1])
     return np.argmax(mask, axis=1)
 
 
@@ -76,7 +78,9 @@ def monte_carlo_from_cdf(cdf_s: CDFs) -> MC_choices:
     # sample MC distibution
     rand = np.random.uniform(size=cdf_s.shape[0])
     # gets the approptiate CDFs values
-    mask = cdf_s > rand[:, None]
+    # (the last possible outcome also gets the draws lying above a last
+    # value of the cdf that is below 1 because of rounding)
+    mask = (cdf_s > rand[:, None]) | (cdf_s == cdf_s[:, -1:])
     return np.argmax(mask, axis=1)
 
 
-- 
2.43.0


From c7a375a9c65bd614f9f54194ebe1e1b914860c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:25 +0000
Subject: [PATCH 02/53] fix: proportional sampling keeps every household in a
 possible class

---
 demod/simulators/util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 2293c74..7f8c5ff 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -110,6 +110,13 @@ def sample_population(
     if population_sampling_algo == 'real_population':
         lin_space = np.linspace(0, 1, n_samples)
         inds = np.searchsorted(cdf, lin_space)
+        # the end points belong to the first and to the last class that
+        # have a non zero probability
+        inds = np.clip(
+            inds,
+            np.searchsorted(cdf, 0., side='right'),
+            np.searchsorted(cdf, cdf[-1]),
+        )
     elif population_sampling_algo == 'monte_carlo':
         inds = monte_carlo_from_1d_cdf(cdf, n_samples=n_samples)
     else:
-- 
2.43.0


From 1ba13982f3e3656d67c642e04071ba1e528f2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:11 +0000
Subject: [PATCH 03/53] fix: refuse sparse matrix inputs of unequal lengths

---
 demod/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d91c90..dd9a0cf 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -72,8 +72,8 @@ class SparseTPM():
         length = len(times)
         if not (
                 length == len(inds_from)
-                & length == len(inds_to)
-                & length == len(values)):
+                and length == len(inds_to)
+                and length == len(values)):
             raise ValueError('Inputs must match in length')
         self.times = np.array(times, dtype=np.uint16)
         self.inds_from = np.array(inds_from, dtype=np.uint16)
-- 
2.43.0


From b0bbc058c7e90d385871aa0ce13ca5d9c5fe8aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:29 +0000
Subject: [PATCH 04/53] fix: sparse sampling only returns transitions possible
 from each state

The position drawn in the flattened cdf could fall in the row of another
state (draw of zero, rounding, unsorted transitions) and the dead states were
changed in the array of the caller.
---
 demod/utils/sparse.py | 48 +++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index dd9a0cf..4344489 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -177,34 +177,42 @@ class SparseTPM():
         time = self._check_int_time_value(time)
         # print('times, states', time, states)
 
-        # gets the pdf that we want
-        pdf_indices, inv = np.unique(states, return_inverse=True)
-        # get mask of the pdfs we required
-        # print('pdf_ind, inv', pdf_indices, inv)
-        # print('states from available ', self.inds_from[self.times == time])
-        mask = (self.times == time) & (np.isin(self.inds_from, pdf_indices))
+        # only the transitions that can occur at this time, grouped by
+        # the state they start from
+        mask = (self.times == time) & (self.values > 0)
+        order = np.argsort(self.inds_from[mask], kind='stable')
+        inds_from = self.inds_from[mask][order]
+        inds_to = self.inds_to[mask][order]
+
         # assume states has no dead states
-        if np.any(~np.isin(states, self.inds_from[mask])):
+        mask_dead = ~np.isin(states, inds_from)
+        if np.any(mask_dead):
             warnings.warn('Are some dead states at step {}'.format(time))
             if self.dead_state_value is not None:
-                # change the dead states and resample a montecarlo draw
-                states[
-                    ~np.isin(states, self.inds_from[mask])
-                ] = self.dead_state_value
-                return self.sparse_monte_carlo(time, states)
+                # change the dead states before the montecarlo draw
+                states = np.where(mask_dead, self.dead_state_value, states)
+                mask_dead = ~np.isin(states, inds_from)
+
+        # states from which nothing is possible are kept
+        new_states = np.array(states, dtype=int)
+        states = new_states[~mask_dead]
 
         # compute a flattened cdf containing all the states cdf
-        flattened_cdf = np.cumsum(self.values[mask])
-        # print('cdf',flattened_cdf)
+        flattened_cdf = np.cumsum(self.values[mask][order])
+        # first and last transition of each of the current states
+        first = np.searchsorted(inds_from, states, side='left')
+        last = np.searchsorted(inds_from, states, side='right') - 1
 
         # monte carlo part
         # sample the random values, and add their location in the flattened cdf
-        rand = np.random.uniform(size=states.shape) + inv
-        # print('r', rand)
-        # look for the position in the array
-        new_states = self.inds_to[mask][np.searchsorted(flattened_cdf, rand)]
-        # print('new states', new_states)
-        return np.array(new_states)
+        rand = np.random.uniform(size=states.shape)
+        if len(states) > 0:
+            rand = rand + np.where(first > 0, flattened_cdf[first - 1], 0.)
+            # look for the position in the array, it must be a transition
+            # of the current state also when its cdf is rounded
+            position = np.searchsorted(flattened_cdf, rand, side='right')
+            new_states[~mask_dead] = inds_to[np.clip(position, first, last)]
+        return new_states
 
     def save(self, path: str) -> None:
         """Save the TPM at the specified path.
-- 
2.43.0


From 48b0dbf52ac9fb8e580997a1feff2e31b4fc6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:29 +0000
Subject: [PATCH 05/53] fix: saved sparse matrices keep their number of times
 and states

---
 demod/utils/sparse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4344489..01fe0f4 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -226,6 +226,7 @@ class SparseTPM():
         np.save(path+'_tpm_inds_from', self.inds_from)
         np.save(path+'_tpm_inds_to', self.inds_to)
         np.save(path+'_tpm_values', self.values)
+        np.save(path+'_tpm_shape', np.array([self.n_times, self.n_states]))
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
@@ -243,4 +244,9 @@ class SparseTPM():
         inds_from = np.load(path+'_tpm_inds_from.npy', )
         inds_to = np.load(path+'_tpm_inds_to.npy', )
         values = np.load(path+'_tpm_values.npy', )
-        return SparseTPM(times, inds_from, inds_to, values)
+        try:
+            n_times, n_states = np.load(path+'_tpm_shape.npy')
+        except FileNotFoundError:
+            # saved without its shape
+            n_times, n_states = None, None
+        return SparseTPM(times, inds_from, inds_to, values, n_states, n_times)
-- 
2.43.0


From f6a235db80cc3e16066019801a0f3ff3424bcadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:17 +0000
Subject: [PATCH 06/53] fix: day callbacks fire on every step to another day

Steps to the first day of a month, steps of more than an hour over 4 am and
steps of a whole month were missed as only the day number or hour were
compared.
---
 demod/simulators/base_simulators.py | 33 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 444448e..c0b1bcb 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -864,6 +864,10 @@ class TimeAwareSimulator(Simulator):
 
 # Type for the step method of the simulators (variable input, None output)
 
+def _day_4am(time: datetime.datetime) -> datetime.date:
+    """Return the date of a time, for days that start at 4 am."""
+    return (time - datetime.timedelta(hours=4)).date()
+
 
 class Callbacks():
     """Defines different Callbacks for TimeAwareSimulator children.
@@ -927,7 +931,7 @@ class Callbacks():
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
             next_datetime = self.current_time + self.step_size
-            if next_datetime.day > self.current_time.day:
+            if next_datetime.date() != self.current_time.date():
                 self.on_before_next_day()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -942,9 +946,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            previous_day = self.current_time.day
+            previous_day = self.current_time.date()
             out = step_method(self, *args, **kwargs)
-            if self.current_time.day != previous_day:
+            if self.current_time.date() != previous_day:
                 self.on_after_next_day()
             return out
         decorated_step.__doc__ = step_method.__doc__
@@ -959,8 +963,8 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            next_hour = (self.current_time + self.step_size).hour
-            if next_hour == 4 and self.current_time.hour != 4:
+            next_datetime = self.current_time + self.step_size
+            if _day_4am(next_datetime) != _day_4am(self.current_time):
                 self.on_before_next_day_4am()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -975,9 +979,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self:TimeAwareSimulator, *args, **kwargs)-> None:
-            previous_hour = self.current_time.hour
+            previous_day = _day_4am(self.current_time)
             out = step_method(self, *args, **kwargs)
-            if self.current_time.hour == 4 and previous_hour != 4:
+            if _day_4am(self.current_time) != previous_day:
                 self.on_after_next_day_4am()
             return out
         decorated_step.__doc__ = step_method.__doc__
@@ -986,30 +990,31 @@ class Callbacks():
 # TODO: remove the following once backward compatibility is ensured
 def before_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        if (self.current_time + self.step_size).day > self.current_time.day:
+        next_datetime = self.current_time + self.step_size
+        if next_datetime.date() != self.current_time.date():
             self.on_before_next_day()
         return step_method(self, *args, **kwargs)
     return decorated_step
 def after_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        previous_day = self.current_time.day
+        previous_day = self.current_time.date()
         out = step_method(self, *args, **kwargs)
-        if self.current_time.day != previous_day:
+        if self.current_time.date() != previous_day:
             self.on_after_next_day()
         return out
     return decorated_step
 def before_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        next_hour = (self.current_time + self.step_size).hour
-        if  next_hour == 4 and self.current_time.hour != 4:
+        next_datetime = self.current_time + self.step_size
+        if _day_4am(next_datetime) != _day_4am(self.current_time):
             self.on_before_next_day_4am()
         return step_method(self, *args, **kwargs)
     return decorated_step
 def after_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        previous_hour = self.current_time.hour
+        previous_day = _day_4am(self.current_time)
         out = step_method(self, *args, **kwargs)
-        if self.current_time.hour == 4 and previous_hour != 4:
+        if _day_4am(self.current_time) != previous_day:
             self.on_after_next_day_4am()
         return out
     return decorated_step
-- 
2.43.0


From cb74232bf1e95af412ccc87e9cd41afb996d19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 07/53] fix: a copied logger is empty, also in its length

---
 demod/simulators/base_simulators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index c0b1bcb..8b7adf8 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -209,9 +209,8 @@ class SimLogger():
         Returns:
             An empty logger with the same attributes.
         """
-        new_logger = SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
-        new_logger.length = self.length
-        return new_logger
+        return SimLogger(
+            self.attributes_list.copy(), aggregated=self.aggregated)
 
     def visit_simulator(self:SimLogger, sim:Simulator) -> None:
         """Visit a simulator object
-- 
2.43.0


From ee4aaf7895c09d3d799cf0c09a82c27dde82797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:57 +0000
Subject: [PATCH 08/53] fix: external values keep their decimals on
 whole-number arrays

---
 demod/simulators/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 7f8c5ff..3a90f0f 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -34,7 +34,10 @@ def assign_external_array(
     """
     if external_array is None:
         return base_array
-    out = np.array(base_array)
+    # The external values may not fit in the type of the base array
+    out = np.array(
+        base_array, dtype=np.result_type(base_array, external_array)
+    )
     mask_not_nan = ~np.isnan(external_array)
     out[mask_not_nan] = external_array[mask_not_nan]
     return out
-- 
2.43.0


From d11f77767f91d99a09e3e55068197d409b854986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 09/53] fix: an unknown number of appliances is recognised
 whatever the nan object

---
 demod/utils/appliances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/appliances.py b/demod/utils/appliances.py
index 3db9f89..ae17f92 100644
--- a/demod/utils/appliances.py
+++ b/demod/utils/appliances.py
@@ -185,7 +185,7 @@ def assign_ownership_from_prob1_and_number(
         corresponds to the prob of owning
         a i-eth copy of the appliance.
     """
-    if number is np.nan:
+    if np.isnan(number):
         number = prob_1
     if (prob_1 > number) or (prob_1 < 0) or (prob_1 > 1) or (number < 0):
         raise ValueError(
-- 
2.43.0


From a37c4c486ec867fed908a1af5e8d93ed647b47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 10/53] fix: load duration of a one dimensional profile

---
 demod/metrics/loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index ed79f54..aaf8c7b 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -251,7 +251,7 @@ def load_duration(
 
     if len(profiles.shape) == 1:
         # One dimensional input gets rearranged
-        profiles.reshape((1, -1))
+        profiles = profiles.reshape((1, -1))
 
     # First finds where the load is higher than loads
     mask_high = profiles[:, :, np.newaxis] >= loads[np.newaxis, np.newaxis, :]
-- 
2.43.0


From f9e4eb6d99e1131c06522814d7615334c7b5c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 11/53] fix: the distribution of demand changes counts every
 change

---
 demod/metrics/loads.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index aaf8c7b..451d77f 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -175,8 +175,9 @@ def cumulative_changes_in_demand(
 
     max_change = np.max(changes)
 
-    if normalize:
-        changes /= max_change
+    if normalize and max_change > 0:
+        changes = changes / max_change
+        max_change = 1.
     if bin_edges is None:
         # Use linearly spaced bin_edges
         hist, bin_edges = np.histogram(
@@ -184,10 +185,10 @@ def cumulative_changes_in_demand(
         )
     else:
         # Use the user specified bin_edges
-        if max_change >= bin_edges[-1]:
+        if max_change > bin_edges[-1]:
             raise ValueError((
                 "bin_edges largest value is {}, which is too small for the "
-                "largest value change {}. (must be striclty greater)."
+                "largest value change {}. (must be greater or equal)."
             ).format(bin_edges[-1], max_change))
         if np.min(changes) < bin_edges[0]:
             raise ValueError((
@@ -195,9 +196,7 @@ def cumulative_changes_in_demand(
                 "smallest value change {}. (must be smaller or equal)."
             ).format(bin_edges[0], np.min(changes)))
         # Counts where the transtions are in the bin_edges
-        hist = np.bincount(
-            np.searchsorted(bin_edges, changes)
-        )[1:]
+        hist, _ = np.histogram(changes, bins=bin_edges)
     # Convert to cdf
     return np.cumsum(hist/np.sum(hist)), bin_edges
 
-- 
2.43.0


From 56166011e03f479c105984eb25b338c967b4ff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 12/53] fix: durations of patterns that never change

---
 demod/metrics/states.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index e6fcdbb..586eff8 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -50,11 +50,12 @@ def get_states_durations(states: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     # calculate the durations
     durations = np.roll(time_indices, -1) - time_indices
     # merging the beggining and end if possible they are the same activities
-    durations[indices_last_household] = (
-        states.shape[1]
-        - time_indices[indices_last_household]
-        + time_indices[indices_first_household]
-    )
+    if len(time_indices) > 0:
+        durations[indices_last_household] = (
+            states.shape[1]
+            - time_indices[indices_last_household]
+            + time_indices[indices_first_household]
+        )
 
     # get the value of the new states
     corresponding_states = states[transitions_indices]
-- 
2.43.0


From 67e5d9b7269dd9f0cd8ed4190f39336858e572b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:07 +0000
Subject: [PATCH 13/53] fix: compare the durations of states visited in one
 data set only

---
 demod/metrics/states.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 586eff8..66a4cf2 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -357,13 +357,16 @@ def state_duration_distribution_metric(
     # Each state is handled separately
     for state in set((*dur_dict_sim.keys(), *dur_dict_mes.keys())):
         # Finds the cdf of the duration for that state
+        # (a state that is never visited has no durations, its cdf is zero)
+        durations_sim = dur_dict_sim.get(state, np.array([], dtype=int))
+        durations_mes = dur_dict_mes.get(state, np.array([], dtype=int))
         cdf_sim = np.cumsum(
-            np.bincount(dur_dict_sim[state], minlength=n_times + 1)
-            / len(dur_dict_sim[state])
+            np.bincount(durations_sim, minlength=n_times + 1)
+            / max(len(durations_sim), 1)
         )
         cdf_mes = np.cumsum(
-            np.bincount(dur_dict_mes[state], minlength=n_times + 1)
-            / len(dur_dict_mes[state])
+            np.bincount(durations_mes, minlength=n_times + 1)
+            / max(len(durations_mes), 1)
         )
         # Error between cdfs
         err = np.abs(cdf_sim - cdf_mes)
-- 
2.43.0


From cb4704a503c457562db7ac5d74cbd8d448a45c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:57 +0000
Subject: [PATCH 14/53] fix: count each observed transition in its own cell

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9faa4e7..b84a2df 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -646,7 +646,7 @@ def states_to_tpms(
             axis=1, return_counts=True
         )
         # converts the indexes for accessing the matrix later
-        states_indices = [(i) for i in states_indices]
+        states_indices = tuple(states_indices)
 
         # compute the sum of the transitions for each states
         transition_matrice = np.full((n_states, n_states), 0)
-- 
2.43.0


From 36ec12f8748263b3b34a699556c83eb90c3e1cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:13 +0000
Subject: [PATCH 15/53] fix: initial steps of Markov chain simulators

---
 demod/simulators/activity_simulators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 4a8a00f..2514a06 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -169,7 +169,6 @@ class MarkovChain1rstOrder(Simulator):
             AssertionError:
                 If the parameters have wrong types or shapes
         """
-        super().initialize_starting_state(start_time_step=start_time_step)
         # generates from the distribution of states
         assert len(starting_state_pdf) == self.n_states, (
             'the starting states'
@@ -196,6 +195,9 @@ class MarkovChain1rstOrder(Simulator):
 
         self._set_tpm(self.transition_prob_matrices, checkcdf=checkcdf)
 
+        # once the states and matrices are set, the steps can be performed
+        super().initialize_starting_state(start_time_step=start_time_step)
+
     def _set_tpm(
         self, tpms: np.ndarray, checkcdf: bool = True,
         new_labels: np.ndarray = None
@@ -391,7 +393,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         """
         super().initialize_starting_state(
             starting_state_pdf,
-            start_time_step=start_time_step,
             checkcdf=checkcdf,
         )
         # Adds the time based
@@ -400,6 +401,10 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             starting_durations_pdfs[self.current_states, :]
         ) - 1  # Duration are uploaded after step, and changed when == 0
         self._set_duration_pdfs(self.duration_pdfs)
+        # once the durations are set, the steps can be performed
+        Simulator.initialize_starting_state(
+            self, start_time_step=start_time_step
+        )
 
     def _set_duration_pdfs(
         self, duration_pdfs: np.ndarray, checkcdf: bool = True,
-- 
2.43.0


From e7a0ad85db23fa6796b4f3b70a70c8bcf2d4cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:13 +0000
Subject: [PATCH 16/53] fix: labels of Markov states may be lists

---
 demod/simulators/activity_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 2514a06..8f4ca22 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -241,7 +241,8 @@ class MarkovChain1rstOrder(Simulator):
             new_labels: the new labels to assign
         """
         # Updates the states values
-        old_states_labels = self.state_labels[self.current_states]
+        new_labels = np.asarray(new_labels)
+        old_states_labels = np.asarray(self.state_labels)[self.current_states]
         # gets the positions of the different states inthe states labels
         old_states_labels, inverse = np.unique(
             old_states_labels, return_inverse=True
-- 
2.43.0


From 809da25bd5759100b84eaaf33941a0b4f2e71cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:57 +0000
Subject: [PATCH 17/53] fix: subgroups without households in the individuals
 simulation

---
 demod/simulators/activity_simulators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 8f4ca22..0005447 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -584,6 +584,12 @@ class SubgroupsIndividualsActivitySimulator(
             ValueError: If step_size does not match data.step_size
         """
         self.data = data
+        # Subgroups that have no household need no simulation
+        subgroups_list, n_households_list = zip(*[
+            (subgroup, n_hh) for subgroup, n_hh
+            in zip(subgroups_list, n_households_list) if n_hh > 0
+        ])
+        subgroups_list = list(subgroups_list)
         # Save the update time parameters
         self.use_week_ends_days = use_week_ends_days
         self.use_7days = use_7days
-- 
2.43.0


From 7dd054b8a829758e0ae4b257c58c6664bb9322c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:57 +0000
Subject: [PATCH 18/53] fix: refresh the individuals matrices before the step

---
 demod/simulators/activity_simulators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 0005447..430dda6 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -868,14 +868,18 @@ class SubgroupsIndividualsActivitySimulator(
     def get_performing_activity(self, activity_name: str) -> np.ndarray:
         return self.get_n_doing_activity(activity_name)
 
-    @ Callbacks.after_refresh_time
+    @ Callbacks.before_refresh_time
     def step(self) -> None:
         """Update the simulator."""
         # Simply calls the parents (Multi for the sims and TimeAware for time)
         return super().step()
 
-    def on_after_refresh_time(self) -> None:
-        """Update the tpms."""
+    def on_before_refresh_time(self) -> None:
+        """Update the tpms.
+
+        The matrices must be set before the step, as the new iterators
+        start with the transition that follows the refresh time.
+        """
         # Check if we want to update the tpms
         if self.time_aware:
             self._update_subgroups_with_time()
-- 
2.43.0


From a02b7b47a08c69c39412e8ac2d375549946e0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 19/53] fix: lost household states take the first state

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 7f1f9c6..0548a8f 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -575,7 +575,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
         #     'out of : ', len(old_labels_position_in_new) )
         # TODO: change the assignement of too dangerous
         mask_lost_transition = old_labels_position_in_new == -1
-        old_labels_position_in_new[mask_lost_transition] = labels[0]
+        old_labels_position_in_new[mask_lost_transition] = 0
 
         # convert states to the new ones
         self.current_states = old_labels_position_in_new[inverse].reshape(-1)
-- 
2.43.0


From cec48e63fd27e2cfd36673aabeb3a16fb0529a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 20/53] fix: quarters of the sparse simulation are 1 to 4

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 0548a8f..bf9b0d2 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -541,7 +541,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
 
         # update the quarter if required
         if self.use_quarters:
-            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3
+            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3 + 1
         else:
             self.subgroup_kwargs["quarter"] = None
 
-- 
2.43.0


From 18bea369b1dfb405ea27ffa9643266d30ea6fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:45 +0000
Subject: [PATCH 21/53] fix: the clock of the sparse simulation starts at the
 start

---
 demod/simulators/sparse_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index bf9b0d2..7642569 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -151,6 +151,8 @@ class SparseStatesSimulator(Simulator):
             start_datetimestep = self._getstart_time_step_from_datetime(
                 start_datetime
             )
+            # the initial steps will bring the time to start_datetime
+            self.time -= start_datetimestep * datetime.timedelta(minutes=10)
         else:
             start_datetimestep = 0
 
-- 
2.43.0


From ccd5357e8092d5b23e8b6ccb58ae33aeb1eda047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 22/53] fix: change the CREST matrices before the first step of
 the day

---
 demod/simulators/crest_simulators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0fa39bc..190f67f 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -307,13 +307,12 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             initialization_time=self.data.refresh_time,
         )
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the TPMs for the new daytype.
 
         Note:
-            It was deduced that the change of TPM must be perform after
-            midnight, as deduction seem to make think that the first
-            TPM is for the transition 00:00 -> 00:10.
+            The TPMs are changed before the transition 00:00 -> 00:10,
+            which is the first one performed with new TPMs.
         """
         day_type = "d" if self.current_time.isoweekday() <= 5 else "e"
         if day_type != self.current_day_type:
@@ -335,7 +334,7 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             [sim.state_labels[sim.current_states] for sim in self.simulators]
         )
 
-    @Callbacks.after_refresh_time
+    @Callbacks.before_refresh_time
     def step(self) -> None:
         """Updates the states of the residents."""
         return super().step()
-- 
2.43.0


From 240f04b9d7dc9e0acbbb727c8cd207b3c1f8d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 23/53] fix: occupancy appliances run for their full cycle

---
 demod/simulators/appliance_simulators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d49d9d8..42f56d2 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1245,11 +1245,16 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
             np.random.uniform(size=switchon_probs.shape) < switchon_probs
         )
 
+        # Update the running cycles before starting new ones, such that
+        # the new ones run for their full duration
+        self.update_iteration_variables()
+
         self.switch_on(indexes_household, indexes_appliance)
 
         self.switch_off_inactive(active_occupancy)
 
-        super().step()  # Updates the variables
+        # The iteration variables were already updated
+        super(AppliancesSimulator, self).step()
 
 
 class SubgroupApplianceSimulator(OccupancyApplianceSimulator):
-- 
2.43.0


From d52be7a3798fc2e092e173b8ca99c0c880ae31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 24/53] fix: activity appliances start at the beginning of
 their load profile

---
 demod/simulators/appliance_simulators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 42f56d2..7c24c0b 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1427,6 +1427,10 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         TODO: check how we want to implement secondary appliances.
         """
+        # Update the running load patterns before starting new ones, such
+        # that the new ones start at the beginning of their pattern
+        self.update_iteration_variables()
+
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
@@ -1461,7 +1465,8 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         self.previous_act_dict = activities_dict.copy()
 
-        super().step()
+        # The iteration variables were already updated
+        super(AppliancesSimulator, self).step()
 
     def update_iteration_variables(self):
         """Check the load patterns that arrive to an end to restart them."""
-- 
2.43.0


From 571af1e47b044428b93b9dceebaa196fb150b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 25/53] fix: several appliances that follow another one

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 7c24c0b..3c63533 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1935,7 +1935,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Must switchon the appliances that follow a specific switchoff
         new_app_id = np.where(  # ID where the appliance follows a previous one
             self.appliances['previous_appliance_type'] != 'nan'
-        )
+        )[0]
         indexes_app_start = np.array([], dtype=int)
         indexes_hh_start = np.array([], dtype=int)
         # Iterates over the appliances with a previous type
-- 
2.43.0


From 9b713e88fc9efeaaf176b1cd1d22e66f6f7c3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 26/53] fix: probabilistic appliances start only when available

---
 demod/simulators/appliance_simulators.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 3c63533..0d19de0 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1863,6 +1863,17 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # this simulator
         pass
 
+    def _can_start(self, indexes_household, indexes_appliance):
+        """Mask of the given appliances that are owned, off and refreshed.
+
+        Not cached, as appliances change during a step.
+        """
+        return (
+            self.available_appliances
+            & (self.n_steps_left <= 0)
+            & (self.n_steps_till_refresh <= 0)
+        )[indexes_household, indexes_appliance]
+
     def _compute_switch_on_probs(self, indexes_household, indexes_appliance):
         """Compute switch on probs for appliances that can be started.
 
@@ -1875,7 +1886,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         """
         return (
             (
-                ~self.get_current_usage()[indexes_household, indexes_appliance]
+                self._can_start(indexes_household, indexes_appliance)
                 & ~np.isin(indexes_appliance, self.apps_dictated_start)
             )
             * self.switch_on_probs[indexes_household, indexes_appliance]
@@ -1890,7 +1901,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         or when activity stops.
         """
         return (
-            (~self.get_current_usage()[indexes_household, indexes_appliance])
+            self._can_start(indexes_household, indexes_appliance)
             * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
-- 
2.43.0


From c4ee6dee56869d6eb529f365247b2bea25f6b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:16 +0000
Subject: [PATCH 27/53] fix: appliances that follow an activity without
 appliances

---
 demod/simulators/appliance_simulators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 0d19de0..ec2dae1 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1806,7 +1806,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
-            if not np.any(mask_apps_this_act):
+            if not np.any(mask_apps_this_act) and (
+                act not in self.appliances.get('previous_activity', [])
+            ):
                 # If no appliance is concerned by this activity
                 continue
 
-- 
2.43.0


From a15450eca1a211604e3f710c308fd0602260e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 28/53] fix: appliances that follow an activity keep their own
 probability

---
 demod/simulators/appliance_simulators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index ec2dae1..ec1561b 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1714,8 +1714,11 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                     (sum(mask_hh_subgroup), sum(mask_this_act))
                 ).reshape(-1)
 
-                # special probs for one time probs #
-                ####################################
+            # special probs for one time probs #
+            ####################################
+            # Once all activities are assigned, as it replaces the
+            # probability of the activity related to the appliance
+            for activity in activity_prob:
                 # After activity stops
                 mask_start_after_act = (
                     self.appliances['previous_activity'] == activity
-- 
2.43.0


From c159bcfb6a3dca8dacfb977addc5e0ca9fba2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 29/53] fix: any point of a profile of an appliance that is
 always on can be the first

---
 demod/simulators/appliance_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index ec1561b..7252d0c 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -546,8 +546,8 @@ class AppliancesSimulator(TimeAwareSimulator):
         )
         # Sets the initial duration randomly sampled in the profiles
         self.n_steps_left[mask_real_loads_on] = np.random.randint(
-            # Starts at 1 as they are on
-            1, self.load_duration[mask_real_loads_on]
+            # Starts at 1 as they are on, the upper limit is excluded
+            1, self.load_duration[mask_real_loads_on] + 1
         )
 
     @ cached_getter
-- 
2.43.0


From 72da6bf032138e84bf418fb8ab7be385a00f2688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 30/53] fix: log the CREST lighting after its step

---
 demod/simulators/lighting_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d58a8ed..d980cfa 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -407,8 +407,6 @@ class CrestLightingSimulator(Simulator):
             active_occupancy: number of active occupants in each households.
             irradiance: irradiation from the sun.
         """
-        super().step()
-
         # update the times left
         self.bulbs_times_left[self.bulbs_times_left > 0] -= 1
 
@@ -448,4 +446,6 @@ class CrestLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
+        super().step()
+
 
-- 
2.43.0


From 3b07e276a09bac757d1d5f3be9f38d74930fc488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 31/53] fix: default active occupancy of the Fisher lighting

---
 demod/simulators/lighting_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d980cfa..572da7b 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -93,7 +93,7 @@ class FisherLightingSimulator(Simulator):
             initial_irradiance: value of initial irradiance
         """
         self.active_occupancy = (
-            np.ones_like(self.n_households)
+            np.ones(self.n_households)
             if initial_active_occupancy is None else initial_active_occupancy
         )
         self.irradiance = initial_irradiance or 0
-- 
2.43.0


From 941198bcd2df69440180797cc96b5e64126ca62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 32/53] fix: electric cars that all charge with timers

---
 demod/simulators/car_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index 0ca5c8d..518a86f 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -64,7 +64,7 @@ class ElectricCarSimulator(Simulator):
         if charging_attribution_method == 'after use':
             return
         elif charging_attribution_method == 'timers':
-            self.charging_strategy = 1
+            self.charging_strategy = np.ones(self.n_households, dtype=int)
         elif charging_attribution_method == 'mixed':
             self.charging_strategy = np.random.randint(0,2,size=len(self.charging_strategy))
         else:
-- 
2.43.0


From 4754debeb5b6bd204fedae36e3b16f29de28d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 33/53] fix: charge cars that need more than a day

---
 demod/simulators/car_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index 518a86f..8a73345 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -210,7 +210,7 @@ class ElectricCarSimulator(Simulator):
         # for timers before 4 am
         self.is_charging[(self.times_left_chargin == n_times_till_charged)  & (self.charging_strategy[self.car_hh]==1) & (~self.in_use)] = True
         # if the times left chargin is to large, set to charge
-        self.is_charging[(self.times_left_chargin>144) & (~self.in_use)]
+        self.is_charging[(self.times_left_chargin>144) & (~self.in_use)] = True
 
     def update_charging(self):
 
-- 
2.43.0


From f55717566137fb50c5a25c01af578306ffb734a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 34/53] fix: electric cars charge for the whole time they need

---
 demod/simulators/car_simulator.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index 8a73345..6705115 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -116,7 +116,9 @@ class ElectricCarSimulator(Simulator):
         return kWh_consumed
 
     def step(self, occupancy, n_HOH, n_HWH, increment=datetime.timedelta(minutes=10)):
-        super().step()
+        # The cars that were charging did so until now
+        self.update_charging()
+
         # compare the values with the old stored
 
 
@@ -143,7 +145,7 @@ class ElectricCarSimulator(Simulator):
         mask_arriving_cars = np.zeros_like(mask_candidate_cars)
         mask_arriving_cars[np.where(mask_candidate_cars)[0][ind]] = True
 
-        if self.current_time_step%144 == self.STEP_IGNORE_TRANSITIONS:
+        if (self.current_time_step + 1)%144 == self.STEP_IGNORE_TRANSITIONS:
             mask_arriving_cars[:] = False # avoid car arrival at change of day to avoid discontinuities form occ sim
 
         self.in_use[mask_arriving_cars] = False
@@ -183,7 +185,7 @@ class ElectricCarSimulator(Simulator):
         # print(np.where(available_cars_mask)[0][ind])
         mask_leaving_cars = np.zeros_like(mask_candidate_cars)
         mask_leaving_cars[np.where(available_cars_mask)[0][ind]]= True
-        if self.current_time_step%144 == self.STEP_IGNORE_TRANSITIONS:
+        if (self.current_time_step + 1)%144 == self.STEP_IGNORE_TRANSITIONS:
             mask_leaving_cars[:] = False # avoid car arrival at change of day to avoid discontinuities form occ sim
         # updates cars that leave
         self.in_use[mask_leaving_cars] = True
@@ -195,15 +197,19 @@ class ElectricCarSimulator(Simulator):
         self.n_HWH = np.array(n_HWH)
         self.n_HOH = np.array(n_HOH)
 
-        self.update_charging()
+        super().step()
 
 
     def start_charging(self, mask_car_start_charging):
 
         # where after use charging stat chargin
-        self.is_charging[mask_car_start_charging & (self.charging_strategy[self.car_hh]==0)] = True
+        self.is_charging[
+            mask_car_start_charging
+            & (self.charging_strategy[self.car_hh]==0)
+            & (self.times_left_chargin > 0)
+        ] = True
         # 6 am timers
-        t = self.current_time_step%144
+        t = (self.current_time_step + 1)%144
         #assume we start simulation at 4 am
         # for timeres after 4 am
         n_times_till_charged = np.where( self.car_timer - t > 0, self.car_timer - t, self.car_timer + (144-t))
-- 
2.43.0


From 36f40f8e372fceb0146d890a4bc628c26ca9e5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 35/53] fix: accept the charging method of electric cars

---
 demod/simulators/car_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index 6705115..755841f 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -71,10 +71,10 @@ class ElectricCarSimulator(Simulator):
             raise ValueError('Unkonwn chargin strategy')
 
 
-    def __init__(self, n_households, initial_occupancy, initial_HOH, initial_HWH,  subgroup_kwargs, start_time_step=0, **kwargs):
+    def __init__(self, n_households, initial_occupancy, initial_HOH, initial_HWH,  subgroup_kwargs, start_time_step=0, logger=None, **kwargs):
         # define the parameters
 
-        super().__init__(n_households, **kwargs)
+        super().__init__(n_households, logger=logger)
 
         self.dic_cars = self.read_cars(**kwargs)
         self.dic_station = self.read_charging_station(**kwargs)
-- 
2.43.0


From 26f2d33d59bf6b995351ed286b9d4311d9b95a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 36/53] fix: time zone of the climate records

---
 demod/simulators/weather_simulators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3211be0..7bd3019 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -634,9 +634,11 @@ class RealClimate(ClimateSimulator):
         intialization_time = climate_data['datetime'][0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # The datetime from the data is in utc
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
             raise ValueError(
@@ -760,9 +762,11 @@ class RealInterpolatedClimate(ClimateSimulator):
         intialization_time = self.datetime_values_utc[0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # The datetime from the data is in utc
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
 
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
-- 
2.43.0


From 446fa87aa91c3cc276211ca3718cfcf61caea088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 37/53] fix: interpolate the climate at the seconds of the
 current time

---
 demod/simulators/weather_simulators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 7bd3019..e3f71ff 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -733,7 +733,7 @@ class RealInterpolatedClimate(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
 
         self.datetime_values_utc = np.array(
-            climate_dict.pop('datetime'), dtype='datetime64[m]')
+            climate_dict.pop('datetime'), dtype='datetime64[us]')
         self.initial_time = self.datetime_values_utc[0]
         # Check where is the end of the data
         self.last_time = self.datetime_values_utc[-1].astype(datetime.datetime)
@@ -742,7 +742,9 @@ class RealInterpolatedClimate(ClimateSimulator):
             else datetime.timezone.utc
         )
         # must use real values for interp1d
-        minutes = (self.datetime_values_utc - self.initial_time).astype(float)
+        minutes = (
+            self.datetime_values_utc - self.initial_time
+        ) / np.timedelta64(1, 'm')
 
         self.interpolators = {
             key: interp1d(
@@ -802,13 +804,13 @@ class RealInterpolatedClimate(ClimateSimulator):
                 datetime.datetime.utcfromtimestamp(
                     self.current_time.timestamp()
                 ) if self.current_time.tzinfo is not None
-                else self.current_time, dtype='datetime64[m]'
+                else self.current_time, dtype='datetime64[us]'
             )
             # gets the relative position
             minute = (
                 np_current_time_utc
                 - self.initial_time
-            ).astype(float)
+            ) / np.timedelta64(1, 'm')
             return self.interpolators[_key](minute)
 
         return interpolated_getter
-- 
2.43.0


From aec58a4ea45747adfd790b86e37632a156ab9f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 38/53] fix: activities of the load simulator keep its time

---
 demod/simulators/load_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/load_simulators.py b/demod/simulators/load_simulators.py
index 40ae618..1fc0512 100644
--- a/demod/simulators/load_simulators.py
+++ b/demod/simulators/load_simulators.py
@@ -310,7 +310,8 @@ class LoadSimulator(TimeAwareSimulator):
 
         # then perform the updates on the simulators
 
-        if (self.current_time_step % 10) == 0:
+        # the activities have 10 minutes steps
+        if ((self.current_time_step + 1) % 10) == 0:
             self.activity_simulator.step()
 
         active_occupancy = self.activity_simulator.get_active_occupancy()
-- 
2.43.0


From a36ab7ed17f5c596fd4e86d201ffc47d6cb85e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:19 +0000
Subject: [PATCH 39/53] fix: keep the target temperatures of the thermostats
 where the new ones are nan

---
 demod/simulators/heating_simulators.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7a5e4bc..2e56c08 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -799,11 +799,19 @@ class Thermostats(Simulator):
         """
         if isinstance(target_temperatures, dict):
             for key, item in target_temperatures.items():
-                self.target_temperatures[key] = item
+                # nan values mean that no new target is given
+                self.target_temperatures[key] = np.where(
+                    np.isnan(item),
+                    self.target_temperatures.get(key, item),
+                    item,
+                )
         elif isinstance(target_temperatures, np.ndarray):
             # assume the room temperature was given as target_temperature
-            self.target_temperatures["space_heating"] = np.array(
-                target_temperatures
+            # nan values mean that no new target is given
+            self.target_temperatures["space_heating"] = np.where(
+                np.isnan(target_temperatures),
+                self.target_temperatures["space_heating"],
+                target_temperatures,
             )
         else:
             raise TypeError("target_temperature must be dict or ndarray")
-- 
2.43.0


From f4945c8163b0f28fac609ebed48bbe6443ff8e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:19 +0000
Subject: [PATCH 40/53] fix: consider the external cylinders of the current
 step in the heating controls

---
 demod/simulators/heating_simulators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 2e56c08..840b9cc 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1928,6 +1928,14 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         target_temperature = self.thermostats_sim.get_target_temperatures()
 
+        # records which cylinders are external, for this step
+        if external_cylinder_temperature is None:
+            self.use_external_cylinder = np.full(self.n_households, False)
+        else:
+            self.use_external_cylinder = ~np.isnan(
+                external_cylinder_temperature
+            )
+
         self.controls_sim.step(
             dhw_heating_demand=dhw_heating_demand,
             thermostat_states=self.thermostats_sim.get_thermostat_states(),
@@ -1961,9 +1969,6 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # dhw demand is changed depending on the external cylinder
         if external_cylinder_temperature is not None:
-            self.use_external_cylinder = ~np.isnan(
-                external_cylinder_temperature
-            )
             self.cyl_dhw_demand = self._compute_dhw_external_cyl(
                 temperatures, dhw_heating_demand, target_temperature["dhw"]
             )
-- 
2.43.0


From 225ce59ec0ed2d8106770116ee427016e1ba868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 41/53] fix: keep the dictionary of external heat outputs of
 the caller, and its values where the overriding arrays are nan

---
 demod/simulators/heating_simulators.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 840b9cc..7e4b07f 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1822,7 +1822,8 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             heat_output_dictionary
         """
         if isinstance(external_heat_outputs, dict):
-            out_dict = external_heat_outputs
+            # copy, as the values of the caller must not change
+            out_dict = dict(external_heat_outputs)
         else:
             out_dict = {}
         # convert the external heat_outputs as ndarray to the dict heat output format
@@ -1837,14 +1838,20 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         if external_dhw_outputs is not None:
             # Creates the array to store the dhw
             out_dict["dhw"] = assign_external_array(
-                np.full(external_dhw_outputs.shape, np.nan),
+                out_dict.get(
+                    "dhw", np.full(external_dhw_outputs.shape, np.nan)
+                ),
                 external_dhw_outputs,
             )
 
         if external_sh_outputs is not None:
-            # Creates the array to store the dhw
+            # Creates the array to store the space heating
             out_dict["space_heating"] = assign_external_array(
-                np.full(external_sh_outputs.shape, np.nan), external_sh_outputs
+                out_dict.get(
+                    "space_heating",
+                    np.full(external_sh_outputs.shape, np.nan),
+                ),
+                external_sh_outputs,
             )
 
         return out_dict
-- 
2.43.0


From c244dcef600c684fef6129495ece44f7da13888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 42/53] fix: do not consider households with nan external heat
 outputs as having an external heating system

---
 demod/simulators/heating_simulators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7e4b07f..6204a20 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1777,7 +1777,11 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         heat_outputs_dict["dhw"] += remaining_heat_output
 
-        return heat_outputs_dict
+        # nan heat outputs mean that there is no external heating system
+        return {
+            key: np.where(np.isnan(heat_output), np.nan, value)
+            for key, value in heat_outputs_dict.items()
+        }
 
     def _set_external_heating_systems(self, external_heat_outputs_dict):
         """Check where a heat input was provided by external sources.
-- 
2.43.0


From 6e1da8c1bf26b4bff5d58ddb5bf6734a844855f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 43/53] fix: update the total heat output with the external
 heat outputs, which are not outputs of the heating system

---
 demod/simulators/heating_simulators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 6204a20..105d000 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1672,6 +1672,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # intialize the 5 sub simulators
         self.heatingsystem = HeatingSystem(n_households, data=data)
+        self.heat_outputs = self.heatingsystem.get_heat_outputs()
         self.thermostats_sim = Thermostats(n_households, data=data)
         self.building_sim = BuildingThermalDynamics(
             n_households,
@@ -1965,8 +1966,13 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
 
         # Computes the heat outputs for updating the building Temperatures
         heat_outputs = assign_external_dict(
-            self.heatingsystem.get_heat_outputs(), external_heat_outputs_dict
+            dict(self.heatingsystem.get_heat_outputs()),
+            external_heat_outputs_dict,
         )
+        heat_outputs["total"] = (
+            heat_outputs["space_heating"] + heat_outputs["dhw"]
+        )
+        self.heat_outputs = heat_outputs
 
         self.building_sim.step(
             outside_temperature=outside_temperature,
@@ -2058,7 +2064,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         return self.building_sim.get_temperatures()
 
     def get_heat_outputs(self):
-        return self.heatingsystem.get_heat_outputs()
+        return self.heat_outputs
 
     def get_controls(self):
         return self.controls_sim.get_controls()
-- 
2.43.0


From bc4b8b8eb4e40cc561e544534939e555401f44be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 44/53] fix: fuel consumption of heating systems that deliver
 only hot water or only space heating

---
 demod/simulators/heating_simulators.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 105d000..d3baf94 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1444,6 +1444,15 @@ class HeatingSystem(Simulator):
         phi_space = heat_outputs["space_heating"]
         phi_dhw = heat_outputs["dhw"]
 
+        # share of the capacity in use, 0 where there is no capacity
+        share_space, share_dhw = (
+            np.where(max_phi > 0, phi / np.where(max_phi > 0, max_phi, 1.0), 0.0)
+            for phi, max_phi in (
+                (phi_space, self.max_Phi_h_space),
+                (phi_dhw, self.max_Phi_h_dhw),
+            )
+        )
+
         for h_type in np.unique(self.fuel_types):
             if h_type == "Mainsgas":
 
@@ -1451,10 +1460,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 3600.  # m^3/ h -> m^3/ sec
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * (share_space + share_dhw),
                     0,
                 )
             elif h_type == "Electricity":
@@ -1463,10 +1469,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 1000.  # kW -> W
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * (share_space + share_dhw),
                     0,
                 )
             else:
-- 
2.43.0


From deb8fa7174700637801303e8f4c92a6ddd9a4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 45/53] fix: gas flow in m^3/s and energy consumption of the
 gas

---
 demod/simulators/heating_simulators.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index d3baf94..e90e871 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1459,7 +1459,7 @@ class HeatingSystem(Simulator):
                 out_dict[h_type] = np.where(
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
-                    * 3600.  # m^3/ h -> m^3/ sec
+                    / 3600.  # m^3/ h -> m^3/ sec
                     * (share_space + share_dhw),
                     0,
                 )
@@ -1491,7 +1491,16 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas / self.dblFuelFlowRate * self.flow_rate_to_W
+        # (flow_rate_to_W is the power at the nominal flow rate, in m^3/ h)
+        has_flow = self.dblFuelFlowRate > 0
+        gas = np.where(
+            has_flow,
+            gas
+            * 3600.  # m^3/ sec -> m^3/ h
+            / np.where(has_flow, self.dblFuelFlowRate, 1.0)
+            * self.flow_rate_to_W,
+            0.0,
+        )
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From 38eb54ad047fb99ec166f63f586df5ce91d19368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 46/53] fix: compute the heat demand for the step size of the
 heating simulation

---
 demod/simulators/heating_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index e90e871..404a009 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1703,6 +1703,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             n_households,
             self.heatingsystem,
             self.building_sim,
+            step_size=step_size,
             heatdemand_algo=heatdemand_algo,
             deadbands=self.thermostats_sim.thermostat['deadband']
         )
-- 
2.43.0


From 78a18486d85851b9d374a9835102527adaa6238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 47/53] fix: accept the documented arguments of
 VariableThermostatTemperatureSimulator

---
 demod/simulators/heating_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 404a009..4cc6cb1 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -184,7 +184,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
         initial_occupancy,
         initial_act_occ,
         start_datetime,
-        *args,
+        pattern_attribution_method="living lab",
         **kwargs
     ):
         """Initialize a Simulator with variable temperature
@@ -197,8 +197,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
             pattern_attribution_method (str): kwarg that determine the method for the attribution of the
                 temperature patterns
         """
-        super().__init__(n_households, *args, **kwargs)
-        self.attribute_patterns(*args, **kwargs)
+        super().__init__(n_households, **kwargs)
+        self.attribute_patterns(pattern_attribution_method)
         self.last_occupancy = initial_occupancy
         self.last_act_occ = initial_act_occ
         self.time = start_datetime
-- 
2.43.0


From 1abadb6c196b2af371e52d8dbff2fab41f8d401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:11 +0000
Subject: [PATCH 48/53] fix: keep dense and sparse matrices of a subgroup in
 separate files

load_tpm and load_sparse_tpm stored different arrays under the same file
name, so that the second one loaded made the first one unreadable.
---
 demod/datasets/tou_loader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 3a35467..d80a56b 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -197,12 +197,18 @@ class LoaderTOU(DatasetLoader):
 
         file_path = os.path.join(self.parsed_path_activity, subgroup_str)
         file_name = os.path.join(self.activity_type, subgroup_str)
+        # load_tpm stores its data in the file of the subgroup
+        labels_name = file_name + '_tpm_labels'
         try:
             # load the tpm
 
             sparse_tpm = SparseTPM.load(file_path)
 
-            parsed = self._load_parsed_data(file_name)
+            try:
+                parsed = self._load_parsed_data(labels_name)
+            except FileNotFoundError:
+                # data parsed or downloaded before labels had their own file
+                parsed = self._load_parsed_data(file_name)
             labels, activity_labels, initial_pdf = parsed
 
         except FileNotFoundError as err:
@@ -211,12 +217,12 @@ class LoaderTOU(DatasetLoader):
                 = self._parse_sparse_tpm(subgroup)
 
             # saves the data
-            sparse_tpm.save(file_path)
             parsed = (labels, activity_labels, initial_pdf)
             self._save_parsed_data(
-                file_name,
+                labels_name,
                 parsed, npz=True
             )
+            sparse_tpm.save(file_path)
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
-- 
2.43.0


From 67211e2da305e8f6287303bdc1f4d6410c11f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:40 +0000
Subject: [PATCH 49/53] fix: read back load profiles whose name contains the
 separator

---
 demod/datasets/base_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b664b4a..960e510 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -470,7 +470,9 @@ class ApplianceLoader(DatasetLoader):
             load_profiles_dict = {}
 
             for name, load in parsed_dict.items():
-                app_type, profile_name = str.split(name, self._SPLIT_CHAR)
+                app_type, profile_name = str.split(
+                    name, self._SPLIT_CHAR, maxsplit=1
+                )
                 if app_type not in load_profiles_dict:
                     load_profiles_dict[app_type] = {}
                 load_profiles_dict[app_type][profile_name] = load
-- 
2.43.0


From fd64e2f7fc6e2f5e2b830effa490299b368189bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:50 +0000
Subject: [PATCH 50/53] fix: keep the clearness state of the CREST irradiance
 an integer

---
 demod/simulators/weather_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index e3f71ff..0374812 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -151,9 +151,9 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-        self._clearness_state = monte_carlo_from_1d_cdf(
+        self._clearness_state = int(monte_carlo_from_1d_cdf(
             self.clearness_cdf[self._clearness_state]
-        )
+        )[0])
         return self.clearness_values[
             self._clearness_state
         ]  # return the value of the clearness
-- 
2.43.0


From 225e377e51636e45615cd3e7e9a87f1fc85a7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:50 +0000
Subject: [PATCH 51/53] fix: keep the irradiance of a CREST simulation that
 starts in daylight

---
 demod/simulators/weather_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 0374812..a4f9e79 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -143,11 +143,12 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
         self.on_after_next_day()
 
+        # Assuume midnight sun is down
+        self.irradiance = 0
+
         super().initialize_starting_state(
             initialization_time=datetime.time(0, 0, 0)
         )
-        # Assuume midnight sun is down
-        self.irradiance = 0
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-- 
2.43.0


From 9fd0d2f9ab7e28b31bdfd968cbfabc5af047ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:50 +0000
Subject: [PATCH 52/53] fix: simulate the CREST climate from midnight of the
 start day

---
 demod/simulators/weather_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index a4f9e79..56725f5 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -328,9 +328,12 @@ class CrestClimateSimulator(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
         # remove some kwargs for irradiance
         kwargs.pop("logger", None)
+        # The days are simulated from midnight to midnight
         self.irradiance_sim = CrestIrradianceSimulator(
             data,
-            start_datetime=start_datetime,
+            start_datetime=start_datetime.replace(
+                hour=0, minute=0, second=0, microsecond=0
+            ),
             initial_clearness=initial_clearness,
             **kwargs)
 
-- 
2.43.0


From ab65dc0a53bcd79238b691bb6ec551adef1f665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:50 +0000
Subject: [PATCH 53/53] fix: use the simulated day for the daily CREST
 temperature

---
 demod/simulators/weather_simulators.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 56725f5..92e7f81 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -374,9 +374,11 @@ class CrestClimateSimulator(ClimateSimulator):
         Then it stores the two as iterators to be called by the step function.
         """
 
-        # updates some parameters
-        self._update_ARMA()
-        self._compute_extraterrestrial_irradiance()
+        # updates some parameters, for the day that the irradiance simulator
+        # is about to simulate
+        day_of_year = self.irradiance_sim.get_day_of_year()
+        self._update_ARMA(day_of_year)
+        self._compute_extraterrestrial_irradiance(day_of_year)
 
         # simulate the irradiance
         daily_irradiance = []
@@ -409,7 +411,7 @@ class CrestClimateSimulator(ClimateSimulator):
         self.temperature = next(self.temperature_iter)
         return super().step()
 
-    def _update_ARMA(self):
+    def _update_ARMA(self, day_of_year):
         # sample a random number from a normal
         new_r = np.random.randn() * self.arma_dic["SD"]
         # ... AR part AR(t)= AR*AR(t-1)+E(t)
@@ -430,17 +432,17 @@ class CrestClimateSimulator(ClimateSimulator):
 
         # Calculate Td_model_Ar and Td_model_ARMA
         td = self.arma_dic["T_mean"] + self.arma_dic["T_std"] * math.sin(
-            360.0 * self.get_day_of_year() / 365.0 * math.pi / 180.0
+            360.0 * day_of_year / 365.0 * math.pi / 180.0
             + self.arma_dic["T_shift"] / 365.0 * 2.0 * math.pi
         )
         self.Td_ar = td + self.ar
         self.Td_arma = td + self.arma
 
-    def _compute_extraterrestrial_irradiance(self):
+    def _compute_extraterrestrial_irradiance(self, day_of_year):
         # determine the extraterrestrial irradiance
         self.cSolarConstant = 1367 * (
             1
-            + (0.034 * math.cos(2 * math.pi * self.get_day_of_year() / 365.25))
+            + (0.034 * math.cos(2 * math.pi * day_of_year / 365.25))
         )
 
     def get_day_of_year(self):
-- 
2.43.0


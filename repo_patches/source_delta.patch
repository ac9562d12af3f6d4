From e3fdcce5c7d3174515808b909bf37f7bb7bb4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 01/34] fix: extend the pool rankings when k increases in a
 later phase

---
 logic/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index f39d5af..81ef95a 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -422,6 +422,10 @@ class Simulation(Model):
                     instance = self.reward_scheme
                 setattr(instance, key, values[self.current_phase])
                 change_occured = True
+        # at this point the rankings only contain placeholders, add more of them if k has increased
+        missing_placeholders = [None] * (self.reward_scheme.k + 1 - len(self.pool_rankings))
+        self.pool_rankings.update(missing_placeholders)
+        self.pool_rankings_myopic.update(missing_placeholders)
         for pool in self.pools.values():
             pool.set_profit(reward_scheme=self.reward_scheme)
             pool.set_desirability()
-- 
2.43.0


From 4088c3a359f2d7ad0d506e547633c4c33b4306a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 02/34] fix: count idle rounds separately in each phase

---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index 81ef95a..fcc955a 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -411,6 +411,7 @@ class Simulation(Model):
 
     def change_phase(self):
         self.current_phase += 1
+        self.consecutive_idle_steps = 0  # the idle rounds of the previous phase don't count towards the convergence of the new one
         change_occured = False
         for pool in self.pools.values():
             self.pool_rankings.remove(pool)
-- 
2.43.0


From 95b60ff4849f7d83cffb290dc1abecd13ccbe762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 03/34] fix: adjust k to a known inactive stake fraction in
 every phase

---
 logic/sim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index fcc955a..db8cdba 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -93,7 +93,10 @@ class Simulation(Model):
         if args['inactive_stake_fraction_known']:
             # The system is aware of the system's inactive stake fraction, so it inflates k (and subsequently lowers global_saturation_threshold)
             # to make it possible to end up with the original desired number of pools
-            self.reward_scheme.k = self.reward_scheme.k / (1 - args['inactive_stake_fraction'])
+            active_stake_fraction = 1 - args['inactive_stake_fraction']
+            self.reward_scheme.k = self.reward_scheme.k / active_stake_fraction
+            if 'k' in multi_phase_params:
+                multi_phase_params['k'] = [k / active_stake_fraction for k in multi_phase_params['k']]
 
         self.running = True  # for batch running and visualisation purposes
         agent_activation_orders = {
-- 
2.43.0


From 8c8a85a8e733b4811447980aadc57b8482e88dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 04/34] fix: seed the activation order and profiles with the
 reported seed

---
 logic/sim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logic/sim.py b/logic/sim.py
index db8cdba..58fd8ec 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,6 +44,7 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
+        self.reset_randomizer(seed)  # Mesa only picks up a seed that is given as a keyword argument
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From 81086a19c5cedf7ab9cfe5d918eca5000daeb420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 05/34] fix: leave the inactive stake out of the agents' stake

---
 logic/sim.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index 58fd8ec..f159698 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -126,7 +126,7 @@ class Simulation(Model):
 
         if total_stake != 1:
             # normalize stake values so that they are expressed as relative stakes
-            total_stake = self.normalize_agent_stake(total_stake)
+            total_stake = self.normalize_agent_stake(total_stake, 1 - args['inactive_stake_fraction'])
         self.total_stake = total_stake
         self.perceived_active_stake = total_stake
 
@@ -179,22 +179,24 @@ class Simulation(Model):
             self.schedule.add(agent)
         return total_stake
 
-    def normalize_agent_stake(self, total_stake):
+    def normalize_agent_stake(self, total_stake, active_stake_fraction=1):
         """
         Normalize agent stakes so that the total stake of the system is equal to 1.
         @param total_stake: the total stake of the system prior to normalization (including agent stake and inactive stake)
+        @param active_stake_fraction: the fraction of the total stake that belongs to the agents
+        @return: the total stake of the system after normalization (including agent stake and inactive stake)
         """
         norm_total_stake = 0
         for agent in self.schedule.agents:
             agent.stake /= total_stake
             norm_total_stake += agent.stake
-        if norm_total_stake != 1:
+        if norm_total_stake != active_stake_fraction:
             # add (or subtract) tiny value from the last agent's stake to account for floating point errors and make
-            # sure that the sum of all agent stakes is equal to 1
-            flt_error = 1 - norm_total_stake
+            # sure that the sum of all agent stakes is equal to the active fraction of the total stake
+            flt_error = active_stake_fraction - norm_total_stake
             agent.stake += flt_error
             norm_total_stake += flt_error
-        return norm_total_stake
+        return norm_total_stake + (1 - active_stake_fraction)
 
     def initialize_pool_id_seq(self):
         self.id_seq = 0
-- 
2.43.0


From f18fa8897674c4fb21166144b629662691cfca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 06/34] fix: keep pool ids unique when a stepped simulation is
 run further

---
 logic/sim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index f159698..4c1884a 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -243,7 +243,6 @@ class Simulation(Model):
         :return:
         """
         self.start_time = time.time()
-        self.initialize_pool_id_seq()  # initialize pool id sequence for the new model run
         while self.schedule.steps <= self.max_iterations and self.running:
             self.step()
 
-- 
2.43.0


From 15750942bfde513ac9731ab1646f699b35f374f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 07/34] fix: make the saved simulation object loadable

---
 logic/sim.py                  | 13 +++++++++++++
 logic/stakeholder_profiles.py | 10 ++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/logic/sim.py b/logic/sim.py
index 4c1884a..9cdf76c 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -350,6 +350,19 @@ class Simulation(Model):
         ]
         hlp.write_to_csv(filepath, header, row)
 
+    def __getstate__(self):
+        # the rankings are saved as plain lists, because the order of their pools can only be determined when the rest
+        # of the simulation has been restored
+        state = self.__dict__.copy()
+        for rankings in ('pool_rankings', 'pool_rankings_myopic'):
+            state[rankings] = list(state[rankings])
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.pool_rankings = SortedList(self.pool_rankings, key=hlp.pool_comparison_key)
+        self.pool_rankings_myopic = SortedList(self.pool_rankings_myopic, key=self.pool_comparison_key_myopic)
+
     def save_model_state_pkl(self):
         filename = "simulation-object.pkl"
         pickled_simulation_filepath = self.directory / filename
diff --git a/logic/stakeholder_profiles.py b/logic/stakeholder_profiles.py
index e372f94..e92fafc 100644
--- a/logic/stakeholder_profiles.py
+++ b/logic/stakeholder_profiles.py
@@ -7,7 +7,10 @@ from sortedcontainers import SortedList
 class NonMyopicStakeholder(Stakeholder):
     def __init__(self, unique_id, model, stake, cost, strategy=None):
         super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
-        self.rankings = self.model.pool_rankings
+
+    @property
+    def rankings(self):
+        return self.model.pool_rankings
 
     def calculate_operator_utility_from_strategy(self, strategy):
         potential_pools = strategy.owned_pools.values()
@@ -99,7 +102,10 @@ class NonMyopicStakeholder(Stakeholder):
 class MyopicStakeholder(Stakeholder):
     def __init__(self, unique_id, model, stake, cost, strategy=None):
         super().__init__(unique_id=unique_id, model=model, stake=stake, cost=cost, strategy=strategy)
-        self.rankings = self.model.pool_rankings_myopic
+
+    @property
+    def rankings(self):
+        return self.model.pool_rankings_myopic
 
     def calculate_operator_utility_from_strategy(self, strategy):
         potential_pools = strategy.owned_pools.values()
-- 
2.43.0


From 139000ff7160f67d560286b5d5011277e93cea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/34] fix: skip unfilled places when forecasting a pool's
 stake

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 878818c..c02ef06 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -205,7 +205,7 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     """
     rank = pool_rankings.index(pool)
     better_pools_stake_at_saturation = fsum(
-        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank]])
+        [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
     rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
     return calculate_non_myopic_pool_stake_from_rank(
-- 
2.43.0


From bd30fc881675efe52d4f4e68b2c6c23913a86bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 09/34] fix: allow pools without any stake in the operator's
 utility

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index c02ef06..f8b79ff 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -282,7 +282,7 @@ def calculate_myopic_pool_desirability(margin, current_profit):
 # @lru_cache(maxsize=1024)
 def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = pledge / pool_stake
+    stake_fraction = pledge / pool_stake if pool_stake > 0 else 0
     return calculate_operator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                operator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From 4eb0ef080ca0f89d823dec9cd6fd40d0c28ee36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 10/34] fix: never leave an empty sequence file behind

---
 logic/helper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index f8b79ff..367b771 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -3,6 +3,7 @@ from numpy.random import default_rng
 import numpy as np
 from scipy import stats
 import csv
+import os
 import pathlib
 from math import floor, log10, fsum
 from functools import lru_cache
@@ -350,8 +351,11 @@ def read_seq_id(filename='sequence.dat'):
 
 
 def write_seq_id(seq, filename='sequence.dat'):
-    with open(filename, 'w') as f:
+    # replace the file in one go, so that it always holds a valid number, even if the execution is interrupted
+    temp_filename = filename + '.tmp'
+    with open(temp_filename, 'w') as f:
         f.write(str(seq))
+    os.replace(temp_filename, filename)
 
 
 def write_to_csv(filepath, header, row):
-- 
2.43.0


From cef7f9825c227e742c644179a766799ca47c9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 11/34] fix: write one header when several processes share a
 csv file

---
 logic/helper.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/logic/helper.py b/logic/helper.py
index 367b771..e31ae67 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -12,6 +12,10 @@ import matplotlib.pyplot as plt
 from matplotlib import ticker
 import seaborn as sns
 import argparse
+try:
+    import fcntl
+except ImportError:  # not available on Windows
+    fcntl = None
 
 from logic.stakeholder_profiles import PROFILE_MAPPING
 from logic.reward_schemes import RSS_MAPPING
@@ -360,6 +364,9 @@ def write_seq_id(seq, filename='sequence.dat'):
 
 def write_to_csv(filepath, header, row):
     with open(filepath, 'a', newline='') as f:
+        if fcntl is not None:
+            fcntl.flock(f, fcntl.LOCK_EX)  # other processes may write to the same file (released when the file is closed)
+        f.seek(0, os.SEEK_END)
         writer = csv.writer(f)
         if f.tell() == 0:
             writer.writerow(header)
-- 
2.43.0


From 86e3955850f0ca11e107ea25ba3eb399a5933e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 12/34] fix: refuse non-positive values for
 iterations_after_convergence

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index e31ae67..fbe47d7 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -592,7 +592,7 @@ def add_script_arguments(parser):
     parser.add_argument('--inactive_stake_fraction_known', type=bool, default=False,
                         action=argparse.BooleanOptionalAction,
                         help='Is the inactive stake fraction of the system known beforehand? Default is no.')
-    parser.add_argument('--iterations_after_convergence', nargs="?", type=int, default=10,  # todo maybe make constant
+    parser.add_argument('--iterations_after_convergence', nargs="?", type=positive_int, default=10,  # todo maybe make constant
                         help='The minimum consecutive idle iterations that are required before terminations. '
                              'Default is 10.')
     parser.add_argument('--max_iterations', nargs="?", type=positive_int, default=2000,
-- 
2.43.0


From fea6bdff465401994e7e8887dd901780ed5e41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 13/34] fix: refuse option values that are not real numbers

---
 logic/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index fbe47d7..58404e5 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -5,7 +5,7 @@ from scipy import stats
 import csv
 import os
 import pathlib
-from math import floor, log10, fsum
+from math import floor, log10, fsum, inf
 from functools import lru_cache
 import json
 import matplotlib.pyplot as plt
@@ -521,21 +521,21 @@ def non_negative_int(value):
 
 def positive_float(value):
     float_value = float(value)
-    if float_value <= 0:
+    if not 0 < float_value < inf:
         raise argparse.ArgumentTypeError("invalid positive float value: {}".format(value))
     return float_value
 
 
 def non_negative_float(value):
     float_value = float(value)
-    if float_value < 0:
+    if not 0 <= float_value < inf:
         raise argparse.ArgumentTypeError("invalid non-negative float value: {}".format(value))
     return float_value
 
 
 def fraction(value):
     float_value = float(value)
-    if float_value < 0 or float_value > 1:
+    if not 0 <= float_value <= 1:
         raise argparse.ArgumentTypeError("invalid fraction value: {}".format(value))
     return float_value
 
-- 
2.43.0


From 7e815469c2ebbbea786eecd146841823c031ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 14/34] fix: make the CIP-7 reward scheme selectable

---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index b23274b..d1156be 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -76,7 +76,7 @@ class FlatPledgeBenefitRSS(RSS):
 
 
 class CurvePledgeBenefitRSS(RSS):  # CIP-7
-    def __init__(self, k, a0, crossover_factor, curve_root):
+    def __init__(self, k, a0, crossover_factor=8, curve_root=3):
         super().__init__(k=k, a0=a0)
         self.crossover_factor = crossover_factor
         self.curve_root = curve_root
-- 
2.43.0


From e82942b8410b3d7e8547c3ae764cb64458784188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 15/34] fix: keep delegations that change while a pool update
 is pending

---
 logic/stakeholder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/logic/stakeholder.py b/logic/stakeholder.py
index 549cfe7..0716959 100644
--- a/logic/stakeholder.py
+++ b/logic/stakeholder.py
@@ -351,12 +351,16 @@ class Stakeholder(Agent):
 
     def update_pool(self, pool_id):
         updated_pool = self.new_strategy.owned_pools[pool_id]
-        if updated_pool.is_private and updated_pool.stake > updated_pool.pledge:
+        old_pool = self.strategy.owned_pools[pool_id]
+        if updated_pool.delegators != old_pool.delegators:
+            # delegations have changed since the move was decided (only possible during (semi)simultaneous activation)
+            updated_pool.delegators = dict(old_pool.delegators)
+            updated_pool.stake = updated_pool.pledge + sum(updated_pool.delegators.values())
+        if updated_pool.is_private:
             # undelegate stake in case the pool turned from public to private
             self.remove_delegations(updated_pool)
         self.model.pools[pool_id] = updated_pool
         # update pool rankings
-        old_pool = self.strategy.owned_pools[pool_id]
         self.model.pool_rankings.remove(old_pool)
         self.model.pool_rankings.add(updated_pool)
         self.model.pool_rankings_myopic.remove(old_pool)
-- 
2.43.0


From 8fbe7cc3821256834de6c0244eae8120690983e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 16/34] fix: allow the CIP-50 reward scheme in batch runs

---
 batch-run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch-run.py b/batch-run.py
index 7420c83..ca3952e 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -44,7 +44,7 @@ if __name__ == "__main__":
                              'the original cost value of the stakeholder. Default is 40%%.')
     parser.add_argument('--stake_distr_source', nargs="?", type=str, default='Pareto',
                         help='The distribution type to use for the initial allocation of stake to the agents.')
-    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(4),
+    parser.add_argument('--reward_scheme', nargs="?", type=int, default=0, choices=range(5),
                         help='The reward scheme to use in the simulation. 0 for the original reward scheme of Cardano, '
                              '1 for a simplified version of it, 2 for a reward scheme with flat pledge benefit, 3 for '
                              'a reward scheme with curved pledge benefit (CIP-7) and 4 for the reward scheme of CIP-50.')
-- 
2.43.0


From ec2da7a4d8d19ce51a140bcb5ad35b566e5f8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 17/34] fix: restore the constant that the interactive
 visualisation imports

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 58404e5..e34180f 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -24,7 +24,7 @@ from logic.reward_schemes import TOTAL_EPOCH_REWARDS_R
 
 sns.set_theme()
 
-# MAX_NUM_POOLS = 1000 # potentially needed for run_viz
+MAX_NUM_POOLS = 1000  # needed for run_viz
 MIN_STAKE_UNIT = 2.2e-17
 
 
-- 
2.43.0


From 6450abb20391bd6f082812ec3ea81acb9cd1ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 18/34] fix: give every simulation a random generator of its
 own

Mesa keeps the generator in the class, so two simulations that are alive at
the same time in one process disturbed each other.
---
 logic/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/sim.py b/logic/sim.py
index 9cdf76c..11ce79d 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -44,7 +44,7 @@ class Simulation(Model):
         if seed is None:
             seed = random.randint(0, 9999999)
         super().__init__(seed=seed)
-        self.reset_randomizer(seed)  # Mesa only picks up a seed that is given as a keyword argument
+        self.random = random.Random(seed)  # Mesa's own generator is shared by all models of a process
 
         seq_id = args['seq_id']
         if seq_id == -1:
-- 
2.43.0


From 85f9ea89037cca622bf16165f77536a90dbff0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 19/34] fix: read all stake values of a stake file, not only
 the first one of each line

The documentation asks for a csv file with stake values separated by commas.
---
 logic/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/helper.py b/logic/helper.py
index e34180f..1b25e2c 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -36,13 +36,13 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
         with open(filename) as file:
             reader = csv.reader(file)
             for row in reader:
-                stk_dstr.append(float(row[0]))
+                stk_dstr.extend([float(value) for value in row])
     except FileNotFoundError:
         try:
             with open(default_filename) as file:
                 reader = csv.reader(file)
                 for row in reader:
-                    stk_dstr.append(float(row[0]))
+                    stk_dstr.extend([float(value) for value in row])
         except FileNotFoundError:
             print("Couldn't find file to read stake distribution from. Please make sure that the file exists or "
                   "use another option for the stake distribution source.")
-- 
2.43.0


From c579a2d3eabd92fe56e97e80f340ef736298c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 20/34] fix: don't lose a target pool to a floating point error

With k=3 and a known inactive stake fraction of 0.7 the target number of pools
became 9 instead of 10.
---
 logic/reward_schemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/reward_schemes.py b/logic/reward_schemes.py
index d1156be..154d79c 100644
--- a/logic/reward_schemes.py
+++ b/logic/reward_schemes.py
@@ -21,7 +21,7 @@ class RSS:
     def k(self, k_value):
         if k_value == 0:
             raise ValueError('k parameter of reward scheme cannot be 0')
-        self._k = int(k_value)
+        self._k = int(round(k_value, 9))  # rounding first to avoid floating point errors
         # whenever k changes, the global saturation threshold also changes
         self.global_saturation_threshold = TOTAL_EPOCH_REWARDS_R / k_value
 
-- 
2.43.0


From 64eca913432321e48ae906302587e60114aece39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 21/34] fix: support the disparity stake source with up to
 three agents

It failed with three agents and gave values for more than n agents with fewer.
---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 1b25e2c..74535a6 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -57,7 +57,8 @@ def read_stake_distr_from_file(num_agents=10000, seed=42):
 
 def generate_stake_distr_disparity(n, x=0.3, c=3):
     stk_dstr = []
-    high_end_stake = x / c
+    c = min(c, n - 1)  # there must be at least one agent at the low end
+    high_end_stake = x / c if c > 0 else 0
     low_end_stake = (1 - x) / (n - c)
     stk_dstr.extend([high_end_stake for _ in range(c)])
     stk_dstr.extend([low_end_stake for _ in range(n - c)])
-- 
2.43.0


From be25efb2c4fe9fd44c7a178ded13d93f97c220aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 22/34] fix: refuse an inactive stake fraction of 1 before
 anything is run

It failed with a ZeroDivisionError after the output folder had been created.
---
 logic/sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/sim.py b/logic/sim.py
index 11ce79d..ec3eed1 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -40,6 +40,9 @@ class Simulation(Model):
         if args['agent_profile_distr'] is None:
             args['agent_profile_distr'] = [1, 0, 0]
 
+        if args['inactive_stake_fraction'] >= 1:
+            raise ValueError('There must be some active stake (inactive_stake_fraction < 1)')
+
         seed = args['seed']
         if seed is None:
             seed = random.randint(0, 9999999)
-- 
2.43.0


From d5c13218094cf07c4093394e85ef37401797215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 23/34] fix: allow pools with a saturation threshold of 0 in
 the average saturation rate

---
 logic/model_reporters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 5c14712..190a0fd 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -69,7 +69,13 @@ def get_avg_sat_rate(model):
     current_pools = model.get_pools_list()
     if len(current_pools) == 0:
         return 0
-    sat_rates = [pool.stake / model.reward_scheme.get_pool_saturation_threshold(pool.pledge) for pool in current_pools]
+    sat_rates = []
+    for pool in current_pools:
+        saturation_threshold = model.reward_scheme.get_pool_saturation_threshold(pool.pledge)
+        if saturation_threshold > 0:
+            sat_rates.append(pool.stake / saturation_threshold)
+        else:  # nothing fits in such a pool (e.g. CIP-50 with a0 = 0)
+            sat_rates.append(float('inf') if pool.stake > 0 else 0)
     return statistics.mean(sat_rates)
 
 
-- 
2.43.0


From c37c83384cfda9337707a7a873dc46453f7819e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 24/34] fix: allow pools without any stake in the pledge rate
 and the pool homogeneity factor

---
 logic/model_reporters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logic/model_reporters.py b/logic/model_reporters.py
index 190a0fd..3bc03ae 100644
--- a/logic/model_reporters.py
+++ b/logic/model_reporters.py
@@ -213,7 +213,7 @@ def get_pledge_rate(model):
         return 0
     total_active_stake = fsum([pool.stake for pool in pools])
     total_pledge = fsum([pool.pledge for pool in pools])
-    return total_pledge / total_active_stake
+    return total_pledge / total_active_stake if total_active_stake > 0 else 0
 
 
 def get_homogeneity_factor(model):
@@ -232,7 +232,7 @@ def get_homogeneity_factor(model):
     ideal_area = pool_count * max_stake
     actual_area = fsum(pool_stakes)
 
-    return actual_area / ideal_area
+    return actual_area / ideal_area if ideal_area > 0 else 1
 
 
 def get_iterations(model):
-- 
2.43.0


From 20f5a8f74b68241604dbcef4bdd13830f569d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:48 +0000
Subject: [PATCH 25/34] fix: use the given agent profiles in batch runs

---
 batch-run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batch-run.py b/batch-run.py
index ca3952e..9b75955 100644
--- a/batch-run.py
+++ b/batch-run.py
@@ -1,5 +1,6 @@
 import argparse
 import random
+from functools import partial
 import pandas as pd
 
 from custom_batchrunner import custom_batch_run
@@ -71,7 +72,8 @@ if __name__ == "__main__":
     if seed is None:
         seed = random.randint(0, 9999999)
 
-    args_dict.pop("agent_profile_distr") #todo deal with this instead of popping
+    # lists stand for several values of a parameter, so the distribution can't be one of the batch run's parameters
+    agent_profile_distr = args_dict.pop("agent_profile_distr")
 
     params = {}
     variable_params = {}
@@ -85,7 +87,7 @@ if __name__ == "__main__":
 
     start_time = time.time()
     results, batch_run_directory = custom_batch_run(
-        sim.Simulation,
+        partial(sim.Simulation, agent_profile_distr=agent_profile_distr),
         parameters=params,
         iterations=1, #todo maybe add as command-line option
         max_steps=params['max_iterations'],
-- 
2.43.0


From e40f59fccb6ce8bd4ab3ae6e25a4ce0bc0c13a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 26/34] fix: give runs that start at the same time different
 serial numbers

---
 custom_batchrunner.py | 3 +--
 logic/helper.py       | 9 +++++++++
 logic/sim.py          | 3 +--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/custom_batchrunner.py b/custom_batchrunner.py
index 4bb3f75..6f86a3e 100644
--- a/custom_batchrunner.py
+++ b/custom_batchrunner.py
@@ -57,8 +57,7 @@ def custom_batch_run(
         [description]
     """
 
-    seq_id = hlp.read_seq_id() + 1
-    hlp.write_seq_id(seq_id)
+    seq_id = hlp.get_next_seq_id()
     batch_run_id = str(seq_id) + '-' + batch_run_id
     path = pathlib.Path.cwd() / "output" / batch_run_id
     pathlib.Path(path).mkdir(parents=True)
diff --git a/logic/helper.py b/logic/helper.py
index 74535a6..7a1ecc1 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -363,6 +363,15 @@ def write_seq_id(seq, filename='sequence.dat'):
     os.replace(temp_filename, filename)
 
 
+def get_next_seq_id(filename='sequence.dat'):
+    with open(filename + '.lock', 'a') as f:
+        if fcntl is not None:
+            fcntl.flock(f, fcntl.LOCK_EX)  # executions that start at the same time must not get the same number
+        seq = read_seq_id(filename) + 1
+        write_seq_id(seq, filename)
+    return seq
+
+
 def write_to_csv(filepath, header, row):
     with open(filepath, 'a', newline='') as f:
         if fcntl is not None:
diff --git a/logic/sim.py b/logic/sim.py
index ec3eed1..ff8483a 100644
--- a/logic/sim.py
+++ b/logic/sim.py
@@ -51,8 +51,7 @@ class Simulation(Model):
 
         seq_id = args['seq_id']
         if seq_id == -1:
-            seq_id = hlp.read_seq_id() + 1
-            hlp.write_seq_id(seq_id)
+            seq_id = hlp.get_next_seq_id()
         self.seq_id = seq_id
 
         execution_id = args['execution_id']
-- 
2.43.0


From 93613ea7048e2422e436e099c8218039dca10936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 27/34] fix: don't offer an inactive stake fraction of 1 in the
 interactive visualisation

---
 interactiveViz/runViz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 56d6056..092ee61 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -48,7 +48,7 @@ model_params = {
         "number", "Random seed", 42, description="Seed for reproducibility"
     ),
     "inactive_stake_fraction": UserSettableParameter(
-        "slider", "Inactive stake fraction", 0.1, 0.0, 1.0, 0.01,
+        "slider", "Inactive stake fraction", 0.1, 0.0, 0.99, 0.01,
         description="The percentage of agents that will abstain from the game in this run."
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
-- 
2.43.0


From 00b985ca32962a247064f1d9966f2c32d223d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 28/34] fix: don't let a floating point error add a place to
 the top pools

---
 logic/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 7a1ecc1..9d3782d 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -213,7 +213,8 @@ def calculate_non_myopic_pool_stake(pool, pool_rankings, reward_scheme, total_st
     better_pools_stake_at_saturation = fsum(
         [reward_scheme.get_pool_saturation_threshold(p.pledge) for p in pool_rankings[:rank] if p is not None])
     # check whether the higher-ranked pools suffice to cover the system's total stake without getting over-saturated
-    rank_in_top_pools = better_pools_stake_at_saturation + MIN_STAKE_UNIT < total_stake
+    # (rounding to avoid floating point errors, e.g. 49 pools of size 1/49 add up to slightly less than 1)
+    rank_in_top_pools = round(total_stake - better_pools_stake_at_saturation, 12) > 0
     return calculate_non_myopic_pool_stake_from_rank(
         pool_pledge=pool.pledge,
         pool_stake=pool.stake,
-- 
2.43.0


From e9de826f5a45a80a22bbc899e1cea34f4ee8b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 29/34] fix: keep the helper files of the sequence file out of
 git

---
 .gitignore | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/.gitignore b/.gitignore
index e2a7f5e..4e066b3 100644
--- a/.gitignore
+++ b/.gitignore
@@ -2,6 +2,8 @@
 **.py~
 **.csv
 **.dat
+**.dat.lock
+**.dat.tmp
 **.spec
 **.pkl
 **/dist
-- 
2.43.0


From 1c0e9f59766b0eb5e53b3193b3fee6a6621f9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 30/34] fix: allow pools without any stake in the delegator's
 utility

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 9d3782d..2ece6a7 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -297,7 +297,7 @@ def calculate_operator_utility_from_pool(pool_stake, pledge, margin, cost, rewar
 # @lru_cache(maxsize=1024)
 def calculate_delegator_utility_from_pool(stake_allocation, pool_stake, pledge, margin, cost, reward_scheme):
     r = calculate_pool_reward(reward_scheme=reward_scheme, pool_stake=pool_stake, pool_pledge=pledge)
-    stake_fraction = stake_allocation / pool_stake
+    stake_fraction = stake_allocation / pool_stake if pool_stake > 0 else 0
     return calculate_delegator_reward_from_pool(pool_margin=margin, pool_cost=cost, pool_reward=r,
                                                 delegator_stake_fraction=stake_fraction)
 
-- 
2.43.0


From ced28943e54956d148007e9b82aed4eaf1115bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 31/34] fix: keep Pareto samples within the floating point
 range

---
 logic/helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 2ece6a7..64a566b 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -87,7 +87,9 @@ def generate_stake_distr_pareto(num_agents, pareto_param=2, seed=156, truncation
     rng = default_rng(seed=int(seed))
     # Sample from a Pareto distribution with the specified shape
     a, m = pareto_param, 1.  # shape and mode
-    stake_sample = list((rng.pareto(a, num_agents) + 1) * m)
+    stake_sample = (rng.pareto(a, num_agents) + 1) * m
+    # for tiny shape parameters the samples can exceed the floating point range, which would make the stakes infinite / NaN
+    stake_sample = list(np.minimum(stake_sample, np.finfo(float).max / max(num_agents, 1)))
     if truncation_factor > 0:
         stake_sample = truncate_pareto(rng, (a, m), stake_sample, truncation_factor)
     return stake_sample
-- 
2.43.0


From 795a7869de0e6a2c1bdb08a290726759684a5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 32/34] fix: create the charts of the interactive visualisation
 without jQuery, which Mesa's page does not load

---
 interactiveViz/bubbleChartModule.js  | 9 +++++----
 interactiveViz/myChartModule.js      | 9 +++++----
 interactiveViz/stackedChartModule.js | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/interactiveViz/bubbleChartModule.js b/interactiveViz/bubbleChartModule.js
index 520004b..84bb5f3 100644
--- a/interactiveViz/bubbleChartModule.js
+++ b/interactiveViz/bubbleChartModule.js
@@ -1,10 +1,11 @@
 var BubbleChartModule  = function(series, canvas_width, canvas_height) {
     // Create the tag:
-    var canvas_tag = "<canvas width='" + canvas_width + "' height='" + canvas_height + "' ";
-    canvas_tag += "style='border:1px dotted'></canvas>";
+    var canvas = document.createElement("canvas");
+    canvas.width = canvas_width;
+    canvas.height = canvas_height;
+    canvas.style.border = "1px dotted";
     // Append it to #elements
-    var canvas = $(canvas_tag)[0];
-    $("#elements").append(canvas);
+    document.getElementById("elements").appendChild(canvas);
     // Create the context and the drawing controller:
     var context = canvas.getContext("2d");
 
diff --git a/interactiveViz/myChartModule.js b/interactiveViz/myChartModule.js
index df89761..bec114e 100644
--- a/interactiveViz/myChartModule.js
+++ b/interactiveViz/myChartModule.js
@@ -4,11 +4,12 @@
 
 var MyChartModule = function(series, canvas_width, canvas_height) {
     // Create the tag:
-    var canvas_tag = "<canvas width='" + canvas_width + "' height='" + canvas_height + "' ";
-    canvas_tag += "style='border:1px dotted'></canvas>";
+    var canvas = document.createElement("canvas");
+    canvas.width = canvas_width;
+    canvas.height = canvas_height;
+    canvas.style.border = "1px dotted";
     // Append it to #elements
-    var canvas = $(canvas_tag)[0];
-    $("#elements").append(canvas);
+    document.getElementById("elements").appendChild(canvas);
     // Create the context and the drawing controller:
     var context = canvas.getContext("2d");
 
diff --git a/interactiveViz/stackedChartModule.js b/interactiveViz/stackedChartModule.js
index 80e3f85..ea3722b 100644
--- a/interactiveViz/stackedChartModule.js
+++ b/interactiveViz/stackedChartModule.js
@@ -1,10 +1,11 @@
 var StackedChartModule = function(series, canvas_width, canvas_height) {
     // Create the tag:
-    var canvas_tag = "<canvas width='" + canvas_width + "' height='" + canvas_height + "' ";
-    canvas_tag += "style='border:1px dotted'></canvas>";
+    var canvas = document.createElement("canvas");
+    canvas.width = canvas_width;
+    canvas.height = canvas_height;
+    canvas.style.border = "1px dotted";
     // Append it to #elements
-    var canvas = $(canvas_tag)[0];
-    $("#elements").append(canvas);
+    document.getElementById("elements").appendChild(canvas);
     // Create the context and the drawing controller:
     var context = canvas.getContext("2d");
 
-- 
2.43.0


From 5a92782c820a35cae46b0410b5756280a7104a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 33/34] fix: track the metrics that the charts of the
 interactive visualisation show

---
 interactiveViz/runViz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interactiveViz/runViz.py b/interactiveViz/runViz.py
index 092ee61..8da48ec 100644
--- a/interactiveViz/runViz.py
+++ b/interactiveViz/runViz.py
@@ -53,7 +53,8 @@ model_params = {
     ),
     "extra_pool_cost_fraction": UserSettableParameter(
         "slider", "Cost factor", 0.4, 0.0, 1, 0.01
-    )
+    ),
+    "metrics": [1, 3, 21, 27]  # the metrics that the charts above show
 }
 
 # todo add option for different distributions
-- 
2.43.0


From ccb0160b43d46a08fea7117b47f4f2d4531026a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:34 +0000
Subject: [PATCH 34/34] fix: label the rows of heat maps with the parameter's
 values, also if they are small

---
 logic/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/helper.py b/logic/helper.py
index 64a566b..ffef23a 100644
--- a/logic/helper.py
+++ b/logic/helper.py
@@ -475,7 +475,7 @@ def plot_aggregate_data_heatmap(df, variables, model_reporters, output_dir):
         ax = sns.heatmap(unstacked_df, annot=True, annot_kws={"size": 12}, fmt='g', cbar_kws=cbar_kws, cmap='flare')
         ax.invert_yaxis()
         labels = [item.get_text() for item in ax.get_yticklabels()]
-        ax.set_yticklabels([str(round(float(label), 4)) for label in labels])
+        ax.set_yticklabels(['{:g}'.format(float(label)) for label in labels])
 
         filename = 'heatmap-' + reporter + "-" + '-'.join(variables) + ".png"
         plt.savefig(path / filename, bbox_inches='tight')
-- 
2.43.0


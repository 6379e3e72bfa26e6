From 40b0b607b3057de237eeba98febfc6e9b268c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 01/20] fix: check the walls array against the number of
 states, so that a plain MDP (which has no grid shape) can be constructed

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 83ef70f..e5ff88d 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -122,7 +122,7 @@ class MDP():
         # Check shape etc
         if not walls.ndim == 1:
             raise AttributeError("Array specifying walls must be 1 dimensional")
-        if not walls.shape == np.product(self.shape):
+        if not walls.shape[0] == self.n_states:
             raise AttributeError("Walls array must have the same number of entries as the number of states. Expected {0}, "
                                 "got {1}".format(self.sas.shape[0], walls.shape))
         if not np.all(np.isin(walls, [0, 1])):
-- 
2.43.0


From 4880fcba3cc13b888d51dd90cec507b3b18dc274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 02/20] fix: sample the next state of a non-deterministic MDP
 from its transition probabilities instead of failing

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index e5ff88d..15e92b9 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -219,7 +219,7 @@ class MDP():
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-            next_state = self.rng.random.choice(np.arange(len(possible_states), dtype=np.int), p=possible_states)
+            next_state = self.rng.choice(len(possible_states), p=possible_states)
 
         return next_state
 
-- 
2.43.0


From 884ef5c9d86803b3a6c5d4545692b7a68b6b3c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 03/20] fix: get_next_state raises for an action that is not
 available instead of moving to state 0

---
 maMDP/mdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 15e92b9..9dc2d0f 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -216,6 +216,9 @@ class MDP():
         # Get possible transitions given the best action
         possible_states = self.sas[current_state, action, :]
 
+        if not np.any(possible_states > 0):
+            raise ValueError("Action {0} is not available in state {1}".format(action, current_state))
+
         if self._deterministic:
             next_state = np.argmax(possible_states)
         else:
-- 
2.43.0


From fe53904a07a0b7126987ada858a10c86259b182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 04/20] fix: keep the adjacency matrix in step with the
 transition function when walls are applied

---
 maMDP/mdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index 9dc2d0f..bf897f8 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -137,6 +137,7 @@ class MDP():
         # Adjust SAS
         self.sas[:, :, walls == 1] = 0 # Make it impossible to transition to these states
         self.sas[walls == 1, :, :] = 0 # Make it impossible to transition from these states
+        self.adjacency = (np.sum(self.sas, axis=1) > 0).astype(int)
 
     def _get_walls(self, walls):
         return walls
-- 
2.43.0


From 41db2f2c89f91b7f20072d7364286d0da72b1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 05/20] fix: remove_agent_features keeps all features when
 there are no agents

---
 maMDP/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/mdp.py b/maMDP/mdp.py
index bf897f8..fbe7779 100644
--- a/maMDP/mdp.py
+++ b/maMDP/mdp.py
@@ -176,7 +176,7 @@ class MDP():
     def remove_agent_features(self):
         """ Removes agent features """
 
-        self.features = self.features[:-self.n_agents, :]
+        self.features = self.features[:self.n_features - self.n_agents, :]
         self.n_agents = 0
 
     def consume_features(self, feature_idx:List[int], state_id:int) -> np.ndarray:
-- 
2.43.0


From a92768040db75b67a11d0dde5d0ad995d04bd619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 06/20] fix: report an out-of-range agent position as
 ValueError instead of failing to format the message

---
 maMDP/agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index cb2acea..10c2f53 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -139,7 +139,7 @@ class AttachedAgent():
 
         if new_position >= self._parent_mdp.n_states:
             raise ValueError("Position must be less than the number of states in the parent MDP. " 
-                             "Provided position {0}, MDP has {1} states".format(self._parent_mdp.n_states))
+                             "Provided position {0}, MDP has {1} states".format(new_position, self._parent_mdp.n_states))
 
         if self.__starting_position is None:
             self.__starting_position = new_position
-- 
2.43.0


From 0740aae83c9d13047351a5b84b167856ab49bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 07/20] fix: step_proba adds up the probability of every way of
 reaching a state instead of keeping only the last

---
 maMDP/agents.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maMDP/agents.py b/maMDP/agents.py
index 10c2f53..900668f 100644
--- a/maMDP/agents.py
+++ b/maMDP/agents.py
@@ -216,8 +216,7 @@ class AttachedAgent():
 
         for s in current_states:
             for action in range(self.pi_p.shape[1]):
-                next_state = self._parent_mdp.get_next_state(s, action)
-                next_states_p[next_state] = self.pi_p[s, action] * position[s]
+                next_states_p += self.pi_p[s, action] * position[s] * self._parent_mdp.sas[s, action, :]
 
         return next_states_p
 
-- 
2.43.0


From d7063cac9cbbbe92a608157323e1735aaf6749eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:17 +0000
Subject: [PATCH 08/20] fix: value iteration takes the (soft) maximum over the
 actions that are available, not over unavailable ones valued at zero

---
 maMDP/algorithms/dynamic_programming.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/maMDP/algorithms/dynamic_programming.py b/maMDP/algorithms/dynamic_programming.py
index adda596..ee99880 100644
--- a/maMDP/algorithms/dynamic_programming.py
+++ b/maMDP/algorithms/dynamic_programming.py
@@ -113,15 +113,20 @@ def state_value_iterator(values:np.ndarray, delta:float, reward:np.ndarray,
         # Values of each action taken from state s
         action_values = get_state_action_values(s, n_actions, sas, reward, discount, values)
 
+        # Ignore actions that the agent can't take
+        valid_actions = np.where(sas[s, :, :].sum(axis=-1) > 0)[0]
+
         # Update action values
-        if not soft:
+        if len(valid_actions) == 0:
+            # No way out of this state
+            values[s] = 0
+        elif not soft:
             # Max
-            values[s] = action_values.max()
+            values[s] = action_values[valid_actions].max()
         else:
             # Softmax (e.g. Bloem & Bambos, 2014)
-            valid_actions = np.argwhere(sas[s, ...])[:, 0]  # Ignore actions that the agent can't take
             # action_values
-            values[s] = np.log(np.sum(np.exp(action_values)) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
+            values[s] = np.log(np.sum(np.exp(action_values[valid_actions])) + 1e-200)  # Add a small amount here to avoid doing log(0) and getting -inf
 
         # Update Q value for each action in this state
         q_values[s, :] = action_values
-- 
2.43.0


From 8b3dd694a0c42a70556fa6580aac4cd18ffeaf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:17 +0000
Subject: [PATCH 09/20] fix: MFFeatureMatching ignores the features it is told
 to ignore, not the trajectories with those indices

---
 maMDP/algorithms/irl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 4595cdb..96a2e47 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -287,7 +287,7 @@ class MFFeatureMatching(BaseIRL):
         for n, t in enumerate(trajectories):
             feature_array[n, :] = mdp[n].features[:, t[1:]].sum(axis=1)  # Exclude the first state of the trajectory as it's the start state which wasn't chosen
 
-        feature_array[ignore_features, :] = 0
+        feature_array[:, ignore_features] = 0
 
         self.theta = feature_array.sum(axis=0)
 
-- 
2.43.0


From 87801703a4d6cecb9d41d6310c7aa1774e98c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:17 +0000
Subject: [PATCH 10/20] fix: MaxCausalEntIRL weighs every trajectory equally
 instead of dividing earlier ones again by the lengths of later ones

---
 maMDP/algorithms/irl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 96a2e47..58ab139 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -173,10 +173,9 @@ class MaxCausalEntIRL(BaseIRL):
         
         # Get empirical state visitation counts
         for t in trajectories:
+            # Normalise by the length of the trajectory
             for s in t:
-                visited_states[s] += 1
-            # Normalise
-            visited_states /= len(t)
+                visited_states[s] += 1 / len(t)
         # Normalise
         visited_states /= len(trajectories)
 
-- 
2.43.0


From d2654bef41a6f582a920d2c1315b9a20de68a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:17 +0000
Subject: [PATCH 11/20] fix: TD policy learner uses the MDP of the trajectory
 it is fitting, not the one at the index of the action

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index ff77f9b..f47862d 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -99,7 +99,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
                 action = mdp[n]._trajectory_to_state_action(trajectory)[:, 1].astype(int)
 
                 # Loop through individual actions within each trajectory
-                for n, a in enumerate(action):
+                for a in action:
                     
                     trial_reward = np.zeros(mdp[n].n_actions)
 
-- 
2.43.0


From 7672f6d44589bf32e0f17195031c734d5ad1bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:18 +0000
Subject: [PATCH 12/20] fix: run_mcts can use the number of moves of the agents
 when none is given (one turn per agent)

---
 maMDP/algorithms/mcts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index a7209eb..2e61e6d 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -702,7 +702,7 @@ def run_mcts(
 
     # Only used the extracted number of moves if n_moves has not been specified
     if n_moves is None:
-        n_moves = extracted_n_moves
+        n_moves = [[n] for n in extracted_n_moves]
 
     # Remove agent features
     features = features.copy()
-- 
2.43.0


From bb848ae88962dae15020ba38c884e45a2d63f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:18 +0000
Subject: [PATCH 13/20] fix: caching MCTS records consumption for agents that
 consume several features instead of failing

---
 maMDP/algorithms/mcts.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index 2e61e6d..ae7abae 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -467,10 +467,7 @@ def mcts_iteration(
                     for f in np.where(consumes_features[current_actor, :])[0]:
                         # Check there is something to consume
                         if (
-                            features[
-                                consumes_features[current_actor, :],
-                                current_node[current_actor],
-                            ]
+                            features[f, current_node[current_actor]]
                             != 0
                         ):
                             consumed_features[f] = consumed_features[f] + (
-- 
2.43.0


From 8b4ba7f693b01524b6d8bf33d315d04b2da7c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:18 +0000
Subject: [PATCH 14/20] fix: interactive MCTS can simulate an opponent whose
 reward function is zero

---
 maMDP/algorithms/mcts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/mcts.py b/maMDP/algorithms/mcts.py
index ae7abae..f5b79a2 100644
--- a/maMDP/algorithms/mcts.py
+++ b/maMDP/algorithms/mcts.py
@@ -405,7 +405,7 @@ def mcts_iteration(
                         np.arange(len(current_node)) != current_actor
                     ]
                     feature_consumption = tuple(
-                        itemgetter(*agent_preferences[current_actor])(consumed_features)
+                        [consumed_features[f] for f in agent_preferences[current_actor]]
                     )
 
                     if (
-- 
2.43.0


From a9f67a9e3df90e70f07b97bb6f5d6a2e0f9903d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 15/20] fix: resetting a learner restores its initial estimate
 however often it is fitted, and fitting does not write to the caller's array

---
 maMDP/algorithms/irl.py             | 12 ++++++------
 maMDP/algorithms/policy_learning.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/maMDP/algorithms/irl.py b/maMDP/algorithms/irl.py
index 58ab139..f3434cd 100644
--- a/maMDP/algorithms/irl.py
+++ b/maMDP/algorithms/irl.py
@@ -121,8 +121,8 @@ class MaxCausalEntIRL(BaseIRL):
         self.original_learning_rate = learning_rate
         self.learning_rate_decay = decay
         self.max_iter_irl = max_iter_irl
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else self.original_theta.copy()
 
         # This is used for feature count estimation
         if soft:
@@ -230,7 +230,7 @@ class MaxCausalEntIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function and learning rate to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
         self.learning_rate = self.original_learning_rate
 
     def reset_learning_rate(self):
@@ -335,8 +335,8 @@ class HyptestIRL(BaseIRL):
         self.learning_rate = learning_rate
         self.asymmetry = asymmetry
         self.learning_rate_decay = decay
-        self.original_theta = np.array(theta).copy()
-        self.theta = theta
+        self.original_theta = None if theta is None else np.array(theta, dtype=float)
+        self.theta = None if theta is None else self.original_theta.copy()
         self.normalisation = normalisation
 
     def _single_move(self, start:int, next_state:int, sas:np.ndarray, q_values:Union[np.ndarray, None], 
@@ -484,7 +484,7 @@ class HyptestIRL(BaseIRL):
 
     def reset(self):
         """ Resets the reward function to its initial state """
-        self.theta = self.original_theta
+        self.theta = None if self.original_theta is None else self.original_theta.copy()
 
     def fit(self, mdp:Union[MDP, List[MDP]], trajectories:List[List[int]], ignore_features:tuple=(), show_progress:bool=True) -> np.ndarray:
         """
diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index f47862d..12a5f93 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -64,15 +64,15 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
         self._adjusted_learning_rate = learning_rate
         self.kernel = kernel
         self.ls = ls
-        self.original_Q = np.array(Q).copy()
+        self.original_Q = None if Q is None else np.array(Q, dtype=float)
         self.n_states = 1
         self.fit_complete = False
 
-        self.Q = Q 
+        self.Q = None if Q is None else self.original_Q.copy()
 
     def reset(self):
         """ Resets the estimate to its initial state """
-        self.Q = self.original_Q
+        self.Q = None if self.original_Q is None else self.original_Q.copy()
         self.reset_learning_rate()
         self.fit_complete = False
 
-- 
2.43.0


From aae26762771dea8e1083119a9bc44a9615a18b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 16/20] fix: TD policy learner decays its learning rate as
 documented (learning rate * n^-decay) instead of compounding the decay

---
 maMDP/algorithms/policy_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/algorithms/policy_learning.py b/maMDP/algorithms/policy_learning.py
index 12a5f93..a53c87d 100644
--- a/maMDP/algorithms/policy_learning.py
+++ b/maMDP/algorithms/policy_learning.py
@@ -115,7 +115,7 @@ class TDGeneralPolicyLearner(BaseGeneralPolicyLearner):
 
                     # Adjust learning rate
                     if self.learning_rate_decay > 0:
-                        self._adjusted_learning_rate = self._adjusted_learning_rate * np.power(self.n_states, -self.learning_rate_decay)
+                        self._adjusted_learning_rate = self.learning_rate * np.power(self.n_states, -float(self.learning_rate_decay))
                         self.Q += self._adjusted_learning_rate * delta
 
                     # No learning rate adjustment
-- 
2.43.0


From b617a431ad8a7618e3e786ddbf720cea090a91b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 17/20] fix: hex_env_to_dict keeps fractional reward weights
 instead of truncating them

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 729c537..1f7cd2c 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -58,7 +58,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
 
         agent_dict[agent_name]['n_moves'] = agent.n_moves
 
-        agent_dict[agent_name]['reward_function'] = [int(i) for i in list(agent.reward_function)]
+        agent_dict[agent_name]['reward_function'] = [float(i) for i in list(agent.reward_function)]
         agent_dict[agent_name]['consumes'] = agent.consumes
 
         agent_dict[agent_name]['algorithm'] = agent.algorithm.name
-- 
2.43.0


From 2bebb51770a311a49af94797bec1c172ee0fe072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 18/20] fix: hex_env_to_json can write an environment whose
 agents have moved (positions are NumPy integers then)

---
 maMDP/env_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 1f7cd2c..c016809 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -52,7 +52,7 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         agent_dict = {agent_name: {}}
         agent_dict[agent_name] = {}
         if format == 'index':
-            agent_dict[agent_name]['position'] = agent.position
+            agent_dict[agent_name]['position'] = int(agent.position)
         elif format == 'coords':
             agent_dict[agent_name]['position']  = [[int(i) for i in list(env.mdp.state_to_idx(agent.position))]]
 
-- 
2.43.0


From 78821d9aefc666d0ea2d765e432a3768063297ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 19/20] fix: hex_env_to_dict names features by their index when
 no names are given, instead of failing

---
 maMDP/env_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index c016809..0bba924 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -23,6 +23,9 @@ def hex_env_to_dict(env:Environment, feature_names:List=None, format:str='index'
         Dict: Returns a dictionary specifying shape of the grid, agent positions and properties, MDP properties
     """
 
+    if feature_names is None:
+        feature_names = [str(f) for f in range(env.mdp.n_features - len(env.agents))]
+
     if not (env.mdp.n_features - len(env.agents)) == len(feature_names):
         raise AttributeError('Number of feature names should equal number of features, excluding agents')
 
-- 
2.43.0


From 2294835877836ca361f85278087d57e24815a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:42 +0000
Subject: [PATCH 20/20] fix: hex_environment_from_dict and
 hex_environment_from_json restore the features when no names are given,
 instead of dropping them

---
 maMDP/env_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maMDP/env_io.py b/maMDP/env_io.py
index 0bba924..e0d8b0e 100644
--- a/maMDP/env_io.py
+++ b/maMDP/env_io.py
@@ -104,6 +104,8 @@ def hex_environment_from_dict(env_dict, feature_names=[]):
 
     else:
         n_features = len(env_dict['features'])
+        if len(feature_names) == 0:
+            feature_names = list(env_dict['features'].keys())
         features = np.zeros((n_features, np.product(env_dict['size'])))
         for n, f in enumerate(feature_names):
             # print("CREATING ENV", n, f)
-- 
2.43.0


From f0fe1c4c4cdc5008769a04d0414ca53fad42e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 01/79] fix: sequential Baum-Welch rounds crash on a training
 sequence the hypothesis cannot generate

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 43ed06d..3e58264 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1646,7 +1646,8 @@ class BW:
 				tasks.append(p.apply_async(self._processWork, [seq, times,]))
 			return [res.get() for res in tasks if res.get() != False]
 		else:
-			return [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			res = [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			return [r for r in res if r is not False]
 	
 	def _endPrint(self,it,rt):
 		print()
-- 
2.43.0


From 8a664eaff0efef7802544c1b43c5682a1d643bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 02/79] fix: active learning always crashes with one process
 (ambiguous truth value of an array)

---
 jajapy/mdp/Active_BW_MDP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index bd5516a..e63277d 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -331,11 +331,11 @@ class Active_BW_MDP(BW):
 			tasks = []
 			for seq,times in zip(traces.sequences,traces.times):
 				tasks.append(p.apply_async(self._computeProbas, [seq, times,]))
-			temp = [res.get() for res in tasks if res != False]
+			temp = [res.get() for res in tasks]
 		else:
 			temp = [self._computeProbas(seq, times) for seq,times in zip(traces.sequences,traces.times)]
-			temp = [i for i in temp if i!=False]
-		res = sum(temp)
+		temp = [i for i in temp if i is not False]
+		res = sum(temp,zeros(shape=(self.nb_states,len(self.actions))))
 		return res
 
 	def _computeProbas(self,seq:list,times:int) -> array:
-- 
2.43.0


From f94fb7cd12b154deb845e8f30e71ba0b617b155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 03/79] fix: active learning rate has no effect (the previous
 hypothesis is aliased by the new one)

---
 jajapy/mdp/Active_BW_MDP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index e63277d..dc2a133 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -6,6 +6,7 @@ from multiprocessing import Pool
 from random import random
 from numpy import zeros, dot, array, inf
 from time import perf_counter
+from copy import deepcopy
 
 class ActiveLearningScheduler:
 	"""
@@ -235,7 +236,7 @@ class Active_BW_MDP(BW):
 					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
 				else:
 					lr_it = lr
-				old_h = self.h
+				old_h = deepcopy(self.h)
 				_, info = super().fit(traces, initial_model=self.h,
 							output_file=output_file, epsilon=epsilon,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
-- 
2.43.0


From 4f1c29359e0e110c86d1c3affdbdfd682007f3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 04/79] fix: active learning with return_data and a stormpy
 output model crashes

---
 jajapy/mdp/Active_BW_MDP.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index dc2a133..450a773 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -199,7 +199,7 @@ class Active_BW_MDP(BW):
 			fitted MDP.
 		"""
 		if stormpy_output and not self.stormpy_installed:
-			if self.verbose > 0:
+			if verbose > 0:
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
@@ -257,13 +257,15 @@ class Active_BW_MDP(BW):
 		if verbose == 3:
 			self._endPrint(counter,running_time)
 
-		if stormpy_output :
-			self.h = self.jajapyModeltoStormpy(self.h)
-			
 		if return_data:
 			info = {"learning_rounds":counter,
 					"learning_time":running_time,
 					"training_set_loglikelihood":self.h.logLikelihood(total_traces)}
+
+		if stormpy_output :
+			self.h = self.jajapyModeltoStormpy(self.h)
+
+		if return_data:
 			return self.h, info
 	
 
-- 
2.43.0


From 8ae81944e7387ee373ce8193c4f4f9b8cfd5a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 05/79] fix: loglikelihood of a set cannot be computed on a
 one-CPU machine

---
 jajapy/base/Model.py  | 2 +-
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/mdp/MDP.py     | 2 +-
 jajapy/pctmc/PCTMC.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 3741de2..78f6f0b 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -337,7 +337,7 @@ class Model:
 		return loglikelihood / sum(sequences.times)
 
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = cpu_count()-1)
+		p = Pool(processes = max(1,cpu_count()-1))
 		tasks = []
 		for seq,times in zip(sequences.sequences,sequences.times):
 			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 872e9b4..59a1afd 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -247,7 +247,7 @@ class CTMC(Base_MC):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = cpu_count()-1)
+				p = Pool(processes = max(1,cpu_count()-1))
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 551def5..cabdd43 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -406,7 +406,7 @@ class MDP(Base_MC):
 		return alpha_matrix
 	
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = cpu_count()-1)
+		p = Pool(processes = max(1,cpu_count()-1))
 		tasks = []
 		for seq,times in zip(sequences.sequences,sequences.times):
 			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index a90d86c..6d2af6b 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -357,7 +357,7 @@ class PCTMC(Parametric_Model):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = cpu_count()-1)
+				p = Pool(processes = max(1,cpu_count()-1))
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-- 
2.43.0


From 3db431c67523d4ecb67a84b388d33523aeb314ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 06/79] fix: a random draw falls out of a distribution whose
 rounded sum is below 1

---
 jajapy/base/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index 9ea2ab4..6eaea40 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -56,7 +56,7 @@ def resolveRandom(m: list) -> int:
 	"""
 	m = array(m).cumsum()
 	mi = nonzero(m)[0]
-	r = random()
+	r = random()*m[-1]
 	i = 0
 	while r > m[mi[i]]:
 		i += 1
-- 
2.43.0


From fad7b191899ede3debb5cd4f1b66d333bdabf681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 07/79] fix: a dynamic learning rate above 1 makes the merged
 hypothesis negative

---
 jajapy/mdp/Active_BW_MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 450a773..9a38cbf 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -233,7 +233,7 @@ class Active_BW_MDP(BW):
 				counter += info['learning_rounds']
 			else:
 				if lr == "dynamic":
-					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
+					lr_it = min(1.0,sum(traces.times)/(sum(total_traces.times)-sum(traces.times)))
 				else:
 					lr_it = lr
 				old_h = deepcopy(self.h)
-- 
2.43.0


From 84e74b7d617634c9279a7ae814ef2cec05e60e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 08/79] fix: active learning ignores max_it after its first
 iteration

---
 jajapy/mdp/Active_BW_MDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 9a38cbf..abb9f1e 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -227,7 +227,7 @@ class Active_BW_MDP(BW):
 			
 			if lr == 0:
 				_,info = super().fit(total_traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
@@ -238,7 +238,7 @@ class Active_BW_MDP(BW):
 					lr_it = lr
 				old_h = deepcopy(self.h)
 				_, info = super().fit(traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
-- 
2.43.0


From 9af69c18c02d151626a5ff1e0707a57b06b186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 09/79] fix: CTMC and PCTMC states take impossible transitions
 when slow or absorbing

---
 jajapy/ctmc/CTMC.py   | 6 +++---
 jajapy/pctmc/PCTMC.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 59a1afd..390685f 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -7,7 +7,7 @@ from ..pctmc.PCTMC import PCTMC
 from ..base.Base_MC import *
 from math import exp, log
 from random import randint
-from numpy import array, zeros, dot, vstack, hstack, newaxis, delete, insert
+from numpy import array, zeros, dot, vstack, hstack, newaxis, delete, insert, inf
 from sys import platform
 from multiprocessing import cpu_count, Pool
 from sympy import sympify
@@ -173,10 +173,10 @@ class CTMC(Base_MC):
 		exps = []
 		for exp_lambda in self.matrix[state]:
 			if exp_lambda <= 0.0:
-				exps.append(1024)
+				exps.append(inf)
 			else:
 				exps.append(numpy.random.exponential(1/exp_lambda))
-		next_state= exps.index(min(exps))
+		next_state= exps.index(min(exps)) if min(exps) < inf else state
 		next_obs = self.labelling[state]
 		return (next_obs, next_state, min(exps))
 
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 6d2af6b..eff5e5c 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -287,7 +287,7 @@ class PCTMC(Parametric_Model):
 				exps.append(inf)
 			else:
 				exps.append(exponential(1/exp_lambda))
-		next_state= exps.index(min(exps))
+		next_state= exps.index(min(exps)) if min(exps) < inf else state
 		next_obs  = self.labelling[state]
 		return (next_obs, next_state, min(exps))
 
-- 
2.43.0


From 92ba32445c361c3a44175715081614e156d43f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 10/79] fix: loglikelihood of untimed traces is nan as soon as
 a CTMC or PCTMC has an absorbing state

---
 jajapy/base/BW.py     | 2 +-
 jajapy/ctmc/CTMC.py   | 2 ++
 jajapy/pctmc/PCTMC.py | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 3e58264..a1aec60 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1063,7 +1063,7 @@ class BW:
 			return 0.0
 		e = self._h_e(s1)
 		if e == 0.0:
-			return inf
+			return float(s1 == s2)
 		return self.hval[s1,s2]/e
 
 	def _processWork_PCTMC(self,sequence: list, times: int):
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 390685f..212960e 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -131,6 +131,8 @@ class CTMC(Base_MC):
 		float
 			A probability.
 		"""
+		if self.e(s1) == 0.0:
+			return float(s1 == s2 and self.labelling[s1] == obs)
 		return self.l(s1,s2, obs)/self.e(s1)
 	
 	def expected_time(self, s:int) -> float:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index eff5e5c..862fe5c 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -141,7 +141,7 @@ class PCTMC(Parametric_Model):
 		try:
 			e = self.e(s1)
 			if e == 0.0:
-				return inf
+				return float(s1 == s2 and self.labelling[s1] == obs)
 			return self.l(s1,s2, obs)/e
 		except ValueError:
 			print("WARN: cannot compute the exit-rate of non-instantiated state "+str(s1))
-- 
2.43.0


From 83632a8b78f47ace118ef721dcc4b5e86b9d0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 11/79] fix: an instantiation of a PCTMC is checked against the
 previous values, not the new ones

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 862fe5c..8fd63df 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -174,7 +174,7 @@ class PCTMC(Parametric_Model):
 			values = self.parameter_values
 		xs,ys = where(self.matrix != 0)
 		for x,y in zip(xs,ys):
-			v = self.evaluateTransition(x,y)
+			v = self.evaluateTransition(x,y,values)
 			if type(v) == float:
 				if v < 0.0:
 					return False
-- 
2.43.0


From 102eca988658264161bf3e72057079f6eb2ff24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 12/79] fix: a seeded deterministic random MDP depends on the
 hash seed

---
 jajapy/mdp/MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index cabdd43..21f2149 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -504,7 +504,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-	alphabet = list(set(labelling))
+	alphabet = list(dict.fromkeys(labelling))
 	matrix = []
 	for s in range(nb_states):
 		if not deterministic:
-- 
2.43.0


From f0f1fae4ba610e7caf147c17fe969ff31799270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 13/79] fix: action names of a converted stormpy MDP are
 permuted by the hash seed

---
 jajapy/with_stormpy/model_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index ac7a3b4..8427366 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -52,7 +52,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 					actions.append('a'+str(a))
 				else:
 					actions.append(actions_name[int(str(a))])
-		actions = list(set(actions))
+		actions = list(dict.fromkeys(actions))
 		matrix = zeros((len(h.states),len(actions),len(h.states)))
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
-- 
2.43.0


From f6dbd8c0bbb95b80dfa37126a7d36a7353f40cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 14/79] fix: composing PCTMCs leaks synchronous transitions
 into models created later

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 8fd63df..2a7d590 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -52,7 +52,7 @@ class PCTMC(Parametric_Model):
 			Default is an empty list.
 		"""
 		self.model_type = PCTMC_ID
-		self.synchronous_transitions = synchronous_transitions
+		self.synchronous_transitions = list(synchronous_transitions)
 		super().__init__(matrix,labelling,transition_expr,parameter_values,parameter_indexes,parameter_str,name)
 
 	def e(self,s: int) -> float:
-- 
2.43.0


From 436222374f0bfb1f06d989f7063817d1eee4ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 15/79] fix: CTMC.toMC destroys the rates of the CTMC

---
 jajapy/ctmc/CTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 212960e..6f76f33 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -276,7 +276,7 @@ class CTMC(Base_MC):
 		MC
 			An equivalent untimed model.
 		"""
-		new_matrix = self.matrix
+		new_matrix = self.matrix.copy()
 		for i in range(self.nb_states):
 			new_matrix[i] /= self.e(i)
 
-- 
2.43.0


From 6ffda6d23a9988df5bb84513da6b7158772356ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 16/79] fix: fixed CTMC rates are doubled in states no training
 sequence visits

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index a1aec60..b160d57 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -744,7 +744,7 @@ class BW:
 		for s in range(len(den)):
 			if den[s] == 0.0:
 				den[s] = 1.0
-				num[s] = self.h.matrix[s]
+				num[s] = where(self.fixed_parameters[s],0.0,self.h.matrix[s])
 
 		matrix = num/den[:, newaxis]
 		matrix = self.h.matrix*self.fixed_parameters + matrix
-- 
2.43.0


From 277ee15ec5b8e0a81b6aa4d8a5c509c416ec24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 17/79] fix: PCTMC parameters can no longer be learned (unset
 attributes, wrong forward-backward shapes)

---
 jajapy/base/BW.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index b160d57..875433d 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -252,7 +252,7 @@ class BW:
 			self._h_e = self._h_e_PCTMC
 			self._h_l = self._h_l_PCTMC
 			self._h_tau=self._h_tau_PCTMC
-			self._sortParameters(fixed_parameters)
+			self._sortParameters([] if type(fixed_parameters) == bool else fixed_parameters)
 
 		elif self.type_model == HMM_ID:
 			self._update = self._update_HMM
@@ -567,10 +567,11 @@ class BW:
 
 		pi = self.h.initial_state
 
-		alpha = empty((n_obs + 1, self.nb_states))
+		alpha = empty((n_obs, self.nb_states))
 		alpha[0] = pi
-		for t in range(1, n_obs + 1):
+		for t in range(1, n_obs):
 			alpha[t] = tau.T @ (phi[t - 1] * alpha[t - 1])
+		alpha[-1] *= phi[-1]
 
 		return alpha.T
 
@@ -641,11 +642,10 @@ class BW:
 		for s in range(self.nb_states):
 			phi[-1, s] = (1 if self.h.labelling[s] == obs_seq[-1] else 0)
 
-		beta = empty((n_obs + 1, self.nb_states))
-		beta[-1] = 1
-		for t in range(n_obs - 1, -1, -1):
+		beta = empty((n_obs, self.nb_states))
+		beta[-1] = phi[-1]
+		for t in range(n_obs - 2, -1, -1):
 			beta[t] = phi[t] * (tau @ beta[t + 1])
-		beta = beta[:-1]
 
 		return beta.T
 
@@ -1189,7 +1189,7 @@ class BW:
 				num_cat2[ip] = self.h.parameter_values[p]*num_cat2[ip]**(1/c)
 		values += (num_cat2/den_cat2).tolist()
 
-		for p in range(len(terms_cat3[0])):
+		for p in range(len(self.parameters_cat[2])):
 			temp = array([i[p] for i in terms_cat3], dtype=float).sum(axis=0)
 			values.append(max(polyroots(temp)))
 
@@ -1320,6 +1320,11 @@ class BW:
 			- the `returned_data` (see parameter description).
 		"""
 		self.type_model = PCTMC_ID
+		self.verbose = verbose
+		if platform == "win32" or platform == "darwin":
+			self.processes = 1
+		else:
+			self.processes = cpu_count()-1
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
 		self.h = initial_model
@@ -1489,7 +1494,7 @@ class BW:
 			self.type_model = CTMC_ID
 			self.h = CTMC_random(nb_states,self.alphabet,min_exit_rate_time,max_exit_rate_time,self_loop,random_initial_state)
 
-	def _computeAlphas_matrix(self, sequence: list[str]) -> array:
+	def _computeAlphas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the alpha values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
@@ -1562,7 +1567,7 @@ class BW:
 				alpha_matrix[k+1,s] = dot(alpha_matrix[k],p)
 		return alpha_matrix.T
 
-	def _computeBetas_matrix(self, sequence: list[str]) -> array:
+	def _computeBetas_matrix(self, sequence: list[str], times_seq: list[float] = None) -> array:
 		"""
 		Compute the beta values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
-- 
2.43.0


From ecc75a85581a40c1859c4ff14a41d8536250905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 18/79] fix: equal constant rates of a PCTMC share one entry
 and leave unused ones behind

---
 jajapy/pctmc/PCTMC.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 2a7d590..c1eeb30 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -533,7 +533,9 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 		expr = sympify(val)
 		if expr.is_real or not expr in transition_expr:
 			transition_expr.append(expr)
-		matrix[t[0],t[1]] = transition_expr.index(expr)
+			matrix[t[0],t[1]] = len(transition_expr)-1 if expr != 0 else 0
+		else:
+			matrix[t[0],t[1]] = transition_expr.index(expr)
 		for p in expr.free_symbols:
 			parameter_indexes[parameter_str.index(str(p))].append([t[0],t[1]])
 
-- 
2.43.0


From 127219c9e38bcfd854b333932809276b95841065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 19/79] fix: untimed loglikelihood is not defined for PCTMCs,
 and impossible timed traces crash it

---
 jajapy/base/Parametric_Model.py | 5 +++++
 jajapy/pctmc/PCTMC.py           | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index a6e29e0..0ccea98 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -334,6 +334,11 @@ class Parametric_Model(Model):
 		self._checkStateIndex(state)
 		return self.labelling[state]
 	
+	def b(self,state:int, label:str) -> float:
+		if self.getLabel(state) == label:
+			return 1.0
+		return 0.0
+
 	def getAlphabet(self) -> list:
 		"""
 		Returns the alphabet of this model.
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index c1eeb30..584bde8 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -334,7 +334,10 @@ class PCTMC(Parametric_Model):
 				new_arr[s] = dot(prev_arr,p)
 			prev_arr = new_arr
 		last_arr = prev_arr * (array(self.labelling) == obs_seq[-1])
-		return log(last_arr.sum())*times
+		try:
+			return log(last_arr.sum())*times
+		except ValueError:
+			return False
 
 	def logLikelihood(self,traces: Set) -> float:
 		"""
-- 
2.43.0


From 51cb2bab96b658576748c93520ae5594441f4b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 20/79] fix: createGoHMM always crashes

---
 jajapy/gohmm/GoHMM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 21e134a..cdf924e 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -317,7 +317,7 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-	output = array((nb_states,nb_distributions,2))
+	output = array(output)
 	for s,ts in enumerate(output):
 		for i,t in enumerate(ts):
 			output[s,i][0] = t[0]
-- 
2.43.0


From e92572c5453113a99fd15a17d7371e04e6e73e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 21/79] fix: loglikelihood of a MC with terminal states depends
 on the platform

---
 jajapy/base/Model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 78f6f0b..00f66b0 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -331,8 +331,9 @@ class Model:
 					common += 1
 					
 			alpha_matrix = self._updateAlphaMatrix(sequence,common,alpha_matrix)
-			if alpha_matrix[-1].sum() > 0:
-				loglikelihood += log(alpha_matrix[-1].sum()) * times
+			last_arr = alpha_matrix[len(sequence)-1]*array([self.b(s,sequence[-1]) for s in range(self.nb_states)])
+			if last_arr.sum() > 0:
+				loglikelihood += log(last_arr.sum()) * times
 
 		return loglikelihood / sum(sequences.times)
 
-- 
2.43.0


From d4bbf7d1a20aa0ab7a3d9681a48bb45e3264e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 22/79] fix: merging a set into an empty one turns the counts
 into floats and the saved file unreadable

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index b3f0452..479cdcd 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -198,7 +198,7 @@ class Set:
 		for i in range(len(s2.sequences)):
 			if not s2.sequences[i] in self.sequences:
 				self.sequences.append(s2.sequences[i])
-				self.times = append(self.times, s2.times[i])
+				self.times = append(self.times, s2.times[i]) if len(self.times) > 0 else array([s2.times[i]])
 			else:
 				self.times[self.sequences.index(s2.sequences[i])] += s2.times[i]
 	
-- 
2.43.0


From b4244898e79987f76828964fcdc4164b5895b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 23/79] fix: a set whose first trace has one element cannot be
 created

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 479cdcd..cd00d22 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -34,7 +34,7 @@ class Set:
 		if t != None:
 			self.type = t
 		else:
-			if (type(sequences[0][1])  == float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
+			if len(sequences[0]) > 1 and (type(sequences[0][1])  == float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
 				self.type = 4 # timed CTMC
 			elif type(sequences[0][0])  == list:
 				self.type = 3 # GoHMM
-- 
2.43.0


From 9b087eae7373b54ccf96978d8131cac18724ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 24/79] fix: Alergia and IOAlergia crash when asked to save a
 Prism file

---
 jajapy/mc/Alergia.py    | 2 +-
 jajapy/mdp/IOAlergia.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 0f915c3..3350f4e 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -215,7 +215,7 @@ class Alergia:
 			stormpy_output = False
 		
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d26bec4..2f03f1e 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -553,7 +553,7 @@ class IOAlergia:
 
 
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 		
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
-- 
2.43.0


From 366c39956d5ad5d62a43c0821714705c553ee124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 25/79] fix: IOAlergia stores transitions under the wrong
 action where an action is not available

---
 jajapy/mdp/IOAlergia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 2f03f1e..2b9d09a 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -407,7 +407,7 @@ class IOFPTA:
 		transitions = zeros((len(states)+1,len(actions),len(states)+1))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
-			for ai,a in enumerate([a for a in actions if s.actionAllowed(a)]):
+			for ai,a in [(ai,a) for ai,a in enumerate(actions) if s.actionAllowed(a)]:
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-- 
2.43.0


From 681ce5aad2dfc4cd8a7cacaaab452c7c781a448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 26/79] fix: IOAlergia adds a second initial state to a model
 learned from traces starting with 'init'

---
 jajapy/mdp/IOAlergia.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 2b9d09a..13143b9 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -412,6 +412,8 @@ class IOFPTA:
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
 		transitions[-1][0][0] = 1.0
+		if 'init' in labelling[:-1]:
+			labelling, transitions = labelling[:-1], transitions[:-1,:,:-1]
 		return MDP(transitions, labelling, actions)
 
 
-- 
2.43.0


From 67b89ef23f5216b8add189e0000752e7d2405981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 27/79] fix: FiniteMemoryScheduler.getSequenceStates calls a
 method that does not exist

---
 jajapy/mdp/Scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Scheduler.py b/jajapy/mdp/Scheduler.py
index adadd28..78377d8 100644
--- a/jajapy/mdp/Scheduler.py
+++ b/jajapy/mdp/Scheduler.py
@@ -180,7 +180,7 @@ class FiniteMemoryScheduler:
 		self.reset()
 		res = [0]
 		for o in seq_obs:
-			self.add_observation(o)
+			self.addObservation(o)
 			res.append(self.s)
 		return res
 
-- 
2.43.0


From 36de83af15ce35e682202d2a8794ac37a3d43c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 28/79] fix: a MDP cannot run under a memoryless scheduler

---
 jajapy/mdp/MDP.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 21f2149..fa2bd85 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -2,7 +2,7 @@ from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
 from math import log
 from ..base.Base_MC import *
 from ..base.Set import Set
-from .Scheduler import Scheduler
+from .Scheduler import Scheduler, MemorylessScheduler
 import numpy.random
 from numpy import array, append, dot, zeros, vsplit, reshape, vstack, append, concatenate
 from ast import literal_eval
@@ -205,7 +205,12 @@ class MDP(Base_MC):
 		scheduler.reset()
 		current_len = 0
 		while current_len < number_steps:
-			action = scheduler.getAction()
+			if isinstance(scheduler, MemorylessScheduler):
+				action = scheduler.getAction(current)
+				if action not in self.getActions(current):
+					raise ValueError("action "+str(action)+" is not available in state "+str(current))
+			else:
+				action = scheduler.getAction()
 
 			while action not in self.getActions(current):
 				action = scheduler.getAction()
-- 
2.43.0


From de58f84609f68e1185b952edddc9cf214e8f257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 29/79] fix: a MDP run hangs in a state without any available
 action

---
 jajapy/mdp/MDP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index fa2bd85..e2b857e 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -205,6 +205,8 @@ class MDP(Base_MC):
 		scheduler.reset()
 		current_len = 0
 		while current_len < number_steps:
+			if len(self.getActions(current)) == 0:
+				raise ValueError("no action is available in state "+str(current))
 			if isinstance(scheduler, MemorylessScheduler):
 				action = scheduler.getAction(current)
 				if action not in self.getActions(current):
-- 
2.43.0


From ea0aa8c1ecae8179110d39404279f340499a5043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 30/79] fix: the create functions alter the caller's labelling
 and transitions lists

---
 jajapy/base/Base_MC.py | 2 +-
 jajapy/ctmc/CTMC.py    | 2 +-
 jajapy/mc/MC.py        | 2 +-
 jajapy/mdp/MDP.py      | 2 +-
 jajapy/pctmc/PCTMC.py  | 3 ++-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index a2a8ca3..4f21bf6 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -48,7 +48,7 @@ class Base_MC(Model):
 			must be equal to the number of states.
 		""" 
 		if len(new_labels) == self.nb_states-1:
-			new_labels.append("init")
+			new_labels = new_labels+["init"]
 		if 'init' in new_labels:
 			self.labelling = new_labels
 			self.alphabet = list(set(new_labels))
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 6f76f33..456d4db 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -490,7 +490,7 @@ def createCTMC(transitions: list, labelling: list, initial_state,
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mc/MC.py b/jajapy/mc/MC.py
index a7834b0..328d5c7 100644
--- a/jajapy/mc/MC.py
+++ b/jajapy/mc/MC.py
@@ -335,7 +335,7 @@ def createMC(transitions: list, labelling: list, initial_state, name: str ="unkn
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index e2b857e..1816d21 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -592,7 +592,7 @@ def createMDP(transitions:list, labelling:list, initial_state, name: str ="unkno
 	for t in transitions:
 		res[states.index(t[0])][actions.index(t[1])][states.index(t[2])] = t[3]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros((1,nb_actions,nb_states))))
 	res = concatenate((res,zeros((nb_states+1,nb_actions,1))),axis=2)
 	if type(initial_state) == int:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 584bde8..7baaf4f 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -507,7 +507,8 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 		msg =  "The label 'init' cannot be used: it is reserved for initial states."
 		raise SyntaxError(msg)
 	
-	labelling.append('init')
+	labelling = labelling+['init']
+	transitions = transitions[:]
 	
 	states = [i[0] for i in transitions]+[i[1] for i in transitions]
 	states += [i[0] for i in synchronous_transitions]+[i[2] for i in synchronous_transitions]
-- 
2.43.0


From d963879d95f54b2f85d2f97ac4a1d34f66d9be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 31/79] fix: files describing another kind of model are loaded
 as CTMC, HMM or GoHMM

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/gohmm/GoHMM.py | 2 +-
 jajapy/hmm/HMM.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 456d4db..7ca15bf 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -337,7 +337,7 @@ def loadCTMC(file_path: str) -> CTMC:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "CTMC":
-		print("ERROR: this file doesn't describe an CTMC: it describes a "+l)
+		raise ValueError("this file doesn't describe an CTMC: it describes a "+l)
 	labelling = literal_eval(f.readline()[:-1])
 	name = f.readline()[:-1]
 	initial_state = array(literal_eval(f.readline()[:-1]))
diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index cdf924e..2fbfd3e 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -208,7 +208,7 @@ def loadGoHMM(file_path: str) -> GoHMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "GoHMM":
-		print("ERROR: this file doesn't describe an GoHMM: it describes a "+l)
+		raise ValueError("this file doesn't describe an GoHMM: it describes a "+l)
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
 	name = f.readline()[:-1]
diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index 2b40bff..d68ba82 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -169,7 +169,7 @@ def loadHMM(file_path: str) -> HMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "HMM":
-		print("ERROR: this file doesn't describe an HMM: it describes a "+l)
+		raise ValueError("this file doesn't describe an HMM: it describes a "+l)
 	alphabet = literal_eval(f.readline()[:-1])
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
-- 
2.43.0


From f13ca5de650b9fd541c613dbaa44e4cc4a568243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 32/79] fix: an interrupted save leaves a set file that loads
 as a different, smaller set

---
 jajapy/base/Set.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index cd00d22..d1a91e9 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from os import replace
 from numpy import float64, array, append
 class Set:
 	"""
@@ -56,12 +57,13 @@ class Set:
 		file_path: str
 			where to save
 		"""
-		f = open(file_path,'w')
+		f = open(file_path+'.tmp','w')
 		f.write(str(self.type)+'\n')
 		for i in range(len(self.sequences)):
 			f.write(str(self.sequences[i])+'\n')
 			f.write(str(self.times[i])+'\n')
 		f.close()
+		replace(file_path+'.tmp',file_path)
 
 	def setFromList(self, l: list) -> None:
 		"""
-- 
2.43.0


From fc977e8d3a4cf6a3878f3bab4c69c0afcdcd3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 33/79] fix: active learning crashes on a training set given as
 a list

---
 jajapy/mdp/Active_BW_MDP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index abb9f1e..e7ba434 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -203,6 +203,8 @@ class Active_BW_MDP(BW):
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
+		if type(traces) != Set:
+			traces = Set(list(traces),t=1)
 		counter = 0
 		self.sul = sul
 		start_time = perf_counter()
-- 
2.43.0


From b594e2e285afe521610a1525fca9d411ea76ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 34/79] fix: active sampling never ends in states with one
 available action or no visit

---
 jajapy/mdp/Active_BW_MDP.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index e7ba434..8e83600 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -1,7 +1,7 @@
 from .Scheduler import UniformScheduler
 from ..base.BW import BW
 from ..base.Set import Set
-from ..base.tools import resolveRandom
+from ..base.tools import resolveRandom, normalize
 from multiprocessing import Pool
 from random import random
 from numpy import zeros, dot, array, inf
@@ -31,6 +31,7 @@ class ActiveLearningScheduler:
 		Resets the scheduler. Should be done before genereting a new trace.
 		"""
 		self.last_act = None
+		self.refused = []
 		self.alpha_matrix = array([self.m.pi(s) for s in range(self.nb_states)])
 	
 	def getActionState(self,s:int) -> str:
@@ -49,8 +50,10 @@ class ActiveLearningScheduler:
 			Action chosen by the scheduler.
 		"""
 		tot = self.mat[s].sum()
-		acts = [(tot-i)/(tot*(self.m.nb_actions-1)) for i in self.mat[s]]
-		return resolveRandom(acts)
+		acts = [0.0 if i in self.refused else tot-v for i,v in enumerate(self.mat[s])]
+		if sum(acts) <= 0.0:
+			acts = [0.0 if i in self.refused else 1.0 for i in range(self.m.nb_actions)]
+		return resolveRandom(normalize(acts))
 
 
 	def getAction(self) -> str:
@@ -67,6 +70,10 @@ class ActiveLearningScheduler:
 			t = [1/len(self.alpha_matrix)]*len(self.alpha_matrix)
 		else:
 			t = [i/tot for i in self.alpha_matrix]
+		if self.last_act is not None: # asked again: this action was refused
+			self.refused.append(self.last_act)
+			if len(set(self.refused)) == self.m.nb_actions:
+				self.refused = []
 		s_i = resolveRandom(t)
 		self.last_act = self.getActionState(s_i)
 		return self.m.actions[self.last_act]
@@ -90,6 +97,8 @@ class ActiveLearningScheduler:
 				p = array([self.m.tau(ss,self.m.actions[self.last_act],s,obs) for ss in range(self.nb_states)])
 				alpha_matrix[s] = dot(self.alpha_matrix,p)
 			self.alpha_matrix = alpha_matrix
+		self.last_act = None
+		self.refused = []
 
 
 class Active_BW_MDP(BW):
-- 
2.43.0


From 2f2095180e9668e1703d0a628905728cee3ce260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 35/79] fix: learning and loglikelihood hang forever when a
 worker process dies

---
 jajapy/base/BW.py           | 10 ++++------
 jajapy/base/Model.py        | 11 ++++-------
 jajapy/base/tools.py        | 28 ++++++++++++++++++++++++++++
 jajapy/ctmc/CTMC.py         | 11 ++++-------
 jajapy/mdp/Active_BW_MDP.py |  9 ++-------
 jajapy/mdp/MDP.py           | 11 ++++-------
 jajapy/pctmc/PCTMC.py       | 11 ++++-------
 7 files changed, 50 insertions(+), 41 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 875433d..b194029 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1,10 +1,11 @@
 from sys import platform
-from multiprocessing import cpu_count, Pool
+from multiprocessing import cpu_count
 from numpy.polynomial.polynomial import polyroots
 from numpy import array, dot, append, zeros, ones, float64, inf, ndarray, log, isnan, sqrt, stack, longdouble, float16, where, delete, newaxis, full, infty, empty
 from math import exp
 from time import perf_counter
 from .Set import Set
+from .tools import runTasks
 from alive_progress import alive_bar
 from .Model import MC_ID, MDP_ID, CTMC_ID, PCTMC_ID, HMM_ID, GOHMM_ID
 from sympy import sympify
@@ -1645,11 +1646,8 @@ class BW:
 	
 	def _runProcesses(self,training_set):
 		if self.processes > 1:
-			p = Pool(processes = self.processes)
-			tasks = []
-			for seq,times in zip(training_set.sequences,training_set.times):
-				tasks.append(p.apply_async(self._processWork, [seq, times,]))
-			return [res.get() for res in tasks if res.get() != False]
+			res = runTasks(self._processWork,zip(training_set.sequences,training_set.times),self.processes)
+			return [r for r in res if r is not False]
 		else:
 			res = [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
 			return [r for r in res if r is not False]
diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 00f66b0..3f056bf 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -1,9 +1,9 @@
 from math import  log
-from .tools import resolveRandom
+from .tools import resolveRandom, runTasks
 from .Set import Set
 from numpy import array, where, append, dot, zeros, vsplit
 from numpy.random import geometric
-from multiprocessing import cpu_count, Pool
+from multiprocessing import cpu_count
 from sys import platform
 from math import log
 
@@ -338,11 +338,8 @@ class Model:
 		return loglikelihood / sum(sequences.times)
 
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = max(1,cpu_count()-1))
-		tasks = []
-		for seq,times in zip(sequences.sequences,sequences.times):
-			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
-		temp = [res.get() for res in tasks if res.get() != False]
+		temp = runTasks(self._computeAlphas,zip(sequences.sequences,sequences.times),max(1,cpu_count()-1))
+		temp = [res for res in temp if res != False]
 		s = sum(temp)
 		if s == 0.0:
 			print('WARNING: the model is not able to generate any sequence in the set')
diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index 6eaea40..2207f19 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -3,6 +3,34 @@ from scipy.stats import norm
 from numpy import nditer, array, ndarray, nonzero
 from numpy.random import randint
 from math import log,sqrt
+from concurrent.futures import ProcessPoolExecutor
+
+def runTasks(function, tasks, processes: int) -> list:
+	"""
+	Executes ``function`` on each element of ``tasks``, in parallel.
+	Raises ``concurrent.futures.process.BrokenProcessPool`` if one of the
+	worker processes is terminated abruptly.
+
+	Parameters
+	----------
+	function: function
+		the function to execute.
+	tasks: iterable of tuple
+		the arguments of each execution.
+	processes: int
+		number of worker processes.
+
+	Returns
+	-------
+	list
+		the results, in the order of ``tasks``.
+	"""
+	p = ProcessPoolExecutor(max_workers=processes)
+	try:
+		futures = [p.submit(function,*args) for args in tasks]
+		return [f.result() for f in futures]
+	finally:
+		p.shutdown(cancel_futures=True)
 
 def normpdf(x: float, params: list, variation:float = 0.01) -> float:
 	"""
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 7ca15bf..7c3a881 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -1,6 +1,6 @@
 import numpy.random
 from ast import literal_eval
-from ..base.tools import resolveRandom, randomProbabilities
+from ..base.tools import resolveRandom, randomProbabilities, runTasks
 from ..base.Set import Set
 from ..mc.MC import MC
 from ..pctmc.PCTMC import PCTMC
@@ -9,7 +9,7 @@ from math import exp, log
 from random import randint
 from numpy import array, zeros, dot, vstack, hstack, newaxis, delete, insert, inf
 from sys import platform
-from multiprocessing import cpu_count, Pool
+from multiprocessing import cpu_count
 from sympy import sympify
 
 class CTMC(Base_MC):
@@ -249,11 +249,8 @@ class CTMC(Base_MC):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = max(1,cpu_count()-1))
-				tasks = []
-				for seq,times in zip(traces.sequences,traces.times):
-					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = runTasks(self._computeAlphas_timed,zip(traces.sequences,traces.times),max(1,cpu_count()-1))
+				temp = [res for res in temp if res != False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
 				while False in temp:
diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 8e83600..9b5b7ef 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -1,8 +1,7 @@
 from .Scheduler import UniformScheduler
 from ..base.BW import BW
 from ..base.Set import Set
-from ..base.tools import resolveRandom, normalize
-from multiprocessing import Pool
+from ..base.tools import resolveRandom, normalize, runTasks
 from random import random
 from numpy import zeros, dot, array, inf
 from time import perf_counter
@@ -341,11 +340,7 @@ class Active_BW_MDP(BW):
 
 	def _strategy(self,traces:Set) -> array:
 		if self.processes > 1:
-			p = Pool(processes = self.processes)
-			tasks = []
-			for seq,times in zip(traces.sequences,traces.times):
-				tasks.append(p.apply_async(self._computeProbas, [seq, times,]))
-			temp = [res.get() for res in tasks]
+			temp = runTasks(self._computeProbas,zip(traces.sequences,traces.times),self.processes)
 		else:
 			temp = [self._computeProbas(seq, times) for seq,times in zip(traces.sequences,traces.times)]
 		temp = [i for i in temp if i is not False]
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 1816d21..0834d15 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -1,4 +1,4 @@
-from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
+from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities, runTasks
 from math import log
 from ..base.Base_MC import *
 from ..base.Set import Set
@@ -6,7 +6,7 @@ from .Scheduler import Scheduler, MemorylessScheduler
 import numpy.random
 from numpy import array, append, dot, zeros, vsplit, reshape, vstack, append, concatenate
 from ast import literal_eval
-from multiprocessing import cpu_count, Pool
+from multiprocessing import cpu_count
 
 class MDP(Base_MC):
 	"""
@@ -413,11 +413,8 @@ class MDP(Base_MC):
 		return alpha_matrix
 	
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = max(1,cpu_count()-1))
-		tasks = []
-		for seq,times in zip(sequences.sequences,sequences.times):
-			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
-		temp = [res.get() for res in tasks if res.get() != False]
+		temp = runTasks(self._computeAlphas,zip(sequences.sequences,sequences.times),max(1,cpu_count()-1))
+		temp = [res for res in temp if res != False]
 		return sum(temp)/sum(sequences.times)
 	
 	def _computeAlphas(self,sequence: list, times: int) -> float:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 7baaf4f..cf25cb2 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -1,9 +1,9 @@
-from ..base.tools import resolveRandom
+from ..base.tools import resolveRandom, runTasks
 from ..base.Parametric_Model import *
 from numpy import  zeros, dot, newaxis, hstack, inf, vstack, delete
 from numpy.random import exponential, rand, seed
 from math import exp, log
-from multiprocessing import cpu_count, Pool
+from multiprocessing import cpu_count
 from sys import platform
 
 class PCTMC(Parametric_Model):
@@ -360,11 +360,8 @@ class PCTMC(Parametric_Model):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = max(1,cpu_count()-1))
-				tasks = []
-				for seq,times in zip(traces.sequences,traces.times):
-					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = runTasks(self._computeAlphas_timed,zip(traces.sequences,traces.times),max(1,cpu_count()-1))
+				temp = [res for res in temp if res != False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
 			return sum(temp)/sum(traces.times)
-- 
2.43.0


From 3eed2d20ecf6c77a976bc7be8bd68aaeeb23b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 36/79] fix: learning a GoHMM replaces the deviation of never
 visited states by its square root

---
 jajapy/base/BW.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index b194029..af1e4da 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -844,6 +844,7 @@ class BW:
 			if den[s] == 0.0:
 				den[s] = 1.0
 				mu[s], va[s] = self.h.output[s].T
+				va[s] = va[s]**2 # its square root is taken below
 				a[s] = self.h.matrix[s]
 		
 		output_mu = (mu.T/den).T
-- 
2.43.0


From 91624dcbce57c5b0497348c410de0ae781f9dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 37/79] fix: constant rates of a PCTMC learned from untimed
 traces are on another time scale than its parameters

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index af1e4da..8b3de32 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1092,7 +1092,7 @@ class BW:
 						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
 					else:
 						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/proba_seq).sum()
+						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
 					num_cste[itrans+1] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
-- 
2.43.0


From 30d0f32f875f5a9a6e6c3b061e0dc2f798ff85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 38/79] fix: PCTMC learning handles unvisited and
 complex-rooted parameter equations

A parameter whose transitions are never visited by the training set gives an
equation without any root (the fit crashed), and an equation of degree 3 gives
complex roots (the parameter became a complex number).
---
 jajapy/base/BW.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 8b3de32..57817ae 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1193,7 +1193,10 @@ class BW:
 
 		for p in range(len(self.parameters_cat[2])):
 			temp = array([i[p] for i in terms_cat3], dtype=float).sum(axis=0)
-			values.append(max(polyroots(temp)))
+			if not temp[1:].any(): # none of its transitions has been visited
+				values.append(self.h.parameter_values[self.parameters_cat[2][p]])
+			else:
+				values.append(max([r.real for r in polyroots(temp) if abs(r.imag) < 1e-9]))
 
 		self.h.instantiate(parameters,values)
 		return currentloglikelihood
-- 
2.43.0


From d1602685dda4f311643fbeb56baa00b89cc29643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 39/79] fix: PCTMC learning goes on when a parameter is
 estimated to zero

The equation of a parameter shared by several transitions was divided by a
power of its current value, so that the round after the one that estimated
zero failed on not-a-number coefficients.
---
 jajapy/base/BW.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 57817ae..57c5a16 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1133,6 +1133,9 @@ class BW:
 		for iparam,param in enumerate(self.parameters_cat[2]):
 			p_index = self.h.parameter_str.index(param)
 			temp = [0.0]
+			if self.h.parameter_values[param] == 0.0: # zero remains zero
+				terms_cat3.append(array(temp))
+				continue
 			for s,ss in self.h.parameterIndexes(param):
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-- 
2.43.0


From 334caa6b32647f1d0723eab4cbdbf1b2c865d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 40/79] fix: untimed learning goes on when a state has no rate
 left (PCTMC and CTMC)

On untimed traces, once the parameters leaving a state were estimated to zero,
every quantity of that state was divided by its exit rate and the other
parameters became not-a-number.
---
 jajapy/base/BW.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 57c5a16..79956ad 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -727,7 +727,7 @@ class BW:
 					if timed:
 						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 					else:
-						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq]) # not sure
+						p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq]) # not sure
 					num[s,ss] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 				else:
 					num[s,ss] = 0.0
@@ -1091,8 +1091,8 @@ class BW:
 						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
 					else:
-						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
+						p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
+						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/((self._h_e(s) or 1.0)*proba_seq)).sum()
 					num_cste[itrans+1] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
@@ -1107,13 +1107,13 @@ class BW:
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 				else:
-					p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+					p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
 
 				if p.sum()>0.0:
 					if timed:
 						den_cat1[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.c_pis[s,ss]*times/proba_seq).sum()
 					else:
-						den_cat1[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.c_pis[s,ss]*times/(self._h_e(s)*proba_seq)).sum()
+						den_cat1[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.c_pis[s,ss]*times/((self._h_e(s) or 1.0)*proba_seq)).sum()
 					num_cat1[iparam] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		num_cat2 = zeros(len(self.parameters_cat[1]))
@@ -1125,8 +1125,8 @@ class BW:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()
 				else:
-					p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/(proba_seq*self._h_e(s))).sum()
+					p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
+					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/(proba_seq*(self._h_e(s) or 1.0))).sum()
 				num_cat2[iparam] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],self.a_pis[s,ss,p_index]*times/proba_seq).sum()
 
 		terms_cat3 = []
@@ -1140,7 +1140,7 @@ class BW:
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 				else:
-					p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
+					p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
 				temp[0] -= dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],self.a_pis[s,ss,p_index]*times/proba_seq).sum()
 				c = self._C(s,ss)
 				for _ in range(1+c-len(temp)):
@@ -1148,7 +1148,7 @@ class BW:
 				if timed:
 					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self.h.parameter_values[param]**c)
 				else:
-					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self._h_e(s)*self.h.parameter_values[param]**c)
+					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/((self._h_e(s) or 1.0)*self.h.parameter_values[param]**c)
 
 			terms_cat3.append(array(temp))
 
-- 
2.43.0


From a438344805b520ec2d15bc6a1efbe89ffdf8b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 41/79] fix: a BW learner can be used for several models

The methods selected for one kind of model (MDP, PCTMC, timed traces...) stayed
selected when the same BW object was used later to learn another kind.
---
 jajapy/base/BW.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 79956ad..40481a5 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -172,6 +172,14 @@ class BW:
 						stormpy_output,return_data)
 
 
+	def _resetMethods(self):
+		"""
+		Forgets the methods selected for the previous learning.
+		"""
+		for m in ['_update','_processWork','_computeTaus','_computeAlphas',
+				'_computeBetas','_h_e','_h_l','_h_tau']:
+			self.__dict__.pop(m,None)
+
 	def _preparation(self,training_set,initial_model=None, nb_states: int=None,
 			random_initial_state: bool=True, min_exit_rate_time : int=None,
 			max_exit_rate_time: int=None, self_loop: bool =None,
@@ -179,6 +187,7 @@ class BW:
 			stormpy_output: bool = True,fixed_parameters: ndarray = False,
 			update_constant :bool = True, min_val: float = None, max_val: float = None):	
 
+		self._resetMethods()
 		self._getInitialModel(initial_model,nb_states)
 		self._getTrainingSet(training_set)
 		if self.h == None:
@@ -1327,6 +1336,7 @@ class BW:
 			- the dictionary described above,
 			- the `returned_data` (see parameter description).
 		"""
+		self._resetMethods()
 		self.type_model = PCTMC_ID
 		self.verbose = verbose
 		if platform == "win32" or platform == "darwin":
-- 
2.43.0


From 78cce868ce11ba257dd57bfd8f3c7b0b5db56b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 42/79] fix: MDP.logLikelihood without multiprocessing counts
 every entry of the set

The number of occurrences was looked up with the first entry equal to the
sequence: a set containing twice the same sequence was not counted correctly.
---
 jajapy/mdp/MDP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 0834d15..44ae056 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -339,15 +339,15 @@ class MDP(Base_MC):
 		output: float
 			loglikelihood of ``sequences`` under this model.
 		"""
-		sequences_sorted = sequences.sequences[:]
-		sequences_sorted.sort()
+		order = sorted(range(len(sequences.sequences)),key=sequences.sequences.__getitem__)
+		sequences_sorted = [sequences.sequences[i] for i in order]
 		loglikelihood = 0.0
 		alpha_matrix = self._initAlphaMatrix(len(sequences_sorted[0])//2)
 		for seq in range(len(sequences_sorted)):
 			sequence_actions = [sequences_sorted[seq][i+1] for i in range(0,len(sequences_sorted[seq])-1,2)]
 			sequence_obs = [sequences_sorted[seq][i] for i in range(0,len(sequences_sorted[seq])-1,2)]
 			sequence = sequences_sorted[seq]
-			times = sequences.times[sequences.sequences.index(sequence)]
+			times = sequences.times[order[seq]]
 			common = 0
 			if seq > 0:
 				while common < min(len(sequences_sorted[seq-1]),len(sequence)):
-- 
2.43.0


From fe951cd862bb6ed5576ab0dd8b0dd5cc0eeaf239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 43/79] fix: Alergia miscounts a trace stored twice in the
 training set

---
 jajapy/mc/Alergia.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 3350f4e..fa5dae7 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -239,10 +239,6 @@ class Alergia:
 		self.createPTA(traces)
 
 	def createPTA(self,traces):
-		temp1 = traces.sequences[:]
-		temp2 = traces.times[:]
-		traces.sequences.sort()
-		traces.times = [temp2[temp1.index(i)] for i in traces.sequences]
 		self.T = PTA(traces)
 		
 		
-- 
2.43.0


From e2b76ddd3ad79bc701e2efe9bb17d631dccb23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 44/79] fix: a CTMC converted to stormpy has its probabilities
 as rates

---
 jajapy/with_stormpy/model_converter.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 8427366..25bcb86 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -4,11 +4,10 @@ from ..mc.MC import MC
 from ..mdp.MDP import MDP
 from ..ctmc.CTMC import CTMC
 from ..pctmc.PCTMC import PCTMC
-from copy import deepcopy
 import os
 from sympy import symbols, sympify
 
-def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
+def stormpyModeltoJajapy(h,actions_name:list = []):
 	"""
 	Given a stormpy.SparseCtmc, stormpy.SparseDtmc, stormpy.SparseMdp, or
 	stormpy.SparseParametricCtmc, it returns the equivalent jajapy model.
@@ -107,8 +106,6 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 						t_expr.append(t_val)
 					else:
 						matrix[c][dest] = t_expr.index(t_val)
-		if ty == 1 and not from_prism:
-			matrix[c] *= h.exit_rates[si]
 	
 	if add_init_state != None:
 		#matrix = vstack((matrix,matrix[add_init_state]))
@@ -251,10 +248,8 @@ def CTMCtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	transition_matrix = deepcopy(h.matrix)
 	e = array([h.e(s) for s in range(h.nb_states)])
-	transition_matrix /= e[:,newaxis]
-	transition_matrix =  st.build_sparse_matrix(transition_matrix)
+	transition_matrix =  st.build_sparse_matrix(h.matrix)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
 										  rate_transitions=True)
@@ -322,5 +317,5 @@ def loadPrism(path: str):
 	else:
 		os.system('cls')
 
-	jajapy_model = stormpyModeltoJajapy(stormpy_model,from_prism=True)
+	jajapy_model = stormpyModeltoJajapy(stormpy_model)
 	return jajapy_model
\ No newline at end of file
-- 
2.43.0


From 9fa8081211abbb8f09a7a8a6c2279fb405d6a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 45/79] fix: a MDP converted to stormpy or loaded from Prism
 mixes up unavailable actions

---
 jajapy/with_stormpy/model_converter.py | 55 ++++++++++++++++----------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 25bcb86..42694f9 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -1,5 +1,5 @@
 import stormpy as st
-from numpy import zeros, array, newaxis, reshape, vstack, concatenate, hstack, newaxis, nan, full
+from numpy import zeros, array, newaxis, vstack, concatenate, hstack, newaxis, nan, full
 from ..mc.MC import MC
 from ..mdp.MDP import MDP
 from ..ctmc.CTMC import CTMC
@@ -22,7 +22,8 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	actions_name : list of str, optional.
 		If the model is an MDP, the name of the actions in the output
 		model will be the one in this list. Otherwise they will be
-		`a0,a1,a2,...`.
+		the labels of the choices if each choice has exactly one label,
+		`a0,a1,a2,...` if not.
 
 	Returns
 	-------
@@ -44,14 +45,15 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	
 	labelling = [None for _ in range(len(h.states))]
 	if ty == 2:
-		actions = []
-		for s in h.states:
-			for a in s.actions:
-				if len(actions_name) <= int(str(a)):
-					actions.append('a'+str(a))
-				else:
-					actions.append(actions_name[int(str(a))])
-		actions = list(dict.fromkeys(actions))
+		labelled = h.has_choice_labeling()
+		if labelled:
+			labelled = all([len(a.labels) == 1 for s in h.states for a in s.actions if len(a.transitions) > 0])
+		action_id = lambda a : list(a.labels)[0] if labelled else int(str(a))
+		ids = sorted(set([action_id(a) for s in h.states for a in s.actions if len(a.transitions) > 0]))
+		if labelled and set(ids).issubset(actions_name):
+			ids = list(dict.fromkeys(actions_name))
+		actions = [i if labelled else 'a'+str(i) for i in ids]
+		actions[:len(actions_name)] = actions_name[:len(actions)]
 		matrix = zeros((len(h.states),len(actions),len(h.states)))
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
@@ -81,10 +83,12 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 
 		for a in s.actions:
 			for t in a.transitions:
+				if ty == 2:
+					ia = ids.index(action_id(a))
 				dest = t.column
 				t_val = t.value()
 				if ty == 2:
-					matrix[c][int(str(a))][dest] = t_val
+					matrix[c][ia][dest] = t_val
 				elif ty == 1 or ty == 0:
 					matrix[c][dest] = t_val
 				else:
@@ -191,16 +195,22 @@ def MDPtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	nb_actions = len(h.getActions())
-	transition_matrix = h.matrix
-	transition_matrix = reshape(transition_matrix.flatten(),(h.nb_states*nb_actions,h.nb_states))
-	transition_matrix =  st.build_sparse_matrix(transition_matrix,[nb_actions*i for i in range(h.nb_states)])
-	choice_labelling = st.storage.ChoiceLabeling(h.nb_states*nb_actions)
-	for ia,a in enumerate(h.getActions()):
+	rows, groups, choices = [], [], []
+	for s in range(h.nb_states):
+		groups.append(len(rows))
+		# only the actions available in s, all of them if there is none
+		available = [i for i in range(len(h.actions)) if (h.matrix[s][i] > 0.0).any()]
+		for i in available or range(len(h.actions)):
+			rows.append(h.matrix[s][i])
+			choices.append(h.actions[i])
+	transition_matrix =  st.build_sparse_matrix(array(rows),groups)
+	choice_labelling = st.storage.ChoiceLabeling(len(choices))
+	for a in h.getActions():
 		choice_labelling.add_label(a)
-		choice_labelling.add_label_to_choice(a,ia)
+	for i,a in enumerate(choices):
+		choice_labelling.add_label_to_choice(a,i)
 	reward_models = {}
-	action_reward = [-1.0 for _ in range(len(transition_matrix))]
+	action_reward = [-1.0 for _ in choices]
 	reward_models["nb_executed_actions"] = st.SparseRewardModel(optional_state_action_reward_vector = action_reward)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
@@ -308,7 +318,12 @@ def loadPrism(path: str):
 	except RuntimeError:
 		prism_program = st.parse_prism_program(path,True)
 	try:
-		stormpy_model = st.build_model(prism_program)
+		if prism_program.model_type == st.PrismModelType.MDP:
+			options = st.BuilderOptions(True,True)
+			options.set_build_choice_labels()
+			stormpy_model = st.build_sparse_model_with_options(prism_program,options)
+		else:
+			stormpy_model = st.build_model(prism_program)
 	except RuntimeError:
 		stormpy_model = st.build_parametric_model(prism_program)
 
-- 
2.43.0


From 2c3f5ade1e804c41923e02bc9ad0e725a841aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 46/79] fix: a deterministic random MDP crashes with more
 labels than states and has a non-deterministic start

---
 jajapy/mdp/MDP.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 44ae056..edafd51 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -508,7 +508,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-	alphabet = list(dict.fromkeys(labelling))
+	alphabet = list(dict.fromkeys(labelling[:nb_states]))
 	matrix = []
 	for s in range(nb_states):
 		if not deterministic:
@@ -518,7 +518,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 		else:
 			matrix.append([])
 			for a in actions:
-				dest = [choices(where(array(labelling) == o)[0]) for o in alphabet]
+				dest = [choices(where(array(labelling[:nb_states]) == o)[0]) for o in alphabet]
 				p = zeros(nb_states)
 				probs = randomProbabilities(len(alphabet))
 				for i,j in zip(dest,probs):
@@ -526,7 +526,12 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 				matrix[-1].append(append(p,0.0))
 
 	if random_initial_state:
-		init = randomProbabilities(nb_states).tolist()+[0.0]
+		if not deterministic:
+			init = randomProbabilities(nb_states).tolist()+[0.0]
+		else:
+			init = zeros(nb_states+1)
+			for o,p in zip(alphabet,randomProbabilities(len(alphabet))):
+				init[choices(where(array(labelling[:nb_states]) == o)[0])] = p
 	else:
 		init = [1.0]+[0.0 for i in range(nb_states)]
 	matrix.append(array([init for a in actions]))
-- 
2.43.0


From 454f2a61bab3c03cd688ea5b6204b60db23151af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 47/79] fix: a composition mixes up the states of its second
 model when it is the bigger one

---
 jajapy/ctmc/CTMC.py   | 4 ++--
 jajapy/pctmc/PCTMC.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 7c3a881..7055ef5 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -522,8 +522,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint8')
 	labelling = []
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index cf25cb2..036122a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -645,8 +645,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
-- 
2.43.0


From 52cb9a241e6f13a306a9db1abd6dd8779182536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 48/79] fix: self loops are lost or left without value in a
 composition

---
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/pctmc/PCTMC.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 7055ef5..1734423 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -577,7 +577,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 			for j in m2_sids:
 				if m2.matrix[j,j] != 0.0:
 					matrix[get_state_index(i,j),get_state_index(i,j)] = len(t_e)
-					t_e.append(sympify("p"+str(i)+'_'+str(i)+'+q'+str(j)+'_'+str(j)))
+					t_e.append(sympify("p_"+str(i)+'_'+str(i)+'+q_'+str(j)+'_'+str(j)))
 
 	for si,ai,di,pi in m1.synchronous_transitions: # synchronous transitions
 		for sj,aj,dj,pj in m2.synchronous_transitions:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 036122a..3cb6e74 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -679,6 +679,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 			m = m1
 		else:
 			m = m2
+		if m.matrix[i,j] == 0:
+			return
 		expr = m.transitionExpression(i,j)
 		if not expr in trans_expr:
 			trans_expr.append(expr)
-- 
2.43.0


From b66d61ab2d462d1e3cb9db9bc47570254a5fda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 49/79] fix: the rates of a composition of CTMCs with more than
 255 transitions are mixed up

---
 jajapy/ctmc/CTMC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 1734423..717fb54 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -525,7 +525,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint8')
+	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
 	p_v = {}
 	p_str = []
@@ -586,8 +586,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
 	
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint8')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint8')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.matrix[i][j] for j in m1_sids]
-- 
2.43.0


From 59b61fbb717fd8c691e6ec913ae0483269f3575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 50/79] fix: a composition of PCTMCs loses the parameter values
 of its second model

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 3cb6e74..51d7e61 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -650,7 +650,7 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
-	p_v = m1.parameter_values #TODO m2.parameter_values
+	p_v = {**m2.parameter_values, **m1.parameter_values}
 	p_str = list(set(m1.parameter_str+m2.parameter_str))
 	p_i = [[] for _ in p_str]
 	trans_expr = [sympify('0.0')]
-- 
2.43.0


From 4430437c25848ba31afa1246f56ee92f5d895e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 51/79] fix: the alphabet of a composition of PCTMCs has labels
 of removed states

---
 jajapy/pctmc/PCTMC.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 51d7e61..2afe71b 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -587,6 +587,7 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 							k += 1
 				i = -1
 			i += 1
+		m.alphabet = list(set(m.labelling))
 
 	def removeUnusedTrans(m):
 		to_remove = list(set(range(len(m.transition_expr))) - set(m.matrix.flatten()) )
-- 
2.43.0


From b3857a3cd82d90b72ff741ac5174e508b1f75432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 52/79] fix: a parameter used by a synchronous transition is
 listed twice in a composition

---
 jajapy/pctmc/PCTMC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 2afe71b..24eb4c7 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -620,7 +620,7 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 			m1.transition_expr.append(expr)
 		m1.matrix[i,d] = m1.transition_expr.index(expr)
 		for p in expr.free_symbols:
-			m1.parameter_indexes[m1.parameter_str.index(p)].append([i,d])
+			m1.parameter_indexes[m1.parameter_str.index(p.name)].append([i,d])
 	removeUnreachableState(m1)
 	removeUnusedTrans(m1)
 	return m1
@@ -697,8 +697,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		expr2 = sympify(expr2)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
-			if not p in p_str:
-				p_str.append(p)
+			if not p.name in p_str:
+				p_str.append(p.name)
 				p_i.append([])
 		x, y = get_state_index(s1,s2), get_state_index(d1, d2)
 		return [x,a,y,expr]
-- 
2.43.0


From dfbc7b01cb901306d0b3cc654b0742210d6fe019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 53/79] fix: the order of the parameters of a composition
 depends on the hash seed

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 24eb4c7..28fcd5b 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -652,7 +652,7 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
 	p_v = {**m2.parameter_values, **m1.parameter_values}
-	p_str = list(set(m1.parameter_str+m2.parameter_str))
+	p_str = list(dict.fromkeys(m1.parameter_str+m2.parameter_str))
 	p_i = [[] for _ in p_str]
 	trans_expr = [sympify('0.0')]
 
-- 
2.43.0


From 4d05bdf70463b9161b62ca98c11616998875bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 54/79] fix: parameters of transitions that are sums of
 monomials are not estimated by Baum-Welch rounds

---
 jajapy/base/BW.py | 212 ++++++++++++----------------------------------
 1 file changed, 56 insertions(+), 156 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 40481a5..888c86a 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1,14 +1,14 @@
 from sys import platform
 from multiprocessing import cpu_count
 from numpy.polynomial.polynomial import polyroots
-from numpy import array, dot, append, zeros, ones, float64, inf, ndarray, log, isnan, sqrt, stack, longdouble, float16, where, delete, newaxis, full, infty, empty
+from numpy import array, dot, append, zeros, ones, float64, inf, ndarray, log, isnan, sqrt, stack, longdouble, where, delete, newaxis, full, infty, empty
 from math import exp
 from time import perf_counter
 from .Set import Set
 from .tools import runTasks
 from alive_progress import alive_bar
 from .Model import MC_ID, MDP_ID, CTMC_ID, PCTMC_ID, HMM_ID, GOHMM_ID
-from sympy import sympify
+from sympy import sympify, expand, Add, Symbol
 
 class BW:
 	"""
@@ -882,134 +882,42 @@ class BW:
 		fixed_parameters : list
 			list of all fixed parameters (the one we are not estimating).
 		"""
-		self.a_pis = zeros((self.h.nb_states,self.h.nb_states,len(self.h.parameter_str)),dtype=float16)
-		for iparam,param in enumerate(self.h.parameter_str):
-			if not param in fixed_parameters:
-				for s,ss in self.h.parameterIndexes(param):
-					self.a_pis[s,ss,iparam] = self._a_pi(s,ss,param)
+		# Each transition is a sum of monomials. For each parameter: all the
+		# monomials it is involved in, as (s, ss, monomial, power of the
+		# parameter, total power of the non-fixed parameters).
+		self.monomials = {p:[] for p in self.h.parameter_str if not p in fixed_parameters}
+		for s,ss in zip(*where(self.h.matrix != 0)):
+			for term in Add.make_args(expand(self.h.transitionExpression(s,ss))):
+				powers = {x.name:int(a) for x,a in term.as_powers_dict().items() if x.is_Symbol and x.name in self.monomials}
+				for p in powers:
+					self.monomials[p].append((s,ss,term,powers[p],sum(powers.values())))
 
 		self.parameters_cat = [[],[],[]]
-		for ip,p in enumerate(self.h.parameter_str):
-			if not p in fixed_parameters:
-				apis = [self.a_pis[x,y,ip] for x,y in self.h.parameterIndexes(p)]
-				cs = [self._C(x,y) for x,y in self.h.parameterIndexes(p)]
-				if min(apis) == 1 and max(apis) == 1 and min(cs) == 1 and max(cs) == 1:
-					self.parameters_cat[0].append(p)
-				elif min(cs) == max(cs):
-					self.parameters_cat[1].append(p)
-				else:
-					self.parameters_cat[2].append(p)
+		for p in self.monomials:
+			apis = [a for _,_,_,a,_ in self.monomials[p]]
+			cs = [c for _,_,_,_,c in self.monomials[p]]
+			if len(cs) == 0: # no transition depends on it
+				continue
+			if min(apis) == 1 and max(apis) == 1 and min(cs) == 1 and max(cs) == 1:
+				self.parameters_cat[0].append(p)
+			elif min(cs) == max(cs):
+				self.parameters_cat[1].append(p)
+			else:
+				self.parameters_cat[2].append(p)
 		
-		self.c_pis = zeros((self.h.nb_states,self.h.nb_states))
-		for iparam,param in enumerate(self.parameters_cat[0]):
-			for s,ss in self.h.parameterIndexes(param):
-				self.c_pis[s,ss] = self._c_pi(s,ss,param)
+		# the coefficients: p is the only non-fixed parameter of these monomials
+		self.c_pis = {}
+		for p in self.parameters_cat[0]:
+			self.c_pis[p] = [float((term/Symbol(p)).evalf(subs=self.h.parameter_values)) for _,_,term,_,_ in self.monomials[p]]
 
 	def _computeTaus_PCTMC(self):
 		self.hval = zeros((self.nb_states,self.nb_states))
 		for s in range(self.nb_states):
 			for ss in range(self.nb_states):
 				self.hval[s,ss] =  self.h.transitionValue(s,ss)
-
-	def _a_pi(self,s1: int,s2: int, p: str) -> int:
-		"""
-		Return the power of parameter `p` in the transition from `s1` to `s2`.
-
-		Parameters
-		----------
-		s1 : int
-			source state ID.
-		s2 : int
-			destination state ID.
-		p : str
-			parameter name.
-
-		Returns
-		-------
-		int
-			Return the power of parameter `p` in the transition from `s1` to `s2`.
-		"""
-		t = self.h.transitionExpression(s1,s2)
-		while not t.is_Pow and not t.is_Symbol:
-			flag = False
-			for a in t.args:
-				if p in [x.name for x in a.free_symbols]:
-					t = a
-					flag = True
-					break
-			if not flag:
-				print(p,'not in transition',s1,s2)
-				input()
-		if t.is_Pow:
-			return t.args[1]
-		else:
-			return 1
-
-	def _c_pi(self,s1: int,s2: int, p:str) -> float:
-		"""
-		Return the coefficient of parameter `p` in the transition from
-		`s1` to `s2`.
-
-		Parameters
-		----------
-		s1 : int
-			source state ID.
-		s2 : int
-			destination state ID.
-		p : str
-			parameter name.
-
-		Returns
-		-------
-		float
-			the coefficient of parameter `p` in the transition from
-			`s1` to `s2`.
-		"""
-		#used only if p is the only non-fixed parameter
-		t = self.h.transitionExpression(s1,s2)
-		while not t.is_Mul and not t.is_Symbol:
-			flag = False
-			for a in t.args:
-				if p in [x.name for x in a.free_symbols]:
-					t = a
-					flag = True
-					break
-			if not flag:
-				print(p,'not in transition',s1,s2)
-				input()
-		if t.is_Mul:
-			res = 1.0
-			for a in t.args:
-				if a.is_Symbol:
-					if not a.name == p:
-						res *= self.h.parameterValue(a.name)
-				else:
-					res *= a
-			return float(res)
-		else:
-			return 1
-
-	def _C(self,s1:int ,s2:int) -> int:
-		"""
-		Returns the sum of the power of all parameter in the transition
-		from `s1` to `s2`.
-
-		Parameters
-		----------
-		s1 : int
-			source state ID.
-		s2 : int
-			destination state ID.
-
-		Returns
-		-------
-		int
-			the sum of the power of all parameter in the transition
-		"""
-		r = 0
-		for p in self.h.involvedParameters(s1,s2):
-			r += self.a_pis[s1,s2,self.h.parameter_str.index(p)]
-		return int(r)
+		self.monomials_val = {}
+		for p in self.monomials:
+			self.monomials_val[p] = [float(term.evalf(subs=self.h.parameter_values)) for _,_,term,_,_ in self.monomials[p]]
 
 	def _h_e_PCTMC(self,s: int) -> float:
 		"""
@@ -1108,56 +1016,49 @@ class BW:
 			num_cste = None
 			den_cste = None
 
+		def expectations(p: str):
+			"""
+			For each monomial parameter `p` is involved in: the expected number
+			of times it caused a transition, the expected time spent in the
+			source state, and its current value.
+			"""
+			for (s,ss,_,a,c),v in zip(self.monomials[p],self.monomials_val[p]):
+				if timed:
+					l = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
+					time = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
+				else:
+					l = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
+					time = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/((self._h_e(s) or 1.0)*proba_seq)).sum()
+				share = v/(self.hval[s,ss] or 1.0)
+				yield share*dot(alpha_matrix[s][:-1]*l*beta_matrix[ss][1:],times/proba_seq).sum(), time, v, a, c
+
 		#print(sequence, proba_seq)
 		num_cat1 = zeros(len(self.parameters_cat[0]))
 		den_cat1 = zeros(len(self.parameters_cat[0]))
 		for iparam,param in enumerate(self.parameters_cat[0]):
-			for s,ss in self.h.parameterIndexes(param):
-				if timed:
-					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-				else:
-					p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
-
-				if p.sum()>0.0:
-					if timed:
-						den_cat1[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.c_pis[s,ss]*times/proba_seq).sum()
-					else:
-						den_cat1[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.c_pis[s,ss]*times/((self._h_e(s) or 1.0)*proba_seq)).sum()
-					num_cat1[iparam] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
+			for (num,time,v,a,c),coef in zip(expectations(param),self.c_pis[param]):
+				if v > 0.0:
+					den_cat1[iparam] += time*coef
+				num_cat1[iparam] += num
 
 		num_cat2 = zeros(len(self.parameters_cat[1]))
 		den_cat2 = zeros(len(self.parameters_cat[1]))
 		for iparam,param in enumerate(self.parameters_cat[1]):
-			p_index = self.h.parameter_str.index(param)
-			for s,ss in self.h.parameterIndexes(param):
-				if timed:
-					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()
-				else:
-					p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
-					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/(proba_seq*(self._h_e(s) or 1.0))).sum()
-				num_cat2[iparam] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],self.a_pis[s,ss,p_index]*times/proba_seq).sum()
+			for num,time,v,a,c in expectations(param):
+				den_cat2[iparam] += time*a*v
+				num_cat2[iparam] += num*a
 
 		terms_cat3 = []
 		for iparam,param in enumerate(self.parameters_cat[2]):
-			p_index = self.h.parameter_str.index(param)
 			temp = [0.0]
 			if self.h.parameter_values[param] == 0.0: # zero remains zero
 				terms_cat3.append(array(temp))
 				continue
-			for s,ss in self.h.parameterIndexes(param):
-				if timed:
-					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-				else:
-					p = array([self._h_l(s,ss,o)/(self._h_e(s) or 1.0) for o in obs_seq])
-				temp[0] -= dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],self.a_pis[s,ss,p_index]*times/proba_seq).sum()
-				c = self._C(s,ss)
+			for num,time,v,a,c in expectations(param):
+				temp[0] -= num*a
 				for _ in range(1+c-len(temp)):
 					temp.append(0.0)
-				if timed:
-					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self.h.parameter_values[param]**c)
-				else:
-					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/((self._h_e(s) or 1.0)*self.h.parameter_values[param]**c)
+				temp[c] += time*a*v/(self.h.parameter_values[param]**c)
 
 			terms_cat3.append(array(temp))
 
@@ -1197,8 +1098,7 @@ class BW:
 				den_cat2[ip] = 1.0
 				num_cat2[ip] = self.h.parameter_values[p]
 			else:
-				s,ss = self.h.parameterIndexes(p)[0]
-				c = self._C(s,ss)
+				c = self.monomials[p][0][4]
 				den_cat2[ip] = den_cat2[ip]**(1/c)
 				num_cat2[ip] = self.h.parameter_values[p]*num_cat2[ip]**(1/c)
 		values += (num_cat2/den_cat2).tolist()
-- 
2.43.0


From 1bd04d7197b58e93ba9331ad42d91d202d315146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 55/79] fix: a refused random model leaves the random
 generators seeded

---
 jajapy/base/Base_MC.py | 4 +++-
 jajapy/ctmc/CTMC.py    | 1 +
 jajapy/mc/MC.py        | 1 +
 jajapy/mdp/MDP.py      | 1 +
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index 4f21bf6..0794f77 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -142,11 +142,13 @@ class Base_MC(Model):
 		except ModuleNotFoundError:
 			raise RuntimeError("Stormpy is not installed on this machine.")
 
-def labelsForRandomModel(nb_states: int, labelling: list, sseed:int=None) -> list:
+def checkRandomLabelling(labelling: list) -> None:
 	if 'init' in labelling:
 		msg =  "The label 'init' cannot be used: it is reserved for initial states."
 		raise SyntaxError(msg)
 
+def labelsForRandomModel(nb_states: int, labelling: list, sseed:int=None) -> list:
+	checkRandomLabelling(labelling)
 	if nb_states < len(labelling):
 		print("WARNING: the size of the labelling is greater than the",end=" ")
 		print("number of states. The last labels will not be assigned to",end=" ")
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 717fb54..2d9b1a3 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -394,6 +394,7 @@ def CTMC_random(nb_states: int, labelling: list, min_exit_rate_time : int,
 	s2 -> s0 : lambda = 0.2
 	s2 -> s1 : lambda = 0.8
 	"""
+	checkRandomLabelling(labelling)
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
diff --git a/jajapy/mc/MC.py b/jajapy/mc/MC.py
index 328d5c7..49a250c 100644
--- a/jajapy/mc/MC.py
+++ b/jajapy/mc/MC.py
@@ -263,6 +263,7 @@ def MC_random(nb_states: int, labelling: list, random_initial_state: bool=True,
 	----STATE 2--init----
 	s2 -> s0 : 1.0
 	"""
+	checkRandomLabelling(labelling)
 	if sseed != None:
 		seed(sseed)
 	matrix = []
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index edafd51..c3d3fe5 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -505,6 +505,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	MDP
 		A pseudo-randomly generated MDP.
 	"""
+	checkRandomLabelling(labelling)
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-- 
2.43.0


From b5d20afb86263b221faf3ac5e8f2c4c44b2dcde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 56/79] fix: composing a model whose initial state is not the
 last one crashes or starts elsewhere

---
 jajapy/ctmc/CTMC.py   | 8 ++++----
 jajapy/pctmc/PCTMC.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 2d9b1a3..d1c2735 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -618,12 +618,12 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj <= 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(t_e)
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = len(t_e)
 				t_e.append(sympify('initp_'+str(i)+'*initq_'+str(j)))
-				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,get_state_index(i,j)])
-				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,get_state_index(i,j)])
+				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,get_state_index(m1_sids[i],m2_sids[j])])
+				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,get_state_index(m1_sids[i],m2_sids[j])])
 	
 	i = 0
 	while i < len(matrix): # removing unreachable states
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 28fcd5b..7ff872a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -750,9 +750,9 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj == 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(trans_expr)
+				matrix[-1][get_state_index(m1_sids[i],m2_sids[j])] = len(trans_expr)
 				trans_expr.append(sympify(str(si*sj)))
 
 	return PCTMC(matrix,labelling,trans_expr,p_v,p_i,p_str,name), sync_trans
-- 
2.43.0


From 60a2cbbca661d23ed3d9e56249d2d5fcc07d6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 57/79] fix: a composition of PCTMCs records a transition twice
 for one of its parameters

---
 jajapy/pctmc/PCTMC.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 7ff872a..edc8037 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -620,7 +620,8 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 			m1.transition_expr.append(expr)
 		m1.matrix[i,d] = m1.transition_expr.index(expr)
 		for p in expr.free_symbols:
-			m1.parameter_indexes[m1.parameter_str.index(p.name)].append([i,d])
+			if not [i,d] in m1.parameter_indexes[m1.parameter_str.index(p.name)]:
+				m1.parameter_indexes[m1.parameter_str.index(p.name)].append([i,d])
 	removeUnreachableState(m1)
 	removeUnusedTrans(m1)
 	return m1
@@ -667,13 +668,15 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 				x,y = get_state_index(s1,i),get_state_index(s2,i)
 				matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 		elif model == 2:
 			for i in m1_sids:
 				x,y = get_state_index(i,s1),get_state_index(i,s2)
 				matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 	
 	def add_transition(i,j,model):
 		if model == 1:
-- 
2.43.0


From 8b56db735dbde5e41047c1973d080150218ef791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 58/79] fix: two choices of a state with the same label are
 mixed up when a stormpy MDP is converted

---
 jajapy/with_stormpy/model_converter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 42694f9..cc567bf 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -22,8 +22,8 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	actions_name : list of str, optional.
 		If the model is an MDP, the name of the actions in the output
 		model will be the one in this list. Otherwise they will be
-		the labels of the choices if each choice has exactly one label,
-		`a0,a1,a2,...` if not.
+		the labels of the choices if each choice has exactly one label
+		that no other choice of the same state has, `a0,a1,a2,...` if not.
 
 	Returns
 	-------
@@ -47,7 +47,9 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 	if ty == 2:
 		labelled = h.has_choice_labeling()
 		if labelled:
-			labelled = all([len(a.labels) == 1 for s in h.states for a in s.actions if len(a.transitions) > 0])
+			labels = [[a.labels for a in s.actions if len(a.transitions) > 0] for s in h.states]
+			labelled = all([len(l) == 1 for ls in labels for l in ls])
+			labelled = labelled and all([len(set().union(*ls)) == len(ls) for ls in labels])
 		action_id = lambda a : list(a.labels)[0] if labelled else int(str(a))
 		ids = sorted(set([action_id(a) for s in h.states for a in s.actions if len(a.transitions) > 0]))
 		if labelled and set(ids).issubset(actions_name):
-- 
2.43.0


From 46da9f06302999d114d15f711620b64e9ec2a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 59/79] fix: the lists a model answers with are its own,
 changing one changes the model

---
 jajapy/base/Base_MC.py          | 2 +-
 jajapy/base/Parametric_Model.py | 4 ++--
 jajapy/gohmm/GoHMM.py           | 2 +-
 jajapy/hmm/HMM.py               | 2 +-
 jajapy/mdp/MDP.py               | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index 0794f77..0636a2d 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -97,7 +97,7 @@ class Base_MC(Model):
 		>>> model.getAlphabet()
 		['a','b','c','d','done']
 		"""
-		return self.alphabet
+		return list(self.alphabet)
 
 	def _savePrism(self,f) -> None:
 		f.write("module "+self.name+'\n')
diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 0ccea98..7738d6e 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -211,7 +211,7 @@ class Parametric_Model(Model):
 		"""
 		if not p in self.parameter_str:
 			return []
-		return self.parameter_indexes[self.parameter_str.index(p)]
+		return deepcopy(self.parameter_indexes[self.parameter_str.index(p)])
 
 	def instantiate(self,parameters: list, values: list) -> ndarray: 
 		"""
@@ -353,7 +353,7 @@ class Parametric_Model(Model):
 		>>> model.getAlphabet()
 		['a','b','c','d','done']
 		"""
-		return self.alphabet
+		return list(self.alphabet)
 	
 	def __str__(self) -> str:
 		res = "Name: "+self.name+'\n'
diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 2fbfd3e..bc776d9 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -61,7 +61,7 @@ class GoHMM(Base_HMM):
 		ndarray
 			the mu parameters.
 		"""
-		return self.output[s].T[0]
+		return self.output[s].T[0].copy()
 			
 	def mu_n(self,s: int, n: int) -> float:
 		"""
diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index d68ba82..30f85ad 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -108,7 +108,7 @@ class HMM(Base_HMM):
 			list of observations
 		"""
 		if state == -1:
-			return self.alphabet
+			return list(self.alphabet)
 		else:
 			self._checkStateIndex(state)
 			return [self.alphabet[i] for i in where(self.output[state] > 0.0)[0]]
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index c3d3fe5..453b749 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -68,7 +68,7 @@ class MDP(Base_MC):
 		['A','C']
 		"""
 		if state == -1:
-			return self.actions
+			return list(self.actions)
 		else:
 			return list(set(self.actions[i] for i in where(self.matrix[state].sum(axis=1) > 0.0)[0]))
 
-- 
2.43.0


From d3ced6f666eae56b8ed5da221662219d5b21260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 60/79] fix: creating a PCTMC deletes the undefined values from
 the dictionary of the caller

---
 jajapy/base/Parametric_Model.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 7738d6e..5c83cd6 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -72,11 +72,7 @@ class Parametric_Model(Model):
 			raise ValueError(msg)
 		
 		self.transition_expr = transition_expr
-		k = list(parameter_values.keys())
-		for i in k:
-			if isnan(parameter_values[i]):
-				del parameter_values[i]
-		self.parameter_values = parameter_values
+		self.parameter_values = {i:v for i,v in parameter_values.items() if not isnan(v)}
 		self.parameter_indexes= parameter_indexes
 		self.parameter_str = parameter_str
 
-- 
2.43.0


From bc28aca1f8b95741ef2919dc24a37223e228268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 61/79] fix: computing a loglikelihood on one process or
 learning with Alergia reorders the set, and mixes up its counts when
 interrupted

---
 jajapy/base/Model.py | 1 +
 jajapy/base/Set.py   | 3 +--
 jajapy/mc/Alergia.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 3f056bf..72c4c87 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -317,6 +317,7 @@ class Model:
 		output: float
 			loglikelihood of ``sequences`` under this model.
 		"""
+		sequences = Set(sequences.sequences,sequences.times,sequences.type)
 		sequences.sort()
 		loglikelihood = 0.0
 		alpha_matrix = self._initAlphaMatrix(len(sequences.sequences[0]))
diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index d1a91e9..02bb95f 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -209,8 +209,7 @@ class Set:
 		Sort the sequences in lexicographic order.
 		"""
 		x = sorted(zip(self.sequences,self.times))
-		self.sequences = [s for s,_ in x]
-		self.times = [t for _,t in x]
+		self.sequences, self.times = [s for s,_ in x], [t for _,t in x]
 		
 
 def loadSet(file_path: str) -> Set:
diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index fa5dae7..42966ba 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -45,6 +45,7 @@ class PTA:
 	def __init__(self,traces) -> None:
 		self.root = PTA_node('')
 		self.alphabet = []
+		traces = Set(traces.sequences,traces.times,traces.type)
 		traces.sort()
 		
 		for trace,time in zip(traces.sequences,traces.times):
-- 
2.43.0


From 053aa9edfc99852440326669c57908262c915dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 62/79] fix: fitting the parameters of a PCTMC changes the
 models made from the same arrays

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 888c86a..b2ae370 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1268,6 +1268,7 @@ class BW:
 		alphabet = traces.getAlphabet()
 		print("Removing unused states: ", end='')
 		print('from',initial_model.nb_states,'states to',end=' ')
+		initial_model.parameter_indexes = [[list(k) for k in j] for j in initial_model.parameter_indexes]
 		s = 0
 		while s < initial_model.nb_states:
 			if initial_model.getLabel(s) not in alphabet:
@@ -1294,7 +1295,7 @@ class BW:
 		while t < l:
 			if not (initial_model.matrix == t).any():
 				initial_model.transition_expr = initial_model.transition_expr[:t]+initial_model.transition_expr[t+1:]
-				initial_model.matrix -= (initial_model.matrix > t)
+				initial_model.matrix = initial_model.matrix-(initial_model.matrix > t)
 				l -= 1
 			else:
 				t += 1
-- 
2.43.0


From 66af5ab29b91adc827fdf088ee9663d45dd707d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 63/79] fix: IOAlergia forgets the frequencies of the states it
 merges

---
 jajapy/mdp/IOAlergia.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 13143b9..f66dd3b 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -114,6 +114,21 @@ class IOFPTA_state:
 		"""
 		self.transitions[action][1][self.transitions[action][1].index(old_state)] = new_state
 
+	def transitionIncrease(self, action: str, state: int, n: int) -> None:
+		"""
+		Increases the frequency of a given transition by ``n``.
+
+		Parameters
+		----------
+		action : str
+			An action.
+		state : int
+			A state ID (the destination state).
+		n : int
+			An integer.
+		"""
+		self.transitions[action][0][self.transitions[action][1].index(state)] += n
+
 	def getTransitionProb(self,action: str,s2: int) -> float:
 		"""
 		Returns the probability that we reach ``s2`` from this state executing
@@ -346,8 +361,9 @@ class IOFPTA:
 				if succ2 != None:
 					succ1 = self.successor(s1,a,o)
 					if succ1 != None:
+						c = self.states[s2].getTransitionProb(a,succ2)
 						self.merge(succ1,succ2)
-						#self.states[s1].transition_prob_add(a,succ1,self.states[s2].getTransitionProb(a,succ2))
+						self.states[s1].transitionIncrease(a,succ1,c)
 						#self.states[succ1].counterAdd(self.states[succ2].counter)
 						#self.states[succ2].counter = 0 #useless but meaningfull
 					else:
-- 
2.43.0


From 8f3cc1ebcd0b0540e5d7644f91870cf1814d1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 64/79] fix: new labels of a wrong number are accepted, and a
 moved initial label moves nothing

---
 jajapy/base/Base_MC.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index 0636a2d..a9bb001 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -1,5 +1,5 @@
 from .Model import Model, MC_ID, MDP_ID, CTMC_ID
-from numpy import ndarray, where
+from numpy import ndarray, where, array
 from random import choices, seed
 
 class Base_MC(Model):
@@ -49,9 +49,12 @@ class Base_MC(Model):
 		""" 
 		if len(new_labels) == self.nb_states-1:
 			new_labels = new_labels+["init"]
+		if len(new_labels) != self.nb_states:
+			raise ValueError("The length of new_labels ("+str(len(new_labels))+") is not equal to the number of states("+str(self.nb_states)+")")
 		if 'init' in new_labels:
-			self.labelling = new_labels
+			self.labelling = list(new_labels)
 			self.alphabet = list(set(new_labels))
+			self.initial_state = array([1.0/new_labels.count("init") if i=='init' else 0.0 for i in new_labels])
 		else:
 			print("No initial state given: at least one state must be labelled by 'init'.")
 			print("The labels have not been updated.")
-- 
2.43.0


From 4e910452b5116182512237ac36089ac2e6a28835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 65/79] fix: initial distributions that are no distributions or
 have a wrong length are accepted

---
 jajapy/base/Model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 72c4c87..878cb44 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -43,7 +43,11 @@ class Model:
 			self.initial_state = array([0.0 for i in range(self.nb_states)])
 			self.initial_state[initial_state] = 1.0
 		else:
-			if round(sum(initial_state)) != 1.0:
+			if len(initial_state) != self.nb_states:
+				msg = "Error: the length of initial_state should be "+str(self.nb_states)
+				msg+= ", here it's "+str(len(initial_state))
+				raise ValueError(msg)
+			if round(sum(initial_state),3) != 1.0:
 				msg = "Error: the sum of initial_state should be 1.0, here it's"
 				msg+= str(sum(initial_state))
 				raise ValueError(msg)
-- 
2.43.0


From 859d325196fe428e3844d6c63b77415684d30b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 66/79] fix: fit_nonInstantiatedParameters and fit_parameters
 of a model with missing parameters

---
 jajapy/base/BW.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index b2ae370..ddb9ff1 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1173,7 +1173,8 @@ class BW:
 			raise RuntimeError("The initial model must be a PCTMC")
 		to_update = []
 		for p in initial_model.parameter_str:
-			to_update.append(p)
+			if not p in initial_model.parameter_values or isnan(initial_model.parameter_values[p]):
+				to_update.append(p)
 		
 		return self.fit_parameters(traces,initial_model,to_update,epsilon,
 								max_it,pp,verbose,return_data,min_val,max_val)
@@ -1311,6 +1312,8 @@ class BW:
 				self.h.randomInstantiation(min_val=min_val)
 		elif max_val != None:
 			self.h.randomInstantiation(max_val=max_val)
+		else:
+			self.h.randomInstantiation()
 		
 		if self.training_set.type == 4:
 			self._computeAlphas = self._computeAlphas_timed
-- 
2.43.0


From f2a2a55ea25a438bafd627c59163cbe4b09109c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 67/79] fix: learning crashes on traces of a single observation

---
 jajapy/base/Set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 02bb95f..a52a30e 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -35,9 +35,11 @@ class Set:
 		if t != None:
 			self.type = t
 		else:
-			if len(sequences[0]) > 1 and (type(sequences[0][1])  == float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
+			# one element doesn't tell if the trace is timed
+			first = next((s for s in sequences if len(s) > 1),sequences[0])
+			if len(first) > 1 and (type(first[1])  == float64 or type(first[1])  == float) and type(first[0])  == str:
 				self.type = 4 # timed CTMC
-			elif type(sequences[0][0])  == list:
+			elif type(first[0])  == list:
 				self.type = 3 # GoHMM
 			else:
 				self.type = 0 # HMM or MC or non-timed CTMC
-- 
2.43.0


From a492e497ead953916ab5429f6e0604ea9a5992bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 68/79] fix: learning reads dwell times that are numpy numbers
 as observations

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index ddb9ff1..bf5c41f 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -704,7 +704,7 @@ class BW:
 			a tuple containing a sequence of observations and a sequence of
 			waiting times.
 		"""
-		if type(sequence[1]) == float and type(sequence[0]) == str:
+		if len(sequence) > 1 and isinstance(sequence[1],float) and type(sequence[0]) == str:
 			times_seq = [sequence[i] for i in range(1,len(sequence),2)]
 			obs_seq   = [sequence[i] for i in range(0,len(sequence),2)]
 		else:
-- 
2.43.0


From 76f1f2b581384af2e1d2e26dc3ebc121689ad87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:44 +0000
Subject: [PATCH 69/79] fix: IOAlergia merges states whose observed
 continuations are incompatible

---
 jajapy/mdp/IOAlergia.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index f66dd3b..9c3cb8c 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -294,15 +294,15 @@ class IOFPTA:
 		bool
 			True if the distance of distributions are in the Hoeffding bound.
 		"""
+		if not self.states[s1].actionAllowed(a) or not self.states[s2].actionAllowed(a):
+			return True
+
 		i1 = self.successor(s1, a, o)
 		i2 = self.successor(s2, a, o)
 
-		if i1 == None or i2 == None:
-			return True
-				
-		f1 = self.states[s1].getTransitionProb(a, i1)
+		f1 = 0 if i1 == None else self.states[s1].getTransitionProb(a, i1)
 		n1 = sum(self.states[s1].transitions[a][0])
-		f2 = self.states[s2].getTransitionProb(a, i2)
+		f2 = 0 if i2 == None else self.states[s2].getTransitionProb(a, i2)
 		n2 = sum(self.states[s2].transitions[a][0])
 
 		if n1*n2 == 0:
-- 
2.43.0


From 309ca265292c1f43e2ca70a58072a2554c795597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 70/79] fix: IOAlergia ignores traces with another first
 observation

---
 jajapy/mdp/IOAlergia.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 9c3cb8c..26e1e7b 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -201,6 +201,7 @@ class IOFPTA:
 		self.observations = o
 		self.actions = a
 		self.initial = []
+		self.initial_count = []
 
 	def __str__(self) -> str:
 		res = ""
@@ -211,6 +212,7 @@ class IOFPTA:
 	def addInitialState(self,state:int) -> None:
 		if not state in self.initial:
 			self.initial.append(state)
+			self.initial_count.append(self.states[state].counter)
 
 	def successor(self, state: int, action: str, obs: str) -> int:
 		"""
@@ -427,7 +429,9 @@ class IOFPTA:
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-		transitions[-1][0][0] = 1.0
+		tot = sum(self.initial_count)
+		for s,c in zip(self.initial,self.initial_count):
+			transitions[-1][0][states.index(s)] = c/tot
 		if 'init' in labelling[:-1]:
 			labelling, transitions = labelling[:-1], transitions[:-1,:,:-1]
 		return MDP(transitions, labelling, actions)
@@ -531,7 +535,7 @@ class IOAlergia:
 		"""
 		self.actions, self.observations = sample.getActionsObservations()
 		self._initialize(sample,epsilon,self.actions,self.observations)
-		red = [0]
+		red = list(self.a.initial)
 		blue = []
 		for i in self.a.initial:
 			blue += self.a.states[i].successors()
-- 
2.43.0


From 09264f46439f56ecef312997d93342166746ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 71/79] fix: sets of traces that are certain get the
 loglikelihood of impossible ones

---
 jajapy/base/Model.py | 4 ++--
 jajapy/ctmc/CTMC.py  | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 878cb44..f8ced16 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -344,9 +344,9 @@ class Model:
 
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
 		temp = runTasks(self._computeAlphas,zip(sequences.sequences,sequences.times),max(1,cpu_count()-1))
-		temp = [res for res in temp if res != False]
+		temp = [res for res in temp if res is not False]
 		s = sum(temp)
-		if s == 0.0:
+		if len(temp) == 0:
 			print('WARNING: the model is not able to generate any sequence in the set')
 			return 0.0
 		return s/sum(sequences.times)
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index d1c2735..056a970 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -250,11 +250,9 @@ class CTMC(Base_MC):
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
 				temp = runTasks(self._computeAlphas_timed,zip(traces.sequences,traces.times),max(1,cpu_count()-1))
-				temp = [res for res in temp if res != False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				while False in temp:
-					temp.remove(False)
+			temp = [res for res in temp if res is not False]
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
-- 
2.43.0


From d70691d4f35c41ee7915e71aef84841601275a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 72/79] fix: tau of an absorbing state answers about states
 that do not exist

---
 jajapy/ctmc/CTMC.py   | 3 ++-
 jajapy/pctmc/PCTMC.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 056a970..a498bc1 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -131,9 +131,10 @@ class CTMC(Base_MC):
 		float
 			A probability.
 		"""
+		l = self.l(s1,s2,obs)
 		if self.e(s1) == 0.0:
 			return float(s1 == s2 and self.labelling[s1] == obs)
-		return self.l(s1,s2, obs)/self.e(s1)
+		return l/self.e(s1)
 	
 	def expected_time(self, s:int) -> float:
 		"""
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index edc8037..2c5428a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -140,9 +140,10 @@ class PCTMC(Parametric_Model):
 		"""
 		try:
 			e = self.e(s1)
+			l = self.l(s1,s2,obs)
 			if e == 0.0:
 				return float(s1 == s2 and self.labelling[s1] == obs)
-			return self.l(s1,s2, obs)/e
+			return l/e
 		except ValueError:
 			print("WARN: cannot compute the exit-rate of non-instantiated state "+str(s1))
 	
-- 
2.43.0


From 3f399bcaa43ba3bcf53963bc146b0f492877f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 73/79] fix: random instantiation of a PCTMC ignores its
 documented default range

---
 jajapy/pctmc/PCTMC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 2c5428a..88e6073 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -243,12 +243,12 @@ class PCTMC(Parametric_Model):
 			if len(list(self.parameter_values.values())) > 1:
 				min_val = min(self.parameter_values.values())
 			else:
-				min_val = 0.01
+				min_val = 0.1
 		if max_val == None:
 			if len(list(self.parameter_values.values())) > 1:
 				max_val = max(self.parameter_values.values())
 			else:
-				max_val = 0.3
+				max_val = 5.0
 	
 		if sseed != None:
 			seed(sseed)
-- 
2.43.0


From 08f47c53af98ddaf9b36906675c90bf284691beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 74/79] fix: parameters whose name means something to sympy
 (lambda, beta, E...) are not parameters

---
 jajapy/base/Parametric_Model.py        | 32 ++++++++++++++++++++++++--
 jajapy/pctmc/PCTMC.py                  |  6 ++---
 jajapy/with_stormpy/model_converter.py |  3 ++-
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 5c83cd6..cd3cf9f 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,35 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify
+from sympy import sympify, Symbol
+from re import sub
+
+def parseExpression(expression, parameters: list):
+	"""
+	Returns the symbolic representation of ``expression``. The names in
+	``parameters`` are always parameters, even if they have another meaning
+	for sympy or python (``lambda``, ``beta``, ``E``, ``S``...).
+
+	Parameters
+	----------
+	expression : str, float or symbolic representation
+		The expression.
+	parameters : list of str
+		The names of the parameters.
+
+	Returns
+	-------
+	symbolic representation
+		The symbolic representation of ``expression``.
+	"""
+	if type(expression) != str:
+		return sympify(expression)
+	names = {'parameter__'+str(i):Symbol(p) for i,p in enumerate(parameters)}
+	def placeholder(name):
+		if name.group() in parameters:
+			return 'parameter__'+str(parameters.index(name.group()))
+		return name.group()
+	return sympify(sub(r'(?<![\w.])[A-Za-z_]\w*',placeholder,expression),locals=names)
 
 class Parametric_Model(Model):
 	"""
@@ -471,5 +499,5 @@ def loadParametricModel(f):
 	parameter_indexes = literal_eval(f.readline()[:-1])
 	parameter_str = literal_eval(f.readline()[:-1])
 	transition_expr = literal_eval(f.readline()[:-1])
-	transition_expr = [sympify(i) for i in transition_expr]
+	transition_expr = [parseExpression(i,parameter_str) for i in transition_expr]
 	return matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name
\ No newline at end of file
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 88e6073..f92390d 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -532,7 +532,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	matrix = zeros((nb_states,nb_states),dtype='uint16')
 	for t in transitions:
 		val = str(t[2])
-		expr = sympify(val)
+		expr = parseExpression(val,parameter_str)
 		if expr.is_real or not expr in transition_expr:
 			transition_expr.append(expr)
 			matrix[t[0],t[1]] = len(transition_expr)-1 if expr != 0 else 0
@@ -697,8 +697,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		add_in_matrix(trans_expr.index(expr),i,j,model,add_index)
 	
 	def add_sync_transition(a,s1, d1, expr1, s2, d2, expr2):
-		expr1 = sympify(expr1)
-		expr2 = sympify(expr2)
+		expr1 = parseExpression(expr1,m1.parameter_str)
+		expr2 = parseExpression(expr2,m2.parameter_str)
 		expr = expr1*expr2
 		for p in expr.free_symbols:
 			if not p.name in p_str:
diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index cc567bf..9fefa3d 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -4,6 +4,7 @@ from ..mc.MC import MC
 from ..mdp.MDP import MDP
 from ..ctmc.CTMC import CTMC
 from ..pctmc.PCTMC import PCTMC
+from ..base.Parametric_Model import parseExpression
 import os
 from sympy import symbols, sympify
 
@@ -106,7 +107,7 @@ def stormpyModeltoJajapy(h,actions_name:list = []):
 							p_i.append([])
 							p_v[v] = nan
 						p_i[p_str.index(v)].append([c,dest])
-					t_val = sympify(str(t_val))
+					t_val = parseExpression(str(t_val),p_str)
 					if t_val.is_real or not t_val in t_expr:
 						matrix[c][dest] = len(t_expr)
 						t_expr.append(t_val)
-- 
2.43.0


From 3af912a884da2f6bdf62ad7b8b70a60d76965adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 75/79] fix: the Prism file of a model whose name is not a
 Prism identifier cannot be loaded

---
 jajapy/base/Base_MC.py |  3 ++-
 jajapy/base/tools.py   | 26 ++++++++++++++++++++++++++
 jajapy/pctmc/PCTMC.py  |  4 ++--
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index a9bb001..50f32c8 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -1,4 +1,5 @@
 from .Model import Model, MC_ID, MDP_ID, CTMC_ID
+from .tools import prismModuleName
 from numpy import ndarray, where, array
 from random import choices, seed
 
@@ -103,7 +104,7 @@ class Base_MC(Model):
 		return list(self.alphabet)
 
 	def _savePrism(self,f) -> None:
-		f.write("module "+self.name+'\n')
+		f.write("module "+prismModuleName(self.name)+'\n')
 		f.write("\ts: [0.."+str(self.nb_states-1)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
 		self._savePrismMatrix(f)
 		f.write('endmodule\n\n')
diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index 2207f19..c3e9a41 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -4,6 +4,32 @@ from numpy import nditer, array, ndarray, nonzero
 from numpy.random import randint
 from math import log,sqrt
 from concurrent.futures import ProcessPoolExecutor
+from re import sub, ASCII
+
+PRISM_KEYWORDS = ['bool','ceil','const','ctmc','dtmc','endinit','endinvariant',
+				  'endmodule','endrewards','false','floor','init','int',
+				  'invariant','ma','max','mdp','min','module','player','pomdp',
+				  'pta','rewards','smg','true']
+
+def prismModuleName(name: str) -> str:
+	"""
+	Returns the name of the Prism module describing a model called ``name``.
+	It is ``name`` if it is a valid Prism identifier.
+
+	Parameters
+	----------
+	name : str
+		the name of a model.
+
+	Returns
+	-------
+	str
+		a valid Prism identifier.
+	"""
+	name = sub(r'\W','_',name,flags=ASCII)
+	if name == '' or name[0].isdigit() or name in PRISM_KEYWORDS:
+		name = 'model_'+name
+	return name
 
 def runTasks(function, tasks, processes: int) -> list:
 	"""
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index f92390d..cb2253c 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -1,4 +1,4 @@
-from ..base.tools import resolveRandom, runTasks
+from ..base.tools import resolveRandom, runTasks, prismModuleName
 from ..base.Parametric_Model import *
 from numpy import  zeros, dot, newaxis, hstack, inf, vstack, delete
 from numpy.random import exponential, rand, seed
@@ -401,7 +401,7 @@ class PCTMC(Parametric_Model):
 				f.write(' = '+str(self.parameterValue(p)))
 			f.write(';\n')
 
-		f.write("\nmodule "+self.name+'\n')
+		f.write("\nmodule "+prismModuleName(self.name)+'\n')
 		f.write("\ts: [0.."+str(self.nb_states)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
 		
 		for s1 in range(self.nb_states):
-- 
2.43.0


From e11af8e6de17796279f214dc6d69b9a55d1d0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 76/79] fix: the documented method PCTMC.toStormpy does not
 exist

---
 jajapy/pctmc/PCTMC.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index cb2253c..82bc6b6 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -383,6 +383,27 @@ class PCTMC(Parametric_Model):
 		f.write("PCTMC\n")
 		super()._save(f)
 	
+	def toStormpy(self):
+		"""
+		Returns the equivalent stormpy sparse model.
+		The output object will be a stormpy.SparseCtmc.
+
+		Returns
+		-------
+		stormpy.SparseCtmc
+			The same model in stormpy format.
+
+		Raises
+		------
+		ValueError
+			If at least one of the parameters is not instantiated.
+		"""
+		try:
+			from ..with_stormpy import jajapyModeltoStormpy
+		except ModuleNotFoundError:
+			raise RuntimeError("Stormpy is not installed on this machine.")
+		return jajapyModeltoStormpy(self)
+
 	def savePrism(self,file_path:str) -> None:
 		"""
 		Save this model into `file_path` in the Prism format.
-- 
2.43.0


From f9ebb04a64605f884da13ec3b1249169338d2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 77/79] fix: the Prism file of a PCTMC with a parameter called
 s cannot be loaded

---
 jajapy/pctmc/PCTMC.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 82bc6b6..50d8874 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -423,15 +423,18 @@ class PCTMC(Parametric_Model):
 			f.write(';\n')
 
 		f.write("\nmodule "+prismModuleName(self.name)+'\n')
-		f.write("\ts: [0.."+str(self.nb_states)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
+		var = 's'
+		while var in self.parameter_str:
+			var += '_'
+		f.write("\t"+var+": [0.."+str(self.nb_states)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
 		
 		for s1 in range(self.nb_states):
 			if (self.matrix[s1]!=0).any():
-				res = '\t[] s='+str(s1)+' ->'
+				res = '\t[] '+var+'='+str(s1)+' ->'
 				for s2 in where(self.matrix[s1] != 0)[0]:
 					t = str(self.transition_expr[self.matrix[s1,s2]])
 					t = t.replace('**','^')
-					res += ' '+t+" : (s'="+str(s2)+") +"
+					res += ' '+t+" : ("+var+"'="+str(s2)+") +"
 				res = res[:-2]+';\n'
 				f.write(res)
 		f.write('endmodule\n\n')
@@ -446,7 +449,7 @@ class PCTMC(Parametric_Model):
 		for l in labels:
 			res = 'label "'+l+'" ='
 			for s in labels[l]:
-				res += ' s='+s+' |'
+				res += ' '+var+'='+s+' |'
 			res = res[:-1]+';\n'
 			f.write(res)
 		f.close()
-- 
2.43.0


From 1685521dd31ba79597371eac923d2110bdf3d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 78/79] fix: CTMC_random refuses exit rate bounds given as
 floats

---
 jajapy/ctmc/CTMC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index a498bc1..a3750f4 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -5,7 +5,7 @@ from ..base.Set import Set
 from ..mc.MC import MC
 from ..pctmc.PCTMC import PCTMC
 from ..base.Base_MC import *
-from math import exp, log
+from math import exp, log, ceil, floor
 from random import randint
 from numpy import array, zeros, dot, vstack, hstack, newaxis, delete, insert, inf
 from sys import platform
@@ -406,7 +406,7 @@ def CTMC_random(nb_states: int, labelling: list, min_exit_rate_time : int,
 			p = randomProbabilities(nb_states-1).tolist()
 			p = insert(p,i,0.0)
 			matrix[i] = array(p)
-		av_waiting_time = randint(min_exit_rate_time,max_exit_rate_time)
+		av_waiting_time = randint(ceil(min_exit_rate_time),floor(max_exit_rate_time))
 		matrix[i] /= av_waiting_time
 
 	if random_initial_state:
-- 
2.43.0


From 03a5b5e928d24778381888a261f2eadf21b4b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:21 +0000
Subject: [PATCH 79/79] fix: Alergia merges states that the tails of the traces
 tell apart (property C20)

PTA collected its alphabet only while walking existing nodes; the symbols of
the tails added by addKids were missing from it, so compatible() never looked
at the children reached through them.
---
 jajapy/mc/Alergia.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 42966ba..ecd7a6d 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -49,12 +49,13 @@ class PTA:
 		traces.sort()
 		
 		for trace,time in zip(traces.sequences,traces.times):
+			for char in trace:
+				if not char in self.alphabet:
+					self.alphabet.append(char)
 			node = self.root
 			curr = 0
 			while curr < len(trace):
 				char = trace[curr]
-				if not char in self.alphabet:
-					self.alphabet.append(char)
 				nnext = node.incKid(char,time)
 				if nnext == None:
 					node = self.addKids(node,trace,curr,time)
-- 
2.43.0


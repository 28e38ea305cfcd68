From ca206171c7ed3376866a556e44a9aba435c64769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 01/76] fix: PCTMC.logLikelihood of untimed traces (missing b
 method)

---
 jajapy/base/Parametric_Model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index a6e29e0..7dbf8d4 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -334,6 +334,11 @@ class Parametric_Model(Model):
 		self._checkStateIndex(state)
 		return self.labelling[state]
 	
+	def b(self,state:int, label:str) -> float:
+		if self.getLabel(state) == label:
+			return 1.0
+		return 0.0
+	
 	def getAlphabet(self) -> list:
 		"""
 		Returns the alphabet of this model.
-- 
2.43.0


From e2e98e1ae75a286d4ba39531e95fb496887d2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 02/76] fix: PCTMC.logLikelihood crashed on a timed trace the
 model cannot generate

---
 jajapy/pctmc/PCTMC.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index a90d86c..09705ca 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -334,7 +334,11 @@ class PCTMC(Parametric_Model):
 				new_arr[s] = dot(prev_arr,p)
 			prev_arr = new_arr
 		last_arr = prev_arr * (array(self.labelling) == obs_seq[-1])
-		return log(last_arr.sum())*times
+		try:
+			res = log(last_arr.sum())*times
+		except ValueError:
+			return False
+		return res
 
 	def logLikelihood(self,traces: Set) -> float:
 		"""
@@ -364,6 +368,10 @@ class PCTMC(Parametric_Model):
 				temp = [res.get() for res in tasks if res.get() != False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
+				while False in temp:
+					temp.remove(False)
+			if len(temp) == 0:
+				return -9999
 			return sum(temp)/sum(traces.times)
 
 	def save(self,file_path:str) -> None:
-- 
2.43.0


From 1d5c003c2a50b5d9907ee1ab3511609d372916e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 03/76] fix: single-process logLikelihood reordered the
 caller's set

---
 jajapy/base/Model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 3741de2..6638259 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -317,6 +317,7 @@ class Model:
 		output: float
 			loglikelihood of ``sequences`` under this model.
 		"""
+		sequences = Set(sequences.sequences[:],sequences.times,sequences.type)
 		sequences.sort()
 		loglikelihood = 0.0
 		alpha_matrix = self._initAlphaMatrix(len(sequences.sequences[0]))
-- 
2.43.0


From dce2015e7e783591106a1cc3ee97055c8189966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 04/76] fix: BW with one process crashed on a trace the
 hypothesis cannot generate

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 43ed06d..174dee2 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1646,7 +1646,8 @@ class BW:
 				tasks.append(p.apply_async(self._processWork, [seq, times,]))
 			return [res.get() for res in tasks if res.get() != False]
 		else:
-			return [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			temp = [self._processWork(seq, times) for seq,times in zip(training_set.sequences,training_set.times)]
+			return [res for res in temp if res is not False]
 	
 	def _endPrint(self,it,rt):
 		print()
-- 
2.43.0


From 0a416254972fca26cd4d9d6ef6de1f5b5b6a4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 05/76] fix: BW raises the same clear error for every model
 when no training trace is possible

---
 jajapy/base/BW.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 174dee2..1ce803a 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -293,6 +293,10 @@ class BW:
 			while counter < max_it:
 				self._computeTaus()
 				temp = self._runProcesses(self.training_set)
+				if len(temp) == 0:
+					msg = 'The current hypothesis is not able to generate any of the '
+					msg+= 'sequence in the training set.'
+					raise ValueError(msg)
 				currentloglikelihood = self._update(temp)
 				counter += 1
 				bar_text = '   Diff. loglikelihood: '+str(round(currentloglikelihood-prevloglikelihood,5))+' (>'+str(epsilon)+')'
-- 
2.43.0


From df4b734f63f3b14b9b3706586bcd67d5a8039fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 06/76] fix: a BW object that had learned one kind of model
 could not learn another kind

---
 jajapy/base/BW.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 1ce803a..f7af793 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -171,6 +171,13 @@ class BW:
 						stormpy_output,return_data)
 
 
+	def _forgetPreviousLearning(self):
+		# the methods specific to the kind of model/traces of a previous
+		# learning must not be used for the next one.
+		for method in ['_h_e','_h_l','_h_tau','_computeTaus','_computeAlphas',
+					   '_computeBetas','_processWork','_update']:
+			self.__dict__.pop(method,None)
+
 	def _preparation(self,training_set,initial_model=None, nb_states: int=None,
 			random_initial_state: bool=True, min_exit_rate_time : int=None,
 			max_exit_rate_time: int=None, self_loop: bool =None,
@@ -178,6 +185,7 @@ class BW:
 			stormpy_output: bool = True,fixed_parameters: ndarray = False,
 			update_constant :bool = True, min_val: float = None, max_val: float = None):	
 
+		self._forgetPreviousLearning()
 		self._getInitialModel(initial_model,nb_states)
 		self._getTrainingSet(training_set)
 		if self.h == None:
@@ -1323,6 +1331,7 @@ class BW:
 			- the dictionary described above,
 			- the `returned_data` (see parameter description).
 		"""
+		self._forgetPreviousLearning()
 		self.type_model = PCTMC_ID
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
-- 
2.43.0


From 40048d8a5028615cdce8a652490e8658d180fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 07/76] fix: CTMCs converted to Stormpy gave wrong timed
 results, and Stormpy CTMCs were converted with squared exit rates

---
 jajapy/with_stormpy/model_converter.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index ac7a3b4..a795f90 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -107,8 +107,6 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 						t_expr.append(t_val)
 					else:
 						matrix[c][dest] = t_expr.index(t_val)
-		if ty == 1 and not from_prism:
-			matrix[c] *= h.exit_rates[si]
 	
 	if add_init_state != None:
 		#matrix = vstack((matrix,matrix[add_init_state]))
@@ -251,10 +249,8 @@ def CTMCtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	transition_matrix = deepcopy(h.matrix)
 	e = array([h.e(s) for s in range(h.nb_states)])
-	transition_matrix /= e[:,newaxis]
-	transition_matrix =  st.build_sparse_matrix(transition_matrix)
+	transition_matrix =  st.build_sparse_matrix(h.matrix)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
 										  rate_transitions=True)
-- 
2.43.0


From e21b805b5ddf10a84910141c6ca40256a1b03fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 08/76] fix: MDPs converted to Stormpy or loaded from Prism got
 wrong actions when some states lack an action

---
 jajapy/with_stormpy/model_converter.py | 65 +++++++++++++++++++-------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index a795f90..3652816 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -45,14 +45,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	
 	labelling = [None for _ in range(len(h.states))]
 	if ty == 2:
-		actions = []
-		for s in h.states:
-			for a in s.actions:
-				if len(actions_name) <= int(str(a)):
-					actions.append('a'+str(a))
-				else:
-					actions.append(actions_name[int(str(a))])
-		actions = list(set(actions))
+		actions, choices_name = _getActions(h,actions_name)
 		matrix = zeros((len(h.states),len(actions),len(h.states)))
 	elif ty == 0 or ty == 1:
 		matrix = zeros((len(h.states),len(h.states)))
@@ -85,7 +78,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 				dest = t.column
 				t_val = t.value()
 				if ty == 2:
-					matrix[c][int(str(a))][dest] = t_val
+					matrix[c][actions.index(choices_name[c][int(str(a))])][dest] = t_val
 				elif ty == 1 or ty == 0:
 					matrix[c][dest] = t_val
 				else:
@@ -136,6 +129,32 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 	elif ty == 4:
 		return PCTMC(matrix,labelling,t_expr,p_v,p_i,p_str)
 
+def _getActions(h,actions_name):
+	# returns the list of actions of the stormpy MDP h and, for each state, the
+	# name of the action of each choice. The choice labels are used if they
+	# identify the actions. Otherwise the i-th choice of any state is the i-th action.
+	choices_name = []
+	if h.has_choice_labeling():
+		choice = 0
+		for s in h.states:
+			choices_name.append([])
+			for _ in s.actions:
+				choices_name[-1] += list(h.choice_labeling.get_labels_of_choice(choice))
+				choice += 1
+			if len(set(choices_name[-1])) != len(s.actions) or len(choices_name[-1]) != len(s.actions):
+				choices_name = []
+				break
+	actions = list(actions_name)
+	if len(choices_name) > 0:
+		labels = [a for names in choices_name for a in names]
+		if len(actions) == 0:
+			actions = sorted(set(labels))
+		if set(labels).issubset(set(actions)):
+			return actions, choices_name
+	nb_actions = max([len(s.actions) for s in h.states])
+	actions = actions[:nb_actions]+['a'+str(i) for i in range(len(actions),nb_actions)]
+	return actions, [actions[:len(s.actions)] for s in h.states]
+
 def jajapyModeltoStormpy(h):
 	"""
 	Given a jajapy.MC, a jajapy.CTMC, a jajapy.MDP or an instantiated
@@ -192,16 +211,21 @@ def MDPtoStormpy(h):
 		The same model in stormpy format.
 	"""
 	state_labelling = _buildStateLabeling(h)
-	nb_actions = len(h.getActions())
-	transition_matrix = h.matrix
-	transition_matrix = reshape(transition_matrix.flatten(),(h.nb_states*nb_actions,h.nb_states))
-	transition_matrix =  st.build_sparse_matrix(transition_matrix,[nb_actions*i for i in range(h.nb_states)])
-	choice_labelling = st.storage.ChoiceLabeling(h.nb_states*nb_actions)
-	for ia,a in enumerate(h.getActions()):
+	# one choice for each action available in each state
+	choices = []
+	first_choice = []
+	for s in range(h.nb_states):
+		first_choice.append(len(choices))
+		choices += [(s,ia) for ia in range(len(h.getActions())) if (h.matrix[s,ia] != 0.0).any()]
+	transition_matrix = array([h.matrix[s,ia] for s,ia in choices])
+	transition_matrix =  st.build_sparse_matrix(transition_matrix,first_choice)
+	choice_labelling = st.storage.ChoiceLabeling(len(choices))
+	for a in h.getActions():
 		choice_labelling.add_label(a)
-		choice_labelling.add_label_to_choice(a,ia)
+	for choice,(s,ia) in enumerate(choices):
+		choice_labelling.add_label_to_choice(h.getActions()[ia],choice)
 	reward_models = {}
-	action_reward = [-1.0 for _ in range(len(transition_matrix))]
+	action_reward = [-1.0 for _ in choices]
 	reward_models["nb_executed_actions"] = st.SparseRewardModel(optional_state_action_reward_vector = action_reward)
 	components = st.SparseModelComponents(transition_matrix=transition_matrix,
 										  state_labeling=state_labelling,
@@ -309,7 +333,12 @@ def loadPrism(path: str):
 	except RuntimeError:
 		prism_program = st.parse_prism_program(path,True)
 	try:
-		stormpy_model = st.build_model(prism_program)
+		if prism_program.model_type == st.PrismModelType.MDP:
+			options = st.BuilderOptions(True,True)
+			options.set_build_choice_labels()
+			stormpy_model = st.build_sparse_model_with_options(prism_program,options)
+		else:
+			stormpy_model = st.build_model(prism_program)
 	except RuntimeError:
 		stormpy_model = st.build_parametric_model(prism_program)
 
-- 
2.43.0


From bf88e6320167dbf4d33c05594a0db988173360ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 09/76] fix: BW doubled the fixed rates of the states that the
 training set never visits

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index f7af793..fd38e56 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -756,7 +756,7 @@ class BW:
 		for s in range(len(den)):
 			if den[s] == 0.0:
 				den[s] = 1.0
-				num[s] = self.h.matrix[s]
+				num[s] = where(self.fixed_parameters[s],0.0,self.h.matrix[s])
 
 		matrix = num/den[:, newaxis]
 		matrix = self.h.matrix*self.fixed_parameters + matrix
-- 
2.43.0


From 64249e5e340e623c497950cb330019343d40c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 10/76] fix: simulated CTMCs could follow transitions of rate
 zero

---
 jajapy/ctmc/CTMC.py   | 9 ++++++---
 jajapy/pctmc/PCTMC.py | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 872e9b4..72d028a 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -7,7 +7,7 @@ from ..pctmc.PCTMC import PCTMC
 from ..base.Base_MC import *
 from math import exp, log
 from random import randint
-from numpy import array, zeros, dot, vstack, hstack, newaxis, delete, insert
+from numpy import array, zeros, dot, vstack, hstack, newaxis, delete, insert, inf
 from sys import platform
 from multiprocessing import cpu_count, Pool
 from sympy import sympify
@@ -173,10 +173,13 @@ class CTMC(Base_MC):
 		exps = []
 		for exp_lambda in self.matrix[state]:
 			if exp_lambda <= 0.0:
-				exps.append(1024)
+				exps.append(inf)
 			else:
 				exps.append(numpy.random.exponential(1/exp_lambda))
-		next_state= exps.index(min(exps))
+		if min(exps) == inf: # no leaving transition
+			next_state = state
+		else:
+			next_state = exps.index(min(exps))
 		next_obs = self.labelling[state]
 		return (next_obs, next_state, min(exps))
 
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 09705ca..bc6680f 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -287,7 +287,10 @@ class PCTMC(Parametric_Model):
 				exps.append(inf)
 			else:
 				exps.append(exponential(1/exp_lambda))
-		next_state= exps.index(min(exps))
+		if min(exps) == inf: # no leaving transition
+			next_state = state
+		else:
+			next_state = exps.index(min(exps))
 		next_obs  = self.labelling[state]
 		return (next_obs, next_state, min(exps))
 
-- 
2.43.0


From 7b80d4a241d2382ab58a83883ba68a38afb183bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 11/76] fix: CTMC.toMC replaced the rates of the CTMC by
 probabilities

---
 jajapy/ctmc/CTMC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 72d028a..cf521dd 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -277,11 +277,11 @@ class CTMC(Base_MC):
 		MC
 			An equivalent untimed model.
 		"""
-		new_matrix = self.matrix
+		new_matrix = array(self.matrix,dtype=float)
 		for i in range(self.nb_states):
 			new_matrix[i] /= self.e(i)
 
-		return MC(new_matrix,self.labelling,name)
+		return MC(new_matrix,self.labelling[:],name)
 
 	def save(self,file_path:str) -> None:
 		"""Save the model into a text file.
-- 
2.43.0


From e0dba200f134fd698accb432af84fa6732417d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 12/76] fix: loadCTMC, loadHMM and loadGoHMM accepted files of
 other models

---
 jajapy/ctmc/CTMC.py   | 3 ++-
 jajapy/gohmm/GoHMM.py | 3 ++-
 jajapy/hmm/HMM.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index cf521dd..1a57ce0 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -338,7 +338,8 @@ def loadCTMC(file_path: str) -> CTMC:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "CTMC":
-		print("ERROR: this file doesn't describe an CTMC: it describes a "+l)
+		msg = "this file doesn't describe an CTMC: it describes a "+l
+		raise ValueError(msg)
 	labelling = literal_eval(f.readline()[:-1])
 	name = f.readline()[:-1]
 	initial_state = array(literal_eval(f.readline()[:-1]))
diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 21e134a..d046e52 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -208,7 +208,8 @@ def loadGoHMM(file_path: str) -> GoHMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "GoHMM":
-		print("ERROR: this file doesn't describe an GoHMM: it describes a "+l)
+		msg = "this file doesn't describe an GoHMM: it describes a "+l
+		raise ValueError(msg)
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
 	name = f.readline()[:-1]
diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index 2b40bff..a9ee3d4 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -169,7 +169,8 @@ def loadHMM(file_path: str) -> HMM:
 	f = open(file_path,'r')
 	l = f.readline()[:-1] 
 	if l != "HMM":
-		print("ERROR: this file doesn't describe an HMM: it describes a "+l)
+		msg = "this file doesn't describe an HMM: it describes a "+l
+		raise ValueError(msg)
 	alphabet = literal_eval(f.readline()[:-1])
 	output = literal_eval(f.readline()[:-1])
 	output = array(output)
-- 
2.43.0


From 1e76729b6a1f024b5fdbab6eca4256e48cc278db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 13/76] fix: traces added to an empty Set got non-integer
 multiplicities

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index b3f0452..d880af3 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -28,7 +28,7 @@ class Set:
 		"""
 		if len(sequences) == 0:
 			self.sequences = []
-			self.times = []
+			self.times = array([],dtype=int)
 			self.type = t
 			return
 		if t != None:
-- 
2.43.0


From 4dd4ea3e4270b298150400765d09db5f97e660d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 14/76] fix: Set.sort left multiplicities that BW and addSet
 could not use

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index d880af3..0daf0fd 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -208,7 +208,7 @@ class Set:
 		"""
 		x = sorted(zip(self.sequences,self.times))
 		self.sequences = [s for s,_ in x]
-		self.times = [t for _,t in x]
+		self.times = array([t for _,t in x],dtype=int)
 		
 
 def loadSet(file_path: str) -> Set:
-- 
2.43.0


From 9a57e5c82e654a9ddba4e3163659f5ff807a3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 15/76] fix: Set.addSet shared its sequences with the other set

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 0daf0fd..f3af0e5 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -197,7 +197,7 @@ class Set:
 							"kind of Markov model.")
 		for i in range(len(s2.sequences)):
 			if not s2.sequences[i] in self.sequences:
-				self.sequences.append(s2.sequences[i])
+				self.sequences.append(s2.sequences[i][:])
 				self.times = append(self.times, s2.times[i])
 			else:
 				self.times[self.sequences.index(s2.sequences[i])] += s2.times[i]
-- 
2.43.0


From 5a73b148e3d37f78c598f0af0594f5e943e5fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 16/76] fix: Set could not be created from a list starting with
 a trace of length one

---
 jajapy/base/Set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index f3af0e5..9fc71c2 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -34,9 +34,11 @@ class Set:
 		if t != None:
 			self.type = t
 		else:
-			if (type(sequences[0][1])  == float64 or type(sequences[0][1])  == float) and type(sequences[0][0])  == str:
+			# the first trace may be too short to be recognized
+			s = next((i for i in sequences if len(i) > 1),sequences[0])
+			if len(s) > 1 and (type(s[1])  == float64 or type(s[1])  == float) and type(s[0])  == str:
 				self.type = 4 # timed CTMC
-			elif type(sequences[0][0])  == list:
+			elif len(s) > 0 and type(s[0])  == list:
 				self.type = 3 # GoHMM
 			else:
 				self.type = 0 # HMM or MC or non-timed CTMC
-- 
2.43.0


From b1dd15821f12c292a3fd7c70550a03c0435565c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 17/76] fix: simulations crashed in states whose probabilities
 sum to slightly less than 1

---
 jajapy/base/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/tools.py b/jajapy/base/tools.py
index 9ea2ab4..d31327a 100644
--- a/jajapy/base/tools.py
+++ b/jajapy/base/tools.py
@@ -56,7 +56,7 @@ def resolveRandom(m: list) -> int:
 	"""
 	m = array(m).cumsum()
 	mi = nonzero(m)[0]
-	r = random()
+	r = random()*m[-1] # the sum of m may be slightly different from 1.0
 	i = 0
 	while r > m[mi[i]]:
 		i += 1
-- 
2.43.0


From 8b48370a7ce6ebae9158cc87107aa1bf8a3e4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 18/76] fix: adding traces to a Set changed the list it was
 created from

---
 jajapy/base/Set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Set.py b/jajapy/base/Set.py
index 9fc71c2..76a7dac 100644
--- a/jajapy/base/Set.py
+++ b/jajapy/base/Set.py
@@ -46,7 +46,7 @@ class Set:
 		if type(times) == type(None):
 			self.setFromList(sequences)
 		else:
-			self.sequences = sequences
+			self.sequences = list(sequences)
 			self.times = array(times)
 	
 	def save(self,file_path: str) -> None:
-- 
2.43.0


From 0b097a174e6ba8639fbe62c10b7a519b58e01ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 19/76] fix: createMC, createMDP, createCTMC, createPCTMC and
 updateLabelling changed the caller's lists

---
 jajapy/base/Base_MC.py | 2 +-
 jajapy/ctmc/CTMC.py    | 2 +-
 jajapy/mc/MC.py        | 2 +-
 jajapy/mdp/MDP.py      | 2 +-
 jajapy/pctmc/PCTMC.py  | 3 ++-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index a2a8ca3..4f21bf6 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -48,7 +48,7 @@ class Base_MC(Model):
 			must be equal to the number of states.
 		""" 
 		if len(new_labels) == self.nb_states-1:
-			new_labels.append("init")
+			new_labels = new_labels+["init"]
 		if 'init' in new_labels:
 			self.labelling = new_labels
 			self.alphabet = list(set(new_labels))
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 1a57ce0..d99fc92 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -492,7 +492,7 @@ def createCTMC(transitions: list, labelling: list, initial_state,
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mc/MC.py b/jajapy/mc/MC.py
index a7834b0..328d5c7 100644
--- a/jajapy/mc/MC.py
+++ b/jajapy/mc/MC.py
@@ -335,7 +335,7 @@ def createMC(transitions: list, labelling: list, initial_state, name: str ="unkn
 	for t in transitions:
 		res[states.index(t[0])][states.index(t[1])] = t[2]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros(len(res))))
 	res = hstack((res,zeros(len(res))[:,newaxis]))
 	if type(initial_state) == int:
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 551def5..4e4c4e1 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -585,7 +585,7 @@ def createMDP(transitions:list, labelling:list, initial_state, name: str ="unkno
 	for t in transitions:
 		res[states.index(t[0])][actions.index(t[1])][states.index(t[2])] = t[3]
 	
-	labelling.append('init')
+	labelling = labelling+['init']
 	res = vstack((res,zeros((1,nb_actions,nb_states))))
 	res = concatenate((res,zeros((nb_states+1,nb_actions,1))),axis=2)
 	if type(initial_state) == int:
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index bc6680f..b117001 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -515,7 +515,8 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 		msg =  "The label 'init' cannot be used: it is reserved for initial states."
 		raise SyntaxError(msg)
 	
-	labelling.append('init')
+	labelling = labelling+['init']
+	transitions = transitions[:]
 	
 	states = [i[0] for i in transitions]+[i[1] for i in transitions]
 	states += [i[0] for i in synchronous_transitions]+[i[2] for i in synchronous_transitions]
-- 
2.43.0


From 9fc61b8729f2ce2f64bdb8bd10889e8caaf5e013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 20/76] fix: createGoHMM could not create any model

---
 jajapy/gohmm/GoHMM.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index d046e52..964096b 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -313,14 +313,8 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	"""
 	states = list(set([i[0] for i in transitions]+[i[1] for i in transitions]))
 	states.sort()
-	nb_distributions = len(output[0])
 	nb_states = len(states)
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-	output = array((nb_states,nb_distributions,2))
-	for s,ts in enumerate(output):
-		for i,t in enumerate(ts):
-			output[s,i][0] = t[0]
-			output[s,i][1] = t[1]
-	return GoHMM(matrix, output,initial_state,name)
+	return GoHMM(matrix, output,initial_state,name)
\ No newline at end of file
-- 
2.43.0


From 81bdcbdeb9dc9917a54400621d96a32fd01a9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 21/76] fix: PCTMC parameters named like a sympy object (beta,
 gamma, E, ...) were not recognized

---
 jajapy/base/Parametric_Model.py        | 4 ++--
 jajapy/pctmc/PCTMC.py                  | 6 +++---
 jajapy/with_stormpy/model_converter.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index 7dbf8d4..b60b5a9 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -4,7 +4,7 @@ from ast import literal_eval
 from copy import deepcopy
 from ..base.Set import Set
 from ..base.Model import Model, PCTMC_ID
-from sympy import sympify
+from sympy import sympify, Symbol
 
 class Parametric_Model(Model):
 	"""
@@ -475,5 +475,5 @@ def loadParametricModel(f):
 	parameter_indexes = literal_eval(f.readline()[:-1])
 	parameter_str = literal_eval(f.readline()[:-1])
 	transition_expr = literal_eval(f.readline()[:-1])
-	transition_expr = [sympify(i) for i in transition_expr]
+	transition_expr = [sympify(i,{p:Symbol(p) for p in parameter_str}) for i in transition_expr]
 	return matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name
\ No newline at end of file
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index b117001..08777ae 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -542,7 +542,7 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 	matrix = zeros((nb_states,nb_states),dtype='uint16')
 	for t in transitions:
 		val = str(t[2])
-		expr = sympify(val)
+		expr = sympify(val,{p:Symbol(p) for p in parameter_str})
 		if expr.is_real or not expr in transition_expr:
 			transition_expr.append(expr)
 		matrix[t[0],t[1]] = transition_expr.index(expr)
@@ -699,8 +699,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		add_in_matrix(trans_expr.index(expr),i,j,model,add_index)
 	
 	def add_sync_transition(a,s1, d1, expr1, s2, d2, expr2):
-		expr1 = sympify(expr1)
-		expr2 = sympify(expr2)
+		expr1 = sympify(expr1,{p:Symbol(p) for p in p_str})
+		expr2 = sympify(expr2,{p:Symbol(p) for p in p_str})
 		expr = expr1*expr2
 		for p in expr.free_symbols:
 			if not p in p_str:
diff --git a/jajapy/with_stormpy/model_converter.py b/jajapy/with_stormpy/model_converter.py
index 3652816..6eac5f0 100644
--- a/jajapy/with_stormpy/model_converter.py
+++ b/jajapy/with_stormpy/model_converter.py
@@ -94,7 +94,7 @@ def stormpyModeltoJajapy(h,actions_name:list = [],from_prism=False):
 							p_i.append([])
 							p_v[v] = nan
 						p_i[p_str.index(v)].append([c,dest])
-					t_val = sympify(str(t_val))
+					t_val = sympify(str(t_val),{p:symbols(p) for p in p_str})
 					if t_val.is_real or not t_val in t_expr:
 						matrix[c][dest] = len(t_expr)
 						t_expr.append(t_val)
-- 
2.43.0


From 8a25405144497a8c35d5e10897b801a90b28b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 22/76] fix: saving a CTMC or a PCTMC lost its synchronous
 transitions

---
 jajapy/ctmc/CTMC.py   | 8 +++++++-
 jajapy/pctmc/PCTMC.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index d99fc92..83ffee2 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -298,6 +298,10 @@ class CTMC(Base_MC):
 		f = open(file_path, 'w')
 		f.write("CTMC\n")
 		super()._save(f)
+		if len(self.synchronous_transitions) > 0:
+			f = open(file_path, 'a')
+			f.write(str(self.synchronous_transitions)+'\n')
+			f.close()
 	
 	def savePrism(self,file_path:str) -> None:
 		"""
@@ -345,8 +349,10 @@ def loadCTMC(file_path: str) -> CTMC:
 	initial_state = array(literal_eval(f.readline()[:-1]))
 	matrix = literal_eval(f.readline()[:-1])
 	matrix = array(matrix)
+	l = f.readline()[:-1]
+	synchronous_transitions = literal_eval(l) if l != "" else []
 	f.close()
-	return CTMC(matrix, labelling, name)
+	return CTMC(matrix, labelling, name, synchronous_transitions)
 
 def CTMC_random(nb_states: int, labelling: list, min_exit_rate_time : int,
 				max_exit_rate_time: int, self_loop: bool = True,
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 08777ae..d66ee81 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -392,6 +392,10 @@ class PCTMC(Parametric_Model):
 		f = open(file_path, 'w')
 		f.write("PCTMC\n")
 		super()._save(f)
+		if len(self.synchronous_transitions) > 0:
+			f = open(file_path, 'a')
+			f.write(str([(i,a,j,str(r)) for i,a,j,r in self.synchronous_transitions])+'\n')
+			f.close()
 	
 	def savePrism(self,file_path:str) -> None:
 		"""
@@ -465,9 +469,11 @@ def loadPCTMC(file_path: str) -> PCTMC:
 		msg = "This file doesn't describe a PCTMC: it describes a "+l
 		raise ValueError(msg)
 	matrix,labelling,parameter_values,parameter_indexes,parameter_str,transition_expr,name = loadParametricModel(f)
+	l = f.readline()[:-1]
+	synchronous_transitions = literal_eval(l) if l != "" else []
 	f.close()
 	return PCTMC(matrix,labelling,transition_expr,parameter_values,
-				 parameter_indexes,parameter_str,name)
+				 parameter_indexes,parameter_str,name,synchronous_transitions)
 
 def createPCTMC(transitions: list, labelling: list, parameters: list,
 				initial_state, parameter_instantiation: dict={},
-- 
2.43.0


From 1fd98f2b8f2497989522b435207fb586daa94192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 23/76] fix: models with several initial states could not be
 saved in Prism format

---
 jajapy/base/Base_MC.py | 8 +++++++-
 jajapy/pctmc/PCTMC.py  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Base_MC.py b/jajapy/base/Base_MC.py
index 4f21bf6..7713c8e 100644
--- a/jajapy/base/Base_MC.py
+++ b/jajapy/base/Base_MC.py
@@ -101,9 +101,15 @@ class Base_MC(Model):
 
 	def _savePrism(self,f) -> None:
 		f.write("module "+self.name+'\n')
-		f.write("\ts: [0.."+str(self.nb_states-1)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
+		initial_states = where(self.initial_state>0.0)[0]
+		f.write("\ts: [0.."+str(self.nb_states-1)+"]")
+		if len(initial_states) == 1:
+			f.write(" init "+str(initial_states[0]))
+		f.write(";\n\n")
 		self._savePrismMatrix(f)
 		f.write('endmodule\n\n')
+		if len(initial_states) > 1:
+			f.write("init "+' | '.join(['s='+str(s) for s in initial_states])+" endinit\n\n")
 
 		labels = {}
 		for s,l in enumerate(self.labelling):
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index d66ee81..d88d672 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -416,7 +416,11 @@ class PCTMC(Parametric_Model):
 			f.write(';\n')
 
 		f.write("\nmodule "+self.name+'\n')
-		f.write("\ts: [0.."+str(self.nb_states)+"] init "+str(where(self.initial_state==1.0)[0][0])+";\n\n")
+		initial_states = where(self.initial_state>0.0)[0]
+		f.write("\ts: [0.."+str(self.nb_states-1)+"]")
+		if len(initial_states) == 1:
+			f.write(" init "+str(initial_states[0]))
+		f.write(";\n\n")
 		
 		for s1 in range(self.nb_states):
 			if (self.matrix[s1]!=0).any():
@@ -428,6 +432,8 @@ class PCTMC(Parametric_Model):
 				res = res[:-2]+';\n'
 				f.write(res)
 		f.write('endmodule\n\n')
+		if len(initial_states) > 1:
+			f.write("init "+' | '.join(['s='+str(s) for s in initial_states])+" endinit\n\n")
 
 		labels = {}
 		for s,l in enumerate(self.labelling):
-- 
2.43.0


From a7dfce6e6e3c3cdf12726d958900ca95c672d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 24/76] fix: deterministic MDP_random crashed with more labels
 than states and its seed did not determine the model

---
 jajapy/mdp/MDP.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 4e4c4e1..c27d9cb 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -504,7 +504,8 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-	alphabet = list(set(labelling))
+	labelling = labelling[:nb_states]
+	alphabet = sorted(set(labelling))
 	matrix = []
 	for s in range(nb_states):
 		if not deterministic:
-- 
2.43.0


From 18a27bc17c60089e4f612124b35428596216b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 25/76] fix: initial distributions with a sum between 0.5 and
 1.5 were accepted

---
 jajapy/base/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 6638259..498ef49 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -43,7 +43,7 @@ class Model:
 			self.initial_state = array([0.0 for i in range(self.nb_states)])
 			self.initial_state[initial_state] = 1.0
 		else:
-			if round(sum(initial_state)) != 1.0:
+			if round(sum(initial_state),3) != 1.0:
 				msg = "Error: the sum of initial_state should be 1.0, here it's"
 				msg+= str(sum(initial_state))
 				raise ValueError(msg)
-- 
2.43.0


From 466400d24bb3cbd342d6a9f4682410026ebe172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 26/76] fix: PCTMC.instantiate accepted values that make rates
 negative

---
 jajapy/pctmc/PCTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index d88d672..84a7477 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -174,7 +174,7 @@ class PCTMC(Parametric_Model):
 			values = self.parameter_values
 		xs,ys = where(self.matrix != 0)
 		for x,y in zip(xs,ys):
-			v = self.evaluateTransition(x,y)
+			v = self.evaluateTransition(x,y,values)
 			if type(v) == float:
 				if v < 0.0:
 					return False
-- 
2.43.0


From ecbe2403068e24b9ed054622e735e53055d57b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 27/76] fix: MDP_random accepted the reserved label init after
 its first labels

---
 jajapy/mdp/MDP.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index c27d9cb..d3d9213 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -504,8 +504,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 	if sseed != None:
 		seed(sseed)
 		numpy.random.seed(sseed)
-	labelling = labelling[:nb_states]
-	alphabet = sorted(set(labelling))
+	alphabet = sorted(set(labelling[:nb_states]))
 	matrix = []
 	for s in range(nb_states):
 		if not deterministic:
@@ -515,7 +514,7 @@ def MDP_random(nb_states: int,labelling: list, actions: list,
 		else:
 			matrix.append([])
 			for a in actions:
-				dest = [choices(where(array(labelling) == o)[0]) for o in alphabet]
+				dest = [choices(where(array(labelling[:nb_states]) == o)[0]) for o in alphabet]
 				p = zeros(nb_states)
 				probs = randomProbabilities(len(alphabet))
 				for i,j in zip(dest,probs):
-- 
2.43.0


From 13c10f4780f6235db595b20375a17db80d7d79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 28/76] fix: createGoHMM accepts (state, mu, sigma) tuples

---
 jajapy/gohmm/GoHMM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jajapy/gohmm/GoHMM.py b/jajapy/gohmm/GoHMM.py
index 964096b..20f0979 100644
--- a/jajapy/gohmm/GoHMM.py
+++ b/jajapy/gohmm/GoHMM.py
@@ -295,6 +295,8 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 		`output[0][0][0]` is the mu parameter of the first distribution in
 		state 0, and `output[0][0][1]` is the sigma parameter of the first
 		distribution in state 0.
+		It can also be a list of tuples (state ID, mu, sigma), the
+		distributions of each state being given in order.
 	initial_state : int or list of float
 		Determine which state is the initial one (then it's the id of the
 		state), or what are the probability to start in each state (then it's
@@ -317,4 +319,6 @@ def createGoHMM(transitions:list, output:list, initial_state:str,name :str = 'un
 	matrix = zeros((nb_states,nb_states))
 	for t in transitions:
 		matrix[states.index(t[0])][states.index(t[1])] = t[2]
-	return GoHMM(matrix, output,initial_state,name)
\ No newline at end of file
+	if type(output[0][0]) in (int,float): # list of (state ID, mu, sigma)
+		output = [[(mu,sigma) for i,mu,sigma in output if i == s] for s in states]
+	return GoHMM(matrix, output,initial_state,name)
-- 
2.43.0


From 8e25a0cea67a2202390f2b43dac89144a1c70337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 29/76] fix: HMM could not be created from an output given as a
 list

---
 jajapy/hmm/HMM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/hmm/HMM.py b/jajapy/hmm/HMM.py
index a9ee3d4..6b48d3d 100644
--- a/jajapy/hmm/HMM.py
+++ b/jajapy/hmm/HMM.py
@@ -35,8 +35,8 @@ class HMM(Base_HMM):
 		self.output = array(output)
 		super().__init__(matrix,initial_state,name)
 		for i in range(self.nb_states):
-			if not checkProbabilities(output[i]):
-				raise ValueError("The probability to generate an observation in state",i,"should be 1.0, here it's",output[i].sum())
+			if not checkProbabilities(self.output[i]):
+				raise ValueError("The probability to generate an observation in state",i,"should be 1.0, here it's",self.output[i].sum())
 
 	def b(self, s: int, l: str) -> float:
 		"""
-- 
2.43.0


From 284a4b3d5924a2cd115de9ebb4db3a57533e2a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 30/76] fix: Alergia and IOAlergia crashed when asked for a
 Prism file

---
 jajapy/mc/Alergia.py    | 2 +-
 jajapy/mdp/IOAlergia.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 0f915c3..3350f4e 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -215,7 +215,7 @@ class Alergia:
 			stormpy_output = False
 		
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d26bec4..2f03f1e 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -553,7 +553,7 @@ class IOAlergia:
 
 
 		if output_file_prism:
-			self.h.savePrism(output_file_prism)
+			m.savePrism(output_file_prism)
 		
 		if stormpy_output:
 			return jajapyModeltoStormpy(m)
-- 
2.43.0


From 09b2bb1281c4b2a97330d1788eb8121644ea2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 31/76] fix: Alergia ignored the labels that only occur at the
 end of a single trace when testing compatibility

---
 jajapy/mc/Alergia.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 3350f4e..09cea6f 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -44,7 +44,7 @@ class PTA_node:
 class PTA:
 	def __init__(self,traces) -> None:
 		self.root = PTA_node('')
-		self.alphabet = []
+		self.alphabet = traces.getAlphabet()
 		traces.sort()
 		
 		for trace,time in zip(traces.sequences,traces.times):
@@ -52,8 +52,6 @@ class PTA:
 			curr = 0
 			while curr < len(trace):
 				char = trace[curr]
-				if not char in self.alphabet:
-					self.alphabet.append(char)
 				nnext = node.incKid(char,time)
 				if nnext == None:
 					node = self.addKids(node,trace,curr,time)
-- 
2.43.0


From 48d52257b392c1d64fd22597a5b2a6b61419ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 32/76] fix: Alergia reordered the training set

---
 jajapy/mc/Alergia.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index 09cea6f..f28f350 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -237,10 +237,6 @@ class Alergia:
 		self.createPTA(traces)
 
 	def createPTA(self,traces):
-		temp1 = traces.sequences[:]
-		temp2 = traces.times[:]
-		traces.sequences.sort()
-		traces.times = [temp2[temp1.index(i)] for i in traces.sequences]
-		self.T = PTA(traces)
+		self.T = PTA(Set(traces.sequences[:],traces.times,traces.type))
 		
 		
-- 
2.43.0


From 3aca0b98b0df0a1a58eaf84ab6a9306501b7d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 33/76] fix: IOAlergia gave transitions to wrong actions in the
 states where some actions were not seen

---
 jajapy/mdp/IOAlergia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 2f03f1e..d8ec552 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -407,7 +407,9 @@ class IOFPTA:
 		transitions = zeros((len(states)+1,len(actions),len(states)+1))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
-			for ai,a in enumerate([a for a in actions if s.actionAllowed(a)]):
+			for ai,a in enumerate(actions):
+				if not s.actionAllowed(a):
+					continue
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-- 
2.43.0


From 2d3147517e3405eadb9e9647c2177d75a45a7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 34/76] fix: IOAlergia merged states whose observations after
 an action have nothing in common

---
 jajapy/mdp/IOAlergia.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index d8ec552..376159a 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -279,20 +279,16 @@ class IOFPTA:
 		bool
 			True if the distance of distributions are in the Hoeffding bound.
 		"""
+		if not self.states[s1].actionAllowed(a) or not self.states[s2].actionAllowed(a):
+			return True
+
 		i1 = self.successor(s1, a, o)
 		i2 = self.successor(s2, a, o)
-
-		if i1 == None or i2 == None:
-			return True
-				
-		f1 = self.states[s1].getTransitionProb(a, i1)
+		f1 = 0 if i1 == None else self.states[s1].getTransitionProb(a, i1)
 		n1 = sum(self.states[s1].transitions[a][0])
-		f2 = self.states[s2].getTransitionProb(a, i2)
+		f2 = 0 if i2 == None else self.states[s2].getTransitionProb(a, i2)
 		n2 = sum(self.states[s2].transitions[a][0])
 
-		if n1*n2 == 0:
-			return True
-
 		return abs((f1/n1)-(f2/n2)) < (sqrt(1/n1)+sqrt(1/n2))*sqrt(log(2/epsilon)/2)
 
 	def findPredec(self,s: int) -> list:
-- 
2.43.0


From 7254c2dca5fa98ec39fef0afbf56d00fa218947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 35/76] fix: IOAlergia lost the observations of the states it
 merged

---
 jajapy/mdp/IOAlergia.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 376159a..2e9e41c 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -342,10 +342,9 @@ class IOFPTA:
 				if succ2 != None:
 					succ1 = self.successor(s1,a,o)
 					if succ1 != None:
+						t1 = self.states[s1].transitions[a]
+						t1[0][t1[1].index(succ1)] += self.states[s2].getTransitionProb(a,succ2)
 						self.merge(succ1,succ2)
-						#self.states[s1].transition_prob_add(a,succ1,self.states[s2].getTransitionProb(a,succ2))
-						#self.states[succ1].counterAdd(self.states[succ2].counter)
-						#self.states[succ2].counter = 0 #useless but meaningfull
 					else:
 						self.states[s1].transitionsAdd(a,self.states[s2].getTransitionProb(a,succ2),succ2)
 
-- 
2.43.0


From 3c65e3e3f604ee1d771964341989587c9c54b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 36/76] fix: IOAlergia added a second initial state to the
 models learned from traces starting with init

---
 jajapy/mdp/IOAlergia.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index 2e9e41c..f5cead4 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -398,8 +398,8 @@ class IOFPTA:
 
 		actions = self.actions
 		states = red
-		labelling = [self.states[i].observation for i in states]+['init']
-		transitions = zeros((len(states)+1,len(actions),len(states)+1))
+		labelling = [self.states[i].observation for i in states]
+		transitions = zeros((len(states),len(actions),len(states)))
 		
 		for si,s in enumerate([self.states[i] for i in states]):
 			for ai,a in enumerate(actions):
@@ -408,7 +408,12 @@ class IOFPTA:
 				tot = sum(s.transitions[a][0])
 				for p,s2 in zip(s.transitions[a][0],s.transitions[a][1]):
 					transitions[si][ai][states.index(s2)] = p/tot
-		transitions[-1][0][0] = 1.0
+		if labelling[0] != 'init':
+			# adding an initial state from which every action leads to the first state
+			transitions = concatenate((transitions,zeros((len(states),len(actions),1))),axis=2)
+			transitions = vstack((transitions,zeros((1,len(actions),len(states)+1))))
+			transitions[-1,:,0] = 1.0
+			labelling.append('init')
 		return MDP(transitions, labelling, actions)
 
 
-- 
2.43.0


From 42c03faba2e05184cbf7e5420d49a9e3ea4403f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 37/76] fix: composing CTMCs failed when the second one has
 more states than the first or init is not the last state

---
 jajapy/ctmc/CTMC.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 83ffee2..246a618 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -533,8 +533,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint8')
 	labelling = []
@@ -628,12 +628,12 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj <= 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][i*m2_nb_states+j] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(t_e)
+				matrix[-1][i*m2_nb_states+j] = len(t_e)
 				t_e.append(sympify('initp_'+str(i)+'*initq_'+str(j)))
-				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,get_state_index(i,j)])
-				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,get_state_index(i,j)])
+				p_i[p_str.index('initp_'+str(i))].append([len(matrix)-1,i*m2_nb_states+j])
+				p_i[p_str.index('initq_'+str(j))].append([len(matrix)-1,i*m2_nb_states+j])
 	
 	i = 0
 	while i < len(matrix): # removing unreachable states
-- 
2.43.0


From f34ff99bd9c0043787abec9e988560075f43e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 38/76] fix: states of a composition of CTMCs where both loop
 used undeclared parameters

---
 jajapy/ctmc/CTMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 246a618..f1be527 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -588,7 +588,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 			for j in m2_sids:
 				if m2.matrix[j,j] != 0.0:
 					matrix[get_state_index(i,j),get_state_index(i,j)] = len(t_e)
-					t_e.append(sympify("p"+str(i)+'_'+str(i)+'+q'+str(j)+'_'+str(j)))
+					t_e.append(sympify("p_"+str(i)+'_'+str(i)+'+q_'+str(j)+'_'+str(j)))
 
 	for si,ai,di,pi in m1.synchronous_transitions: # synchronous transitions
 		for sj,aj,dj,pj in m2.synchronous_transitions:
-- 
2.43.0


From 7ece39798fa6046b2c620f94672f0733afac2db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 39/76] fix: compositions of CTMCs with more than 255 distinct
 rates overflowed

---
 jajapy/ctmc/CTMC.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index f1be527..f49d905 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -536,7 +536,7 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
 	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
-	matrix= zeros((nb_states,nb_states),dtype='uint8')
+	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
 	p_v = {}
 	p_str = []
@@ -597,8 +597,8 @@ def synchronousCompositionCTMCs(m1: CTMC, m2: CTMC, name: str = "unknown_composi
 				matrix[get_state_index(si,sj),get_state_index(di,dj)] = len(t_e)-1
 	
 	labelling.append('init')
-	matrix = vstack((matrix,zeros(nb_states,dtype='uint8')))
-	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint8')[:,newaxis]))
+	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
+	matrix = hstack((matrix,zeros(nb_states+1,dtype='uint16')[:,newaxis]))
 	m1_init_trans = zeros(m1_nb_states)
 	for i in m1_init:
 		tmp = [m1.matrix[i][j] for j in m1_sids]
-- 
2.43.0


From 0e7afd230216b81947ed02330a0eebefd05750fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 40/76] fix: composing PCTMCs failed when the second one has
 more states than the first or init is not the last state

---
 jajapy/pctmc/PCTMC.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 84a7477..3211ba9 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -666,8 +666,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	m1_nb_states = m1.nb_states - len(m1_init)
 	m2_nb_states = m2.nb_states - len(m2_init)
 	nb_states = m1_nb_states * m2_nb_states	
-	m1_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m1.labelling) if li != 'init']
-	m2_sids = [i-m1.labelling[:i].count("init") for i,li in enumerate(m2.labelling) if li != 'init']
+	m1_sids = [i for i,li in enumerate(m1.labelling) if li != 'init']
+	m2_sids = [i for i,li in enumerate(m2.labelling) if li != 'init']
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
@@ -768,9 +768,9 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 	for i,si in enumerate(m1_init_trans):
 		for j,sj in enumerate(m2_init_trans):
 			if si*sj == 0.0:
-				matrix[-1][get_state_index(i,j)] = 0
+				matrix[-1][i*m2_nb_states+j] = 0
 			else:
-				matrix[-1][get_state_index(i,j)] = len(trans_expr)
+				matrix[-1][i*m2_nb_states+j] = len(trans_expr)
 				trans_expr.append(sympify(str(si*sj)))
 
 	return PCTMC(matrix,labelling,trans_expr,p_v,p_i,p_str,name), sync_trans
-- 
2.43.0


From 367b05fe12a63a48626e4ecc46a2f5c5df890290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 41/76] fix: composing PCTMCs lost the self-loops of the first
 one

---
 jajapy/pctmc/PCTMC.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 3211ba9..1197bbe 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -726,10 +726,12 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 			labelling.append(m1.labelling[s1]+','+m2.labelling[s2])
 	for i in m1_sids: # m1 transitions
 		for j in m1_sids:
-			add_transition(i,j,1)
+			if m1.matrix[i,j] != 0:
+				add_transition(i,j,1)
 	for i in m2_sids: # m2 transitions
 		for j in m2_sids:
-			add_transition(i,j,2)
+			if m2.matrix[i,j] != 0:
+				add_transition(i,j,2)
 	for i in m1_sids: # self loops
 		if m1.matrix[i,i] != 0:
 			for j in m2_sids:
-- 
2.43.0


From 0ea8b0a934a18a41e78a04df94d0f632f9209980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 42/76] fix: composing PCTMCs lost the parameter values of the
 second one and ordered parameters randomly

---
 jajapy/pctmc/PCTMC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 1197bbe..3d4773b 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -671,8 +671,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 
 	matrix= zeros((nb_states,nb_states),dtype='uint16')
 	labelling = []
-	p_v = m1.parameter_values #TODO m2.parameter_values
-	p_str = list(set(m1.parameter_str+m2.parameter_str))
+	p_v = {**m2.parameter_values, **m1.parameter_values}
+	p_str = m1.parameter_str+[p for p in m2.parameter_str if not p in m1.parameter_str]
 	p_i = [[] for _ in p_str]
 	trans_expr = [sympify('0.0')]
 
-- 
2.43.0


From f458db288ed0aa78e1d697071cc1c87f07dabe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 43/76] fix: composing PCTMCs failed when synchronous
 transitions have parameters

---
 jajapy/pctmc/PCTMC.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 3d4773b..3d53825 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -640,7 +640,9 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 			m1.transition_expr.append(expr)
 		m1.matrix[i,d] = m1.transition_expr.index(expr)
 		for p in expr.free_symbols:
-			m1.parameter_indexes[m1.parameter_str.index(p)].append([i,d])
+			indexes = m1.parameter_indexes[m1.parameter_str.index(p.name)]
+			if not [i,d] in indexes:
+				indexes.append([i,d])
 	removeUnreachableState(m1)
 	removeUnusedTrans(m1)
 	return m1
@@ -715,8 +717,8 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 		expr2 = sympify(expr2,{p:Symbol(p) for p in p_str})
 		expr = expr1*expr2
 		for p in expr.free_symbols:
-			if not p in p_str:
-				p_str.append(p)
+			if not p.name in p_str:
+				p_str.append(p.name)
 				p_i.append([])
 		x, y = get_state_index(s1,s2), get_state_index(d1, d2)
 		return [x,a,y,expr]
-- 
2.43.0


From f308e81c02378f7b2bb36246e0e074c081d5097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 44/76] fix: composing three PCTMCs or more lost synchronous
 transitions and gave them to other models

---
 jajapy/pctmc/PCTMC.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 3d53825..e2384b8 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -628,12 +628,15 @@ def synchronousCompositionPCTMCs(ms: list, name: str = "unknown_composition") ->
 	m1 = ms[0]
 	sync_trans = []
 	for i in range(1,len(ms)):
-		for t in sync_trans:
-			m1.synchronous_transitions.append(t)
 		m1, sync_trans = synchronousComposition2PCTMCs(m1, ms[i], name)
+		m1.synchronous_transitions = sync_trans
+	m1.synchronous_transitions = []
 	# add sync trans
+	actions = [a for m in ms for a in set(t[1] for t in m.synchronous_transitions)]
 	for t in sync_trans:
-		i, _, d, expr = t
+		i, a, d, expr = t
+		if actions.count(a) < 2: # no other model to synchronise with
+			continue
 		if m1.matrix[i,d] != 0.0:
 			expr = expr + m1.transitionExpression(i,d)
 		if not expr in m1.transition_expr:
@@ -749,6 +752,17 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 			sj,aj,dj,pj = sync_2
 			if ai == aj:
 				sync_trans.append(add_sync_transition(ai,si,di,pi,sj,dj,pj))
+	# the actions of only one model may synchronise with another model later on
+	actions_1 = [sync[1] for sync in m1.synchronous_transitions]
+	actions_2 = [sync[1] for sync in m2.synchronous_transitions]
+	for si,ai,di,pi in m1.synchronous_transitions:
+		if not ai in actions_2:
+			for j in m2_sids:
+				sync_trans.append(add_sync_transition(ai,si,di,pi,j,j,1))
+	for sj,aj,dj,pj in m2.synchronous_transitions:
+		if not aj in actions_1:
+			for i in m1_sids:
+				sync_trans.append(add_sync_transition(aj,i,i,1,sj,dj,pj))
 				
 	labelling.append('init')
 	matrix = vstack((matrix,zeros(nb_states,dtype='uint16')))
-- 
2.43.0


From 8bc735baf826a3de88587c526e7b0a52ae6796f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 45/76] fix: untimed likelihoods of CTMCs and PCTMCs with
 absorbing states were nan

---
 jajapy/ctmc/CTMC.py   | 10 ++++++++--
 jajapy/pctmc/PCTMC.py |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index f49d905..be58fe3 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -131,7 +131,10 @@ class CTMC(Base_MC):
 		float
 			A probability.
 		"""
-		return self.l(s1,s2, obs)/self.e(s1)
+		e = self.e(s1)
+		if e == 0.0: # absorbing state
+			return 1.0 if s1 == s2 and self.labelling[s1] == obs else 0.0
+		return self.l(s1,s2, obs)/e
 	
 	def expected_time(self, s:int) -> float:
 		"""
@@ -279,7 +282,10 @@ class CTMC(Base_MC):
 		"""
 		new_matrix = array(self.matrix,dtype=float)
 		for i in range(self.nb_states):
-			new_matrix[i] /= self.e(i)
+			if self.e(i) == 0.0: # absorbing state
+				new_matrix[i,i] = 1.0
+			else:
+				new_matrix[i] /= self.e(i)
 
 		return MC(new_matrix,self.labelling[:],name)
 
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index e2384b8..9ad112a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -140,8 +140,8 @@ class PCTMC(Parametric_Model):
 		"""
 		try:
 			e = self.e(s1)
-			if e == 0.0:
-				return inf
+			if e == 0.0: # absorbing state
+				return 1.0 if s1 == s2 and self.labelling[s1] == obs else 0.0
 			return self.l(s1,s2, obs)/e
 		except ValueError:
 			print("WARN: cannot compute the exit-rate of non-instantiated state "+str(s1))
-- 
2.43.0


From 0d5f2c0bf0ceb739d05d25307558b82b896c4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 46/76] fix: composed PCTMCs listed the same transition twice
 for a parameter used by both self-loops

---
 jajapy/pctmc/PCTMC.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 9ad112a..0b22141 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -692,13 +692,15 @@ def synchronousComposition2PCTMCs(m1: PCTMC, m2: PCTMC, name: str = "unknown_com
 				x,y = get_state_index(s1,i),get_state_index(s2,i)
 				matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 		elif model == 2:
 			for i in m1_sids:
 				x,y = get_state_index(i,s1),get_state_index(i,s2)
 				matrix[x,y] = trans
 				for ind in add_index:
-					p_i[ind].append([x,y])
+					if not [x,y] in p_i[ind]:
+						p_i[ind].append([x,y])
 	
 	def add_transition(i,j,model):
 		if model == 1:
-- 
2.43.0


From 33f161203f8594ae936446376f3d27bf10a401e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 47/76] fix: BW.fit crashed on PCTMCs when no parameter is
 fixed

---
 jajapy/base/BW.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index fd38e56..12e43f9 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -260,6 +260,8 @@ class BW:
 			self._h_e = self._h_e_PCTMC
 			self._h_l = self._h_l_PCTMC
 			self._h_tau=self._h_tau_PCTMC
+			if type(fixed_parameters) == bool: # no fixed parameters
+				fixed_parameters = []
 			self._sortParameters(fixed_parameters)
 
 		elif self.type_model == HMM_ID:
-- 
2.43.0


From 35c894c5b9f27cc800af022fd72e96d6733e0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 48/76] fix: BW.fit crashed on PCTMCs with timed traces

---
 jajapy/base/BW.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 12e43f9..55f1891 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -581,10 +581,11 @@ class BW:
 
 		pi = self.h.initial_state
 
-		alpha = empty((n_obs + 1, self.nb_states))
+		alpha = empty((n_obs, self.nb_states))
 		alpha[0] = pi
-		for t in range(1, n_obs + 1):
+		for t in range(1, n_obs):
 			alpha[t] = tau.T @ (phi[t - 1] * alpha[t - 1])
+		alpha[-1] *= phi[-1]
 
 		return alpha.T
 
-- 
2.43.0


From f314701e614c0541ae8db51a5b0466b5f9c217ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 49/76] fix: BW.fit_parameters and
 BW.fit_nonInstantiatedParameters always crashed

---
 jajapy/base/BW.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 55f1891..f86af24 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -145,15 +145,7 @@ class BW:
 		Model
 			fitted model.
 		"""
-		if platform == "win32" or platform == "darwin":
-			self.processes = 1
-		else:
-			if type(processes) != int:
-				self.processes = cpu_count()-1
-			elif processes > cpu_count() or processes < 1:
-				self.processes = cpu_count()-1
-			else:
-				self.processes = processes
+		self._setProcesses(processes)
 		
 		if type(verbose) != int:
 			verbose = 2
@@ -171,6 +163,17 @@ class BW:
 						stormpy_output,return_data)
 
 
+	def _setProcesses(self,processes: int=None):
+		if platform == "win32" or platform == "darwin":
+			self.processes = 1
+		else:
+			if type(processes) != int:
+				self.processes = cpu_count()-1
+			elif processes > cpu_count() or processes < 1:
+				self.processes = cpu_count()-1
+			else:
+				self.processes = processes
+
 	def _forgetPreviousLearning(self):
 		# the methods specific to the kind of model/traces of a previous
 		# learning must not be used for the next one.
@@ -1335,6 +1338,10 @@ class BW:
 			- the `returned_data` (see parameter description).
 		"""
 		self._forgetPreviousLearning()
+		self._setProcesses()
+		if type(verbose) == bool: # with the recap, or nothing at all
+			verbose = 3 if verbose else 0
+		self.verbose = verbose
 		self.type_model = PCTMC_ID
 		if initial_model.model_type != PCTMC_ID:
 			raise RuntimeError("The initial model must be a PCTMC")
@@ -1350,8 +1357,9 @@ class BW:
 			if not p in initial_model.parameter_str:
 				raise RuntimeError('Parameter '+p+' is not in the initial model.')
 
-		print("Fitting only parameters: ",end='')
-		print(', '.join(to_update))
+		if self.verbose > 0:
+			print("Fitting only parameters: ",end='')
+			print(', '.join(to_update))
 
 		# remove all the states never used in the training set:
 		# we only care here about the values of some parameters,
@@ -1359,8 +1367,9 @@ class BW:
 		if type(traces) != Set:
 			traces = Set(traces)
 		alphabet = traces.getAlphabet()
-		print("Removing unused states: ", end='')
-		print('from',initial_model.nb_states,'states to',end=' ')
+		if self.verbose > 0:
+			print("Removing unused states: ", end='')
+			print('from',initial_model.nb_states,'states to',end=' ')
 		s = 0
 		while s < initial_model.nb_states:
 			if initial_model.getLabel(s) not in alphabet:
@@ -1392,7 +1401,8 @@ class BW:
 			else:
 				t += 1
 		#initial_model.alphabet = alphabet
-		print(initial_model.nb_states)
+		if self.verbose > 0:
+			print(initial_model.nb_states)
 
 		self._getTrainingSet(traces)
 		
-- 
2.43.0


From d7d0fd9fed19046432f21e66bca3b8c5d0a06a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 50/76] fix: BW.fit_parameters did not instantiate the
 parameters when no bound is given

---
 jajapy/base/BW.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index f86af24..0ea637f 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1406,13 +1406,7 @@ class BW:
 
 		self._getTrainingSet(traces)
 		
-		if min_val != None:
-			if max_val != None:
-				self.h.randomInstantiation(min_val=min_val, max_val=max_val)
-			else:
-				self.h.randomInstantiation(min_val=min_val)
-		elif max_val != None:
-			self.h.randomInstantiation(max_val=max_val)
+		self.h.randomInstantiation(min_val=min_val, max_val=max_val)
 		
 		if self.training_set.type == 4:
 			self._computeAlphas = self._computeAlphas_timed
-- 
2.43.0


From b3ff2cc1308e49b263d490a7898c356e52823ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 51/76] fix: BW.fit_nonInstantiatedParameters changed the
 instantiated parameters

---
 jajapy/base/BW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 0ea637f..291af4e 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1274,7 +1274,8 @@ class BW:
 			raise RuntimeError("The initial model must be a PCTMC")
 		to_update = []
 		for p in initial_model.parameter_str:
-			to_update.append(p)
+			if not initial_model.isInstantiated(param=p):
+				to_update.append(p)
 		
 		return self.fit_parameters(traces,initial_model,to_update,epsilon,
 								max_it,pp,verbose,return_data,min_val,max_val)
-- 
2.43.0


From 32d6ec84a9961fda71a79f6bbf10104e543ed5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 52/76] fix: BW.fit_parameters removed states of the user's
 model and fitted the rates of another model

---
 jajapy/base/BW.py | 43 -------------------------------------------
 1 file changed, 43 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 291af4e..f42d7de 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1362,49 +1362,6 @@ class BW:
 			print("Fitting only parameters: ",end='')
 			print(', '.join(to_update))
 
-		# remove all the states never used in the training set:
-		# we only care here about the values of some parameters,
-		# the structure of the model is out of scope.
-		if type(traces) != Set:
-			traces = Set(traces)
-		alphabet = traces.getAlphabet()
-		if self.verbose > 0:
-			print("Removing unused states: ", end='')
-			print('from',initial_model.nb_states,'states to',end=' ')
-		s = 0
-		while s < initial_model.nb_states:
-			if initial_model.getLabel(s) not in alphabet:
-				initial_model.nb_states -= 1
-				initial_model.labelling = initial_model.labelling[:s]+initial_model.labelling[s+1:]
-				initial_model.initial_state = delete(initial_model.initial_state,s)
-				initial_model.matrix = delete(initial_model.matrix,s,0)
-				initial_model.matrix = delete(initial_model.matrix,s,1)
-				for j in range(len(initial_model.parameter_indexes)):
-					k = 0
-					while k < len(initial_model.parameter_indexes[j]): 
-						if s in initial_model.parameter_indexes[j][k]:
-							initial_model.parameter_indexes[j] = initial_model.parameter_indexes[j][:k]+initial_model.parameter_indexes[j][k+1:]
-						else:
-							if initial_model.parameter_indexes[j][k][0] > s:
-								initial_model.parameter_indexes[j][k][0] -= 1
-							if initial_model.parameter_indexes[j][k][1] > s:
-								initial_model.parameter_indexes[j][k][1] -= 1
-							k += 1
-				s = -1
-			s += 1
-		t = 1
-		l = len(initial_model.transition_expr)
-		while t < l:
-			if not (initial_model.matrix == t).any():
-				initial_model.transition_expr = initial_model.transition_expr[:t]+initial_model.transition_expr[t+1:]
-				initial_model.matrix -= (initial_model.matrix > t)
-				l -= 1
-			else:
-				t += 1
-		#initial_model.alphabet = alphabet
-		if self.verbose > 0:
-			print(initial_model.nb_states)
-
 		self._getTrainingSet(traces)
 		
 		self.h.randomInstantiation(min_val=min_val, max_val=max_val)
-- 
2.43.0


From 17cbc4b87ebe8cb16e3a0a998669a31f5ea9085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 53/76] fix: BW learned complex values for parameters used with
 different powers and crashed on those never used

---
 jajapy/base/BW.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index f42d7de..6e7fe66 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1,7 +1,7 @@
 from sys import platform
 from multiprocessing import cpu_count, Pool
 from numpy.polynomial.polynomial import polyroots
-from numpy import array, dot, append, zeros, ones, float64, inf, ndarray, log, isnan, sqrt, stack, longdouble, float16, where, delete, newaxis, full, infty, empty
+from numpy import array, dot, append, zeros, ones, float64, inf, ndarray, log, isnan, sqrt, stack, longdouble, float16, where, delete, newaxis, full, infty, empty, isreal
 from math import exp
 from time import perf_counter
 from .Set import Set
@@ -1163,6 +1163,8 @@ class BW:
 				else:
 					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self._h_e(s)*self.h.parameter_values[param]**c)
 
+			if self.h.parameter_values[param] == 0.0:
+				temp = [0.0]
 			terms_cat3.append(array(temp))
 
 		return [den_cste, num_cste, den_cat1, num_cat1, den_cat2, num_cat2, terms_cat3, proba_seq, times]
@@ -1209,7 +1211,11 @@ class BW:
 
 		for p in range(len(terms_cat3[0])):
 			temp = array([i[p] for i in terms_cat3], dtype=float).sum(axis=0)
-			values.append(max(polyroots(temp)))
+			if (temp[1:] == 0.0).all():
+				values.append(self.h.parameter_values[self.parameters_cat[2][p]])
+			else:
+				roots = polyroots(temp)
+				values.append(max(roots[isreal(roots)].real))
 
 		self.h.instantiate(parameters,values)
 		return currentloglikelihood
-- 
2.43.0


From 65f937869241bad6a03f39c710947dab381dd4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 54/76] fix: BW updated the constants used by several
 transitions of a PCTMC from one of them, and crashed on unused ones

---
 jajapy/base/BW.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 6e7fe66..5afd4f7 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1097,19 +1097,19 @@ class BW:
 			return False
 		####################
 		if self.update_constant:
-			num_cste = array(self.h.transition_expr)
-			den_cste = ones(len(num_cste))
+			num_cste = zeros(len(self.h.transition_expr))
+			den_cste = zeros(len(self.h.transition_expr))
 			for itrans,trans in enumerate(self.h.transition_expr[1:]):
-				if trans.is_real:
-					s,ss = where(self.h.matrix == itrans+1)
-					s,ss = s[0],ss[0]
+				if not trans.is_real or trans == 0:
+					continue
+				for s,ss in zip(*where(self.h.matrix == itrans+1)):
 					if timed:
 						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
+						den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
 					else:
 						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] = dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/proba_seq).sum()
-					num_cste[itrans+1] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
+						den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/proba_seq).sum()
+					num_cste[itrans+1] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
 			num_cste = None
@@ -1186,11 +1186,8 @@ class BW:
 		if self.update_constant:
 			den_cste = array([i[0] for i in temp]).sum(axis=0)
 			num_cste = array([i[1] for i in temp]).sum(axis=0)
-			for p in range(len(den_cste)):
-				if den_cste[p] == 0.0:
-					den_cste[p] = 1.0
-					num_cste[p] = self.h.transition_expr[p]
-			self.h.transition_expr = [sympify(i) for i in (num_cste/den_cste).tolist()]
+			self.h.transition_expr = [t if d == 0.0 else sympify(float(n/d))
+							 for t,n,d in zip(self.h.transition_expr,num_cste,den_cste)]
 	
 		for p in range(len(den_cat1)):
 			if den_cat1[p] == 0.0:
-- 
2.43.0


From d7ea4869c7439727ae3f287bff5b0bf566b5231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 55/76] fix: BW made untimed traces less likely for PCTMCs with
 constant rates

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 5afd4f7..a59d78f 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1108,7 +1108,7 @@ class BW:
 						den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,times/proba_seq).sum()
 					else:
 						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq])
-						den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/proba_seq).sum()
+						den_cste[itrans+1] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],times/(self._h_e(s)*proba_seq)).sum()
 					num_cste[itrans+1] += dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
 
 		else:
-- 
2.43.0


From 67c74864932b770b5acbd3ebae1d1362a40a3a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 56/76] fix: BW crashed on PCTMCs with powers of fixed
 parameters

---
 jajapy/base/BW.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index a59d78f..575d78e 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -987,11 +987,8 @@ class BW:
 		if t.is_Mul:
 			res = 1.0
 			for a in t.args:
-				if a.is_Symbol:
-					if not a.name == p:
-						res *= self.h.parameterValue(a.name)
-				else:
-					res *= a
+				if not (a.is_Symbol and a.name == p):
+					res *= a.evalf(subs=self.h.parameter_values)
 			return float(res)
 		else:
 			return 1
-- 
2.43.0


From a47aac2be42c556fb2dd60fdd314e1548374b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 57/76] fix: createPCTMC merged the equal constant rates of
 different transitions

---
 jajapy/pctmc/PCTMC.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 0b22141..b1cf4eb 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -556,8 +556,10 @@ def createPCTMC(transitions: list, labelling: list, parameters: list,
 		val = str(t[2])
 		expr = sympify(val,{p:Symbol(p) for p in parameter_str})
 		if expr.is_real or not expr in transition_expr:
+			matrix[t[0],t[1]] = len(transition_expr)
 			transition_expr.append(expr)
-		matrix[t[0],t[1]] = transition_expr.index(expr)
+		else:
+			matrix[t[0],t[1]] = transition_expr.index(expr)
 		for p in expr.free_symbols:
 			parameter_indexes[parameter_str.index(str(p))].append([t[0],t[1]])
 
-- 
2.43.0


From 532fe1713c17f239f758f2e5ecc7dbe034e6988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 58/76] fix: BW.fit crashed on PCTMCs with untimed traces

---
 jajapy/base/BW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 575d78e..99f1905 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1467,7 +1467,7 @@ class BW:
 			self.type_model = CTMC_ID
 			self.h = CTMC_random(nb_states,self.alphabet,min_exit_rate_time,max_exit_rate_time,self_loop,random_initial_state)
 
-	def _computeAlphas_matrix(self, sequence: list[str]) -> array:
+	def _computeAlphas_matrix(self, sequence: list[str], times_seq=None) -> array:
 		"""
 		Compute the alpha values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
@@ -1540,7 +1540,7 @@ class BW:
 				alpha_matrix[k+1,s] = dot(alpha_matrix[k],p)
 		return alpha_matrix.T
 
-	def _computeBetas_matrix(self, sequence: list[str]) -> array:
+	def _computeBetas_matrix(self, sequence: list[str], times_seq=None) -> array:
 		"""
 		Compute the beta values for ``sequence`` under the current BW
 		hypothesis using a matrix representation.
-- 
2.43.0


From a6ddbecd98084d79c364bf295e573de4c2f1f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 59/76] fix: BW.fit_parameters learned nan from untimed traces
 when the PCTMC has absorbing states

---
 jajapy/base/BW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 99f1905..1ef7eb8 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1077,8 +1077,8 @@ class BW:
 		if self.h.labelling[s1] != obs:
 			return 0.0
 		e = self._h_e(s1)
-		if e == 0.0:
-			return inf
+		if e == 0.0: # absorbing state
+			return float(s1 == s2)
 		return self.hval[s1,s2]/e
 
 	def _processWork_PCTMC(self,sequence: list, times: int):
-- 
2.43.0


From 920c9cbba709afa346e3e216c94ade713e24f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 60/76] fix: BW crashed when a parameter of a PCTMC becomes 0

---
 jajapy/base/BW.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 1ef7eb8..8c215f2 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -1081,6 +1081,11 @@ class BW:
 			return float(s1 == s2)
 		return self.hval[s1,s2]/e
 
+	def _usableTransitions(self, param: str) -> list:
+		# transitions of rate 0 (one of their parameters is equal to 0) are
+		# never used: they do not give any information.
+		return [(s,ss) for s,ss in self.h.parameterIndexes(param) if self.hval[s,ss] != 0.0]
+
 	def _processWork_PCTMC(self,sequence: list, times: int):
 		times_seq, obs_seq = self._splitTime(sequence)
 		if times_seq == None:
@@ -1116,7 +1121,7 @@ class BW:
 		num_cat1 = zeros(len(self.parameters_cat[0]))
 		den_cat1 = zeros(len(self.parameters_cat[0]))
 		for iparam,param in enumerate(self.parameters_cat[0]):
-			for s,ss in self.h.parameterIndexes(param):
+			for s,ss in self._usableTransitions(param):
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 				else:
@@ -1133,7 +1138,7 @@ class BW:
 		den_cat2 = zeros(len(self.parameters_cat[1]))
 		for iparam,param in enumerate(self.parameters_cat[1]):
 			p_index = self.h.parameter_str.index(param)
-			for s,ss in self.h.parameterIndexes(param):
+			for s,ss in self._usableTransitions(param):
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 					den_cat2[iparam] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1]*times_seq,self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()
@@ -1146,7 +1151,7 @@ class BW:
 		for iparam,param in enumerate(self.parameters_cat[2]):
 			p_index = self.h.parameter_str.index(param)
 			temp = [0.0]
-			for s,ss in self.h.parameterIndexes(param):
+			for s,ss in self._usableTransitions(param):
 				if timed:
 					p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
 				else:
@@ -1160,8 +1165,6 @@ class BW:
 				else:
 					temp[c] += dot(alpha_matrix[s][:-1]*beta_matrix[s][:-1],self.a_pis[s,ss,p_index]*self.hval[s,ss]*times/proba_seq).sum()/(self._h_e(s)*self.h.parameter_values[param]**c)
 
-			if self.h.parameter_values[param] == 0.0:
-				temp = [0.0]
 			terms_cat3.append(array(temp))
 
 		return [den_cste, num_cste, den_cat1, num_cat1, den_cat2, num_cat2, terms_cat3, proba_seq, times]
-- 
2.43.0


From bd827f3263ef5e095c3a3f806441bb0eb85df3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 61/76] fix: Active_BW_MDP always crashed when sampling

---
 jajapy/mdp/Active_BW_MDP.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index bd5516a..9926fd0 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -312,18 +312,18 @@ class Active_BW_MDP(BW):
 		scheduler_exploit = ActiveLearningScheduler(mat,self.h)
 		scheduler_explore = UniformScheduler(self.h.getActions())
 
-		traces = Set([],t=1)
+		sequences, times = [], []
 		for n in range(nb_sequence):			
 			if random() > epsilon_greedy:
 				seq = self.sul.run(sequence_length,scheduler_explore)
 			else:
 				seq = self.sul.run(sequence_length,scheduler_exploit)
 
-			if not seq in traces.sequences:
-				traces.sequences.append(seq)
-				traces.times.append(0)
-			traces.times[traces.sequences.index(seq)] += 1
-		return traces
+			if not seq in sequences:
+				sequences.append(seq)
+				times.append(0)
+			times[sequences.index(seq)] += 1
+		return Set(sequences,times,t=1)
 
 	def _strategy(self,traces:Set) -> array:
 		if self.processes > 1:
@@ -331,11 +331,11 @@ class Active_BW_MDP(BW):
 			tasks = []
 			for seq,times in zip(traces.sequences,traces.times):
 				tasks.append(p.apply_async(self._computeProbas, [seq, times,]))
-			temp = [res.get() for res in tasks if res != False]
+			temp = [res.get() for res in tasks]
 		else:
 			temp = [self._computeProbas(seq, times) for seq,times in zip(traces.sequences,traces.times)]
-			temp = [i for i in temp if i!=False]
-		res = sum(temp)
+		temp = [i for i in temp if i is not False]
+		res = sum(temp,zeros(shape=(self.nb_states,len(self.actions))))
 		return res
 
 	def _computeProbas(self,seq:list,times:int) -> array:
-- 
2.43.0


From 785c2b9054c51a1ba4436b3cdd6932d607bfd62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 62/76] fix: Active_BW_MDP crashed when asked for its data
 along with a Stormpy model

---
 jajapy/mdp/Active_BW_MDP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 9926fd0..b596f20 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -198,7 +198,7 @@ class Active_BW_MDP(BW):
 			fitted MDP.
 		"""
 		if stormpy_output and not self.stormpy_installed:
-			if self.verbose > 0:
+			if verbose > 0:
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
@@ -256,16 +256,16 @@ class Active_BW_MDP(BW):
 		if verbose == 3:
 			self._endPrint(counter,running_time)
 
-		if stormpy_output :
-			self.h = self.jajapyModeltoStormpy(self.h)
-			
 		if return_data:
 			info = {"learning_rounds":counter,
 					"learning_time":running_time,
 					"training_set_loglikelihood":self.h.logLikelihood(total_traces)}
-			return self.h, info
-	
 
+		if stormpy_output :
+			self.h = self.jajapyModeltoStormpy(self.h)
+			
+		if return_data:
+			return self.h, info
 
 		return self.h
 
-- 
2.43.0


From b0f5cd0a87135eb3e9afa080120f69058c2fb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 63/76] fix: Active_BW_MDP added its samples to the user's
 training set and crashed on lists

---
 jajapy/mdp/Active_BW_MDP.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index b596f20..15e4f5f 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -6,6 +6,7 @@ from multiprocessing import Pool
 from random import random
 from numpy import zeros, dot, array, inf
 from time import perf_counter
+from copy import deepcopy
 
 class ActiveLearningScheduler:
 	"""
@@ -202,6 +203,12 @@ class Active_BW_MDP(BW):
 				print("WARNING: stormpy not found. The output model will be a Jajapy model")
 			stormpy_output = False
 
+		# the active samples are added to a copy of the given training set
+		if type(traces) == Set:
+			traces = Set(deepcopy(traces.sequences),traces.times,t=1)
+		else:
+			traces = Set([list(seq) for seq in traces],t=1)
+
 		counter = 0
 		self.sul = sul
 		start_time = perf_counter()
-- 
2.43.0


From 7020ed19a5971221d6d506d5e7ecce73440d134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 64/76] fix: Active_BW_MDP ignored the learning rate

---
 jajapy/mdp/Active_BW_MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 15e4f5f..20ebc87 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -242,7 +242,7 @@ class Active_BW_MDP(BW):
 					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
 				else:
 					lr_it = lr
-				old_h = self.h
+				old_h = deepcopy(self.h)
 				_, info = super().fit(traces, initial_model=self.h,
 							output_file=output_file, epsilon=epsilon,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
-- 
2.43.0


From c9069233de61b8bdeb76d828718cac79468c7ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 65/76] fix: Active_BW_MDP learned negative probabilities with
 a dynamic learning rate

---
 jajapy/mdp/Active_BW_MDP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 20ebc87..223c7d3 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -239,7 +239,7 @@ class Active_BW_MDP(BW):
 				counter += info['learning_rounds']
 			else:
 				if lr == "dynamic":
-					lr_it = sum(traces.times)/(sum(total_traces.times)-sum(traces.times))
+					lr_it = sum(traces.times)/sum(total_traces.times)
 				else:
 					lr_it = lr
 				old_h = deepcopy(self.h)
-- 
2.43.0


From 213d54f7cf6b0a33879e8d73e05324504e84d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 66/76] fix: Active_BW_MDP looped forever or crashed on states
 where some actions were never or always used

---
 jajapy/mdp/Active_BW_MDP.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 223c7d3..2693195 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -48,8 +48,13 @@ class ActiveLearningScheduler:
 		str
 			Action chosen by the scheduler.
 		"""
-		tot = self.mat[s].sum()
-		acts = [(tot-i)/(tot*(self.m.nb_actions-1)) for i in self.mat[s]]
+		if self.m.nb_actions == 1:
+			return 0
+		# each action must remain possible: the less used one may be the only
+		# one available in the current state of the system under learning.
+		times = self.mat[s]+1.0
+		tot = times.sum()
+		acts = [(tot-i)/(tot*(self.m.nb_actions-1)) for i in times]
 		return resolveRandom(acts)
 
 
-- 
2.43.0


From 2f46c7966c38306427053c47a9cb6d3ac15fc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 67/76] fix: Active_BW_MDP ignored max_it during the active
 iterations

---
 jajapy/mdp/Active_BW_MDP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jajapy/mdp/Active_BW_MDP.py b/jajapy/mdp/Active_BW_MDP.py
index 2693195..22d8cdc 100644
--- a/jajapy/mdp/Active_BW_MDP.py
+++ b/jajapy/mdp/Active_BW_MDP.py
@@ -238,7 +238,7 @@ class Active_BW_MDP(BW):
 			
 			if lr == 0:
 				_,info = super().fit(total_traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
@@ -249,7 +249,7 @@ class Active_BW_MDP(BW):
 					lr_it = lr
 				old_h = deepcopy(self.h)
 				_, info = super().fit(traces, initial_model=self.h,
-							output_file=output_file, epsilon=epsilon,
+							output_file=output_file, epsilon=epsilon, max_it=max_it,
 							pp=pp+" Active iteration "+str(c)+"/"+str(nb_iterations)+": ",
 							return_data=True, stormpy_output=False, verbose=verbose,processes=processes)
 				counter += info['learning_rounds']
-- 
2.43.0


From 875bf4a44426c92eff80dd03f61d31576eff45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 68/76] fix: FiniteMemoryScheduler.getSequenceStates always
 crashed

---
 jajapy/mdp/Scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/mdp/Scheduler.py b/jajapy/mdp/Scheduler.py
index adadd28..78377d8 100644
--- a/jajapy/mdp/Scheduler.py
+++ b/jajapy/mdp/Scheduler.py
@@ -180,7 +180,7 @@ class FiniteMemoryScheduler:
 		self.reset()
 		res = [0]
 		for o in seq_obs:
-			self.add_observation(o)
+			self.addObservation(o)
 			res.append(self.s)
 		return res
 
-- 
2.43.0


From ad7b0c4e523c353781f9d6fcfadd3b68679e7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 69/76] fix: MDPs could not be simulated under a
 MemorylessScheduler

---
 jajapy/mdp/MDP.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index d3d9213..38b1e30 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -2,7 +2,7 @@ from ..base.tools import resolveRandom, randomProbabilities, checkProbabilities
 from math import log
 from ..base.Base_MC import *
 from ..base.Set import Set
-from .Scheduler import Scheduler
+from .Scheduler import Scheduler, MemorylessScheduler
 import numpy.random
 from numpy import array, append, dot, zeros, vsplit, reshape, vstack, append, concatenate
 from ast import literal_eval
@@ -205,10 +205,15 @@ class MDP(Base_MC):
 		scheduler.reset()
 		current_len = 0
 		while current_len < number_steps:
-			action = scheduler.getAction()
-
-			while action not in self.getActions(current):
+			if isinstance(scheduler,MemorylessScheduler):
+				action = scheduler.getAction(current)
+				if action not in self.getActions(current):
+					msg = "The scheduler chose action "+str(action)+" in state "
+					raise ValueError(msg+str(current)+" where it is not available")
+			else:
 				action = scheduler.getAction()
+				while action not in self.getActions(current):
+					action = scheduler.getAction()
 			
 			next_state, observation = self.next(current,action)
 			res.append(observation)
-- 
2.43.0


From 2c9687bd002cf5788e9bd7718adbfb778d12ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 70/76] fix: BW learned nan from untimed traces when the CTMC
 has absorbing states

---
 jajapy/base/BW.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 8c215f2..2a99d23 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -743,6 +743,8 @@ class BW:
 				if not self.fixed_parameters[s,ss]:
 					if timed:
 						p = array([self._h_l(s,ss,o)*exp(-self._h_e(s)*t) for o,t in zip(obs_seq,times_seq)])
+					elif self._h_e(s) == 0.0: # absorbing state
+						continue
 					else:
 						p = array([self._h_l(s,ss,o)/self._h_e(s) for o in obs_seq]) # not sure
 					num[s,ss] = dot(alpha_matrix[s][:-1]*p*beta_matrix[ss][1:],times/proba_seq).sum()
-- 
2.43.0


From 6005bedb02d23f2d0daab3bb3795ee0956b6b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 71/76] fix: BW replaced the standard deviations of unreached
 GoHMM states by their square root

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 2a99d23..257b18f 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -862,7 +862,7 @@ class BW:
 		for s in range(len(den)):
 			if den[s] == 0.0:
 				den[s] = 1.0
-				mu[s], va[s] = self.h.output[s].T
+				mu[s], va[s] = self.h.output[s].T[0], self.h.output[s].T[1]**2
 				a[s] = self.h.matrix[s]
 		
 		output_mu = (mu.T/den).T
-- 
2.43.0


From ddd3f98bc36f10bf8ec9345a21d881deff3547e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 72/76] fix: timed traces of log-likelihood 0 were counted as
 impossible

---
 jajapy/ctmc/CTMC.py   | 5 ++---
 jajapy/pctmc/PCTMC.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index be58fe3..4235069 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -257,11 +257,10 @@ class CTMC(Base_MC):
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = [res.get() for res in tasks if res.get() is not False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				while False in temp:
-					temp.remove(False)
+				temp = [res for res in temp if res is not False]
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index b1cf4eb..036d59a 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -368,11 +368,10 @@ class PCTMC(Parametric_Model):
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-				temp = [res.get() for res in tasks if res.get() != False]
+				temp = [res.get() for res in tasks if res.get() is not False]
 			else:
 				temp = [self._computeAlphas_timed(seq,times) for seq,times in zip(traces.sequences,traces.times)]
-				while False in temp:
-					temp.remove(False)
+				temp = [res for res in temp if res is not False]
 			if len(temp) == 0:
 				return -9999
 			return sum(temp)/sum(traces.times)
-- 
2.43.0


From 9f436b02d0432c1bf3945600c5f0c693501f07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 73/76] fix: logLikelihood works on machines with a single
 processor

---
 jajapy/base/Model.py  | 2 +-
 jajapy/ctmc/CTMC.py   | 2 +-
 jajapy/mdp/MDP.py     | 2 +-
 jajapy/pctmc/PCTMC.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jajapy/base/Model.py b/jajapy/base/Model.py
index 498ef49..213fc60 100644
--- a/jajapy/base/Model.py
+++ b/jajapy/base/Model.py
@@ -338,7 +338,7 @@ class Model:
 		return loglikelihood / sum(sequences.times)
 
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = cpu_count()-1)
+		p = Pool(processes = max(1,cpu_count()-1))
 		tasks = []
 		for seq,times in zip(sequences.sequences,sequences.times):
 			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
diff --git a/jajapy/ctmc/CTMC.py b/jajapy/ctmc/CTMC.py
index 4235069..383e9e4 100644
--- a/jajapy/ctmc/CTMC.py
+++ b/jajapy/ctmc/CTMC.py
@@ -253,7 +253,7 @@ class CTMC(Base_MC):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = cpu_count()-1)
+				p = Pool(processes = max(1,cpu_count()-1))
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
diff --git a/jajapy/mdp/MDP.py b/jajapy/mdp/MDP.py
index 38b1e30..ec3705e 100644
--- a/jajapy/mdp/MDP.py
+++ b/jajapy/mdp/MDP.py
@@ -411,7 +411,7 @@ class MDP(Base_MC):
 		return alpha_matrix
 	
 	def _logLikelihood_multiproc(self, sequences: Set) -> float:
-		p = Pool(processes = cpu_count()-1)
+		p = Pool(processes = max(1,cpu_count()-1))
 		tasks = []
 		for seq,times in zip(sequences.sequences,sequences.times):
 			tasks.append(p.apply_async(self._computeAlphas, [seq, times,]))
diff --git a/jajapy/pctmc/PCTMC.py b/jajapy/pctmc/PCTMC.py
index 036d59a..c8fc155 100644
--- a/jajapy/pctmc/PCTMC.py
+++ b/jajapy/pctmc/PCTMC.py
@@ -364,7 +364,7 @@ class PCTMC(Parametric_Model):
 			return super().logLikelihood(traces)
 		else: # timed traces
 			if platform != "win32" and platform != "darwin":
-				p = Pool(processes = cpu_count()-1)
+				p = Pool(processes = max(1,cpu_count()-1))
 				tasks = []
 				for seq,times in zip(traces.sequences,traces.times):
 					tasks.append(p.apply_async(self._computeAlphas_timed, [seq, times,]))
-- 
2.43.0


From 529fd2dc9c6d6da187164789824e56202b948331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 74/76] fix: Alergia and IOAlergia accept traces longer than
 the recursion limit

---
 jajapy/mc/Alergia.py    | 31 ++++++++++++++++++++++++-------
 jajapy/mdp/IOAlergia.py | 40 +++++++++++++++++++++++++++-------------
 2 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/jajapy/mc/Alergia.py b/jajapy/mc/Alergia.py
index f28f350..7081222 100644
--- a/jajapy/mc/Alergia.py
+++ b/jajapy/mc/Alergia.py
@@ -70,9 +70,18 @@ class PTA:
 		return n
 
 	def compatible(self,s1,s2,alpha):
-		if s1 == None or s2 == None:
-			return True
-		
+		# no recursion: the traces may be longer than the recursion limit
+		pairs = [(s1,s2)]
+		while len(pairs) > 0:
+			s1,s2 = pairs.pop()
+			if s1 == None or s2 == None:
+				continue
+			if not self._sameFrequencies(s1,s2,alpha):
+				return False
+			pairs += [(s1.findKid(char),s2.findKid(char)) for char in self.alphabet]
+		return True
+
+	def _sameFrequencies(self,s1,s2,alpha):
 		if s1.label != s2.label:
 			return False
 		
@@ -96,9 +105,6 @@ class PTA:
 			f2 = leaving2[o] if o in leaving2 else 0
 			if not hoeffdingBound(f1,n1,f2,n2,alpha):
 				return False
-		for char in self.alphabet:
-			if not self.compatible(s1.findKid(char),s2.findKid(char),alpha):
-				return False
 		return True
 		
 	def merge(self,s1,s2):
@@ -107,6 +113,17 @@ class PTA:
 		self.fold(s1,s2)
 
 	def fold(self,s1,s2):
+		# no recursion: the traces may be longer than the recursion limit
+		stack = [self._foldKids(s1,s2)]
+		while len(stack) > 0:
+			pair = next(stack[-1],None)
+			if pair == None:
+				stack.pop()
+			else:
+				stack.append(self._foldKids(*pair))
+
+	def _foldKids(self,s1,s2):
+		# yields the pairs of kids to fold
 		for (k2,c) in s2.kids:
 			k1 = s1.findKid(k2.label)
 			if k1 == None:
@@ -115,7 +132,7 @@ class PTA:
 			else:
 				k1.count += k2.count
 				s1.incKid(k1,c)
-				self.fold(k1,k2)
+				yield k1,k2
 
 	def pprint(self):
 		print(self.toMC())
diff --git a/jajapy/mdp/IOAlergia.py b/jajapy/mdp/IOAlergia.py
index f5cead4..416ac7b 100644
--- a/jajapy/mdp/IOAlergia.py
+++ b/jajapy/mdp/IOAlergia.py
@@ -241,18 +241,21 @@ class IOFPTA:
 		bool
 			True if s1 and s2 are epsilon compatible.
 		"""
-		if s1 == None or s2 == None:
-			return True
-		
-		if self.states[s1].observation != self.states[s2].observation:
-			return False
-
-		for a in self.actions:
-			for o in self.observations:
-				if not self.hoeffding(s1, s2, a, o, epsilon):
-					return False
-				if not self.compatible(self.successor(s1, a, o), self.successor(s2, a, o), epsilon):
-					return False
+		# no recursion: the traces may be longer than the recursion limit
+		pairs = [(s1,s2)]
+		while len(pairs) > 0:
+			s1,s2 = pairs.pop()
+			if s1 == None or s2 == None:
+				continue
+
+			if self.states[s1].observation != self.states[s2].observation:
+				return False
+
+			for a in self.actions:
+				for o in self.observations:
+					if not self.hoeffding(s1, s2, a, o, epsilon):
+						return False
+					pairs.append((self.successor(s1, a, o), self.successor(s2, a, o)))
 		return True
 				
 	def hoeffding(self, s1: int, s2: int, a: str, o: str, epsilon: float) -> bool:
@@ -325,6 +328,17 @@ class IOFPTA:
 		s2 : int
 			A state ID.
 		"""
+		# no recursion: the traces may be longer than the recursion limit
+		stack = [self._mergeStates(s1,s2)]
+		while len(stack) > 0:
+			pair = next(stack[-1],None)
+			if pair == None:
+				stack.pop()
+			else:
+				stack.append(self._mergeStates(*pair))
+
+	def _mergeStates(self,s1:int ,s2: int):
+		# yields the pairs of successors to merge
 		#action = self.states[s2].label[-2]
 		if s1 == None or s2 == None:
 			return None
@@ -344,7 +358,7 @@ class IOFPTA:
 					if succ1 != None:
 						t1 = self.states[s1].transitions[a]
 						t1[0][t1[1].index(succ1)] += self.states[s2].getTransitionProb(a,succ2)
-						self.merge(succ1,succ2)
+						yield succ1,succ2
 					else:
 						self.states[s1].transitionsAdd(a,self.states[s2].getTransitionProb(a,succ2),succ2)
 
-- 
2.43.0


From 0cfa78930db939ba9fdccf896123602ce15062eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 75/76] fix: CTMC learning accepts one-label traces and numpy
 dwell times

---
 jajapy/base/BW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jajapy/base/BW.py b/jajapy/base/BW.py
index 257b18f..7d5998d 100644
--- a/jajapy/base/BW.py
+++ b/jajapy/base/BW.py
@@ -712,7 +712,7 @@ class BW:
 			a tuple containing a sequence of observations and a sequence of
 			waiting times.
 		"""
-		if type(sequence[1]) == float and type(sequence[0]) == str:
+		if len(sequence) > 1 and isinstance(sequence[1],float) and type(sequence[0]) == str:
 			times_seq = [sequence[i] for i in range(1,len(sequence),2)]
 			obs_seq   = [sequence[i] for i in range(0,len(sequence),2)]
 		else:
-- 
2.43.0


From e58783048f0e330d0955949715b456167935b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 76/76] fix: PCTMC rates are evaluated correctly when a
 parameter is 0 and another has no value

---
 jajapy/base/Parametric_Model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jajapy/base/Parametric_Model.py b/jajapy/base/Parametric_Model.py
index b60b5a9..c2e4bde 100644
--- a/jajapy/base/Parametric_Model.py
+++ b/jajapy/base/Parametric_Model.py
@@ -144,7 +144,14 @@ class Parametric_Model(Model):
 			instantiated, returns the symbolic representation of the
 			transition.
 		"""
-		return self.transition_expr[self.matrix[i,j]].evalf(subs=self.parameter_values)
+		return self._evalExpression(self.transition_expr[self.matrix[i,j]],self.parameter_values)
+
+	def _evalExpression(self,expr,parameter_values: dict):
+		# evalf leaves in sums the parameters whose value is 0 when others have no value
+		zeros = {Symbol(p):0 for p,v in parameter_values.items() if v == 0}
+		if len(zeros) > 0:
+			expr = expr.subs(zeros)
+		return expr.evalf(subs=parameter_values)
 
 	def transitionExpression(self,i:int,j:int):
 		"""
@@ -276,7 +283,7 @@ class Parametric_Model(Model):
 		"""
 		if parameter_values == None:
 			parameter_values = self.parameter_values
-		v =  self.transitionExpression(i,j).evalf(subs=parameter_values)
+		v = self._evalExpression(self.transitionExpression(i,j),parameter_values)
 		try:
 			v = float(v)
 		except TypeError:
-- 
2.43.0


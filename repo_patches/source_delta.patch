From 700d532c951b6f963f53c9a2a0683fcc518a70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 01/43] fix: seed Discover before the controller draws its
 initial weights

---
 kd/model/kd_discover.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..c1d2ae6 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -116,6 +116,9 @@ class KD_Discover(BaseRL):
             - GP aggregator
             - Searcher
         """
+        # Seed first: the controller draws its initial weights while it is built.
+        self.set_seeds(self.seed)
+
         # Clear the cache and reset the compute graph
         Program.clear_cache()
                 
@@ -743,6 +746,8 @@ class KD_Discover_SPR(KD_Discover):
         Returns:
             dict: Training results.
         """
+        # The train/validation split and the collocation points are drawn here.
+        self.set_seeds(self.seed)
         self.make_outter_data(x, y, domains, data_type)
         return self.train(n_epochs=n_epochs, verbose=verbose)
 
-- 
2.43.0


From dec84cd67705e703ab3398fcc64bcf8941c3f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/43] fix: honour random_state for the sparse
 train/validation split and collocation points

---
 kd/model/discover/adapter.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index e575401..74b5022 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -365,7 +365,7 @@ class DiscoverSparseAdapter:
         else:
             lb, ub = default_lb, default_ub
 
-        sparse.process_data((lb, ub))
+        self._split_and_collocate(sparse, (lb, ub))
 
         result = dict(sparse.get_data())
         if self.cut_quantile is not None:
@@ -520,7 +520,7 @@ class DiscoverSparseAdapter:
         sparse = LegacySparseData(xt, sampled_values)
         if self.colloc_num is not None:
             sparse.colloc_num = int(self.colloc_num)
-        sparse.process_data((lb, ub))
+        self._split_and_collocate(sparse, (lb, ub))
 
         result = dict(sparse.get_data())
         result['n_input_dim'] = n_spatial
@@ -556,6 +556,22 @@ class DiscoverSparseAdapter:
 
         return result
 
+    def _split_and_collocate(self, sparse: Any, bounds: Tuple[np.ndarray, np.ndarray]) -> None:
+        """Run ``SparseData.process_data`` reproducibly for a fixed ``random_state``.
+
+        The split and the Latin hypercube draw from NumPy's global generator, so it
+        is seeded for the call and put back afterwards.
+        """
+        if self.random_state is None:
+            sparse.process_data(bounds)
+            return
+        state = np.random.get_state()
+        np.random.seed(self.random_state)
+        try:
+            sparse.process_data(bounds)
+        finally:
+            np.random.set_state(state)
+
     def _sample_points(self, x: np.ndarray, t: np.ndarray, u: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         mesh_x, mesh_t = np.meshgrid(x, t, indexing='ij')
         points = np.column_stack((mesh_x.ravel(), mesh_t.ravel()))
-- 
2.43.0


From ae1a5517c65dfbf02850095fc8277ef41039ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 03/43] fix: keep one program's floating-point log from
 invalidating the next, and work in any thread

---
 kd/model/discover/stridge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 729c278..79ab2aa 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -48,14 +48,16 @@ def unsafe_execute(traversal, u, x):
     and the appropriate nan/inf value is returned. It's up to the task's
     reward function to decide how to handle nans/infs."""
 
-    with np.errstate(all='log'):
+    # NumPy keeps its error callback per thread, so name it here and not only at import.
+    with np.errstate(all='log', call=invalid_log):
+        invalid_log.update() # Drop an entry left behind by an earlier execution
         y = python_execute(traversal, u,x)
         invalid, error_node, error_type = invalid_log.update()
         return y, invalid, error_node, error_type
     
 def unsafe_execute_torch(traversal, u, x):
     
-    with np.errstate(all='log'):
+    with np.errstate(all='log', call=invalid_log):
         y = python_execute_torch(traversal, u,x)
         if y is None:
             invalid_log.write("bad_diff bad_diff bad_diff")
-- 
2.43.0


From c7a3722f23abbebd4d9a359ea5abe10798ae0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 04/43] fix: keep a non-finite PDE residual from destroying the
 PINN in sparse Discover

---
 kd/model/discover/pinn.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 6d2dd1b..bdd3c4a 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -318,12 +318,20 @@ class PINN_model:
             #local samling based on observations    
                 if local_sample:
                     loss_res2= pinn_loss(self, program_pde[i], self.x_local, self.t_local, program_pde[i].w, extra_gradient=self.extra_gradient)
+                    if torch.isnan(loss_res2):
+                        logging.info("nan")
+                        loss_res2=torch.tensor([0]).to(loss_mse)
                     self.writer.add_scalar(f"pinn/local_pinn_loss_{i}",loss_res2.item(),epoch)
                     pde_loss+=loss_res2
                 
                 
             loss = coef*(pde_loss)+loss_mse  #delete res3
             loss.backward()
+            if not all(torch.isfinite(p.grad).all() for p in self.nn.parameters() if p.grad is not None):
+                # A finite residual can still have an infinite slope: drop it for this step.
+                logging.info("nan")
+                self.optimizer.zero_grad()
+                mse_loss(self.net_u(torch.cat([*self.x, self.t], axis= 1)), self.u_train).sum().backward()
             self.optimizer.step()
             
             if (epoch+1)%10==0:
-- 
2.43.0


From 17d155b8c3e5b24fe3c0d7c2d952808610f81525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 05/43] fix: refitting a Discover estimator keeps its priors
 and state manager settings

---
 kd/model/discover/dso/prior.py     | 3 +++
 kd/model/discover/state_manager.py | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9d548b2..f3ce0d4 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -41,6 +41,8 @@ def make_prior(library, config_prior):
         
     }
     # import pdb;pdb.set_trace()
+    # The configuration outlives this call: consume copies of it.
+    config_prior = dict(config_prior)
     count_constraints = config_prior.pop("count_constraints", False)
     
     priors = []
@@ -57,6 +59,7 @@ def make_prior(library, config_prior):
         for single_prior_args in prior_args:
             # Attempt to build the Prior. Any Prior can fail if it references a
             # Token not in the Library.
+            single_prior_args = dict(single_prior_args)
             prior_is_enabled = single_prior_args.pop('on', False)
             if prior_is_enabled:
                 try:
diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 42d4288..38e994d 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -67,8 +67,7 @@ def make_state_manager(config):
         "grammar": GrammarStateManager
     }
 
-    if config is None:
-        config = {}
+    config = dict(config or {})
 
     # Use HierarchicalStateManager by default
     manager_type = config.pop("type", "hierarchical")
-- 
2.43.0


From 9ce0a0aa1dc44992cbea303a06fe55d12d46844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 06/43] fix: derive Discover's output path from the user's
 directory on every import

---
 kd/model/kd_discover.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index c1d2ae6..75b2b64 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -97,6 +97,8 @@ class KD_Discover(BaseRL):
         self.n_samples_per_batch = n_samples_per_batch
         self.operator = binary_operators + unary_operators
         self.out_path = out_path
+        self._out_root = out_path
+        self._derived_out_path = None
          
         self.dataset = None
         self.seed = seed
@@ -136,6 +138,20 @@ class KD_Discover(BaseRL):
         print("Library: ", Program.task.library)
         self.controller.prior.report_constraint_counts()
         
+    def _reset_out_path(self):
+        """Forget a path derived by an earlier fit; keep one set by the user."""
+        if self.out_path != self._derived_out_path:
+            self._out_root = self.out_path
+        self.out_path = self._out_root
+
+    def _derive_out_path(self, name):
+        """Point ``out_path`` at this dataset's file in the user's directory."""
+        self._reset_out_path()
+        if self.out_path is not None:
+            self.out_path = self._derived_out_path = os.path.join(
+                self.out_path, f"discover_{name}_{self.seed}.csv"
+            )
+
     def import_inner_data(self, dataset, data_type='regular'):
         """Import data from predefined datasets.
 
@@ -148,10 +164,7 @@ class KD_Discover(BaseRL):
             self.data_class.load_data()
             
             # Save file
-            if self.out_path is not None:
-                self.out_path = os.path.join(self.out_path,
-                                    "discover_{}_{}.csv".format(dataset, self.seed)
-                )            
+            self._derive_out_path(dataset)
         self.setup()
 
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
@@ -184,11 +197,7 @@ class KD_Discover(BaseRL):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._derive_out_path(resolved_name)
 
         self.setup()
         return self
@@ -556,11 +565,7 @@ class KD_Discover_SPR(KD_Discover):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._derive_out_path(resolved_name)
 
         self.setup()
         return self
@@ -664,7 +669,7 @@ class KD_Discover_SPR(KD_Discover):
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-            self.out_path = f"{prefix}_{i+1}.csv"
+            self.out_path = self._derived_out_path = f"{prefix}_{i+1}.csv"
             best_p = [results[j]['program'] for j in range(len(results))]
 
             if len(best_tokens) > 0:
@@ -748,6 +753,7 @@ class KD_Discover_SPR(KD_Discover):
         """
         # The train/validation split and the collocation points are drawn here.
         self.set_seeds(self.seed)
+        self._reset_out_path()
         self.make_outter_data(x, y, domains, data_type)
         return self.train(n_epochs=n_epochs, verbose=verbose)
 
-- 
2.43.0


From 58a6a323a09e137ed84b5c56b0109c38d4e1dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 07/43] fix: DLGA shuffles copies of the training data instead
 of the caller's arrays

---
 kd/model/dlga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..b436f13 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -118,7 +118,8 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle copies of the data: X and y belong to the caller
+        X, y = X.copy(), y.copy()
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From 828186595268dec68dbbcf4cb0d65abff3167a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 08/43] fix: DLGA histories describe one fit instead of
 accumulating over refits

---
 kd/model/dlga.py    | 9 +++++++++
 kd/model/kd_dlga.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index b436f13..634f36a 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -108,6 +108,14 @@ class DLGA(BaseGa):
         self.evolution_history = []  # 存储完整的进化历史数据
         self.complexity_history = []  # 存储复杂度历史
 
+    def _reset_histories(self):
+        """Forget the curves of an earlier fit."""
+        self.fitness_history = []
+        self.train_loss_history = []
+        self.val_loss_history = []
+        self.evolution_history = []
+        self.complexity_history = []
+
     def train_NN(self, X, y):
         """Train neural network on data.
         
@@ -573,6 +581,7 @@ class DLGA(BaseGa):
             X: Input features.
             y: Target values.
         """
+        self._reset_histories()
         self.Net, self.best_epoch = self.train_NN(X, y)
         self.Theta = self.generate_meta_data(X)
         
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..a423dc5 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -225,6 +225,7 @@ class KD_DLGA(DLGA):
     
     def fit(self, X, y):
         """Fit DLGA on raw ``(X, y)`` samples."""
+        self._reset_histories()
         self.Net, self.best_epoch = self.train_NN(X, y)
         self.Theta = self.generate_meta_data(X)
         
-- 
2.43.0


From 2643d71b47eb9cdde525cb36cea66fbec5fa4eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:50 +0000
Subject: [PATCH 09/43] fix: DLGA takes its best weights and elite from its own
 run, not from files other fits share

---
 kd/model/dlga.py    | 30 +++++++++++++++++++++++-------
 kd/model/kd_dlga.py | 18 ++++++------------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 634f36a..2bad949 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -14,6 +14,7 @@ from ..utils.utils_GA import *
 import numpy as np
 import heapq
 from tqdm import tqdm
+import copy
 import pickle
 import matplotlib.pyplot as plt
 
@@ -99,6 +100,7 @@ class DLGA(BaseGa):
         )
 
         self.max_iter = max_iter
+        self._best_state = None  # (epoch, weights) of the best checkpoint of the last training
         self.eq_latex = ""
         self.epi = epi
         self.fitness_history = []  # Track best fitness per generation
@@ -179,6 +181,8 @@ class DLGA(BaseGa):
             # 为了兼容较小迭代数，这里保留 500 步的默认行为，并在训练结束后做一次兜底处理。
             if (iter + 1) % 500 == 0:
                 validate_error.append(loss_validate)
+                if len(validate_error) == 1 or loss_validate < min(validate_error[:-1]):
+                    self._best_state = (iter + 1, copy.deepcopy(self.Net.state_dict()))
                 torch.save(self.Net.state_dict(), f"model_save/Net_{iter + 1}.pkl")
                 print(
                     "iter_num: %d      loss: %.8f    loss_validate: %.8f"
@@ -192,10 +196,23 @@ class DLGA(BaseGa):
         if not validate_error:
             torch.save(self.Net.state_dict(), f"model_save/Net_{self.max_iter}.pkl")
             self.best_epoch = self.max_iter
+            self._best_state = (self.max_iter, copy.deepcopy(self.Net.state_dict()))
         else:
             self.best_epoch = (validate_error.index(min(validate_error)) + 1) * 500
         return self.Net, self.best_epoch
 
+    def _load_best_state(self):
+        """Weights of ``best_epoch``: those of this fit, or a saved checkpoint.
+
+        The checkpoint files have fixed names, so another fit that shares the
+        working directory may have replaced them.
+        """
+        if self._best_state is not None and self._best_state[0] == self.best_epoch:
+            return self._best_state[1]
+        return torch.load(
+            f"model_save/Net_{self.best_epoch}.pkl", map_location=self.device, weights_only=True
+        )
+
     def generate_meta_data(self, X):
         """Generate meta-data for PDE discovery.
         
@@ -210,9 +227,7 @@ class DLGA(BaseGa):
         X = torch.from_numpy(X.astype(np.float32)).to(self.device)
         X.requires_grad_(True)
 
-        self.Net.load_state_dict(
-            torch.load(f"model_save/Net_{self.best_epoch}.pkl", weights_only=True)
-        )
+        self.Net.load_state_dict(self._load_best_state())
         self.Net.eval()
         u = self.Net(X)
         u_grad = torch.autograd.grad(outputs=u.sum(), inputs=X, create_graph=True)[0]
@@ -535,8 +550,10 @@ class DLGA(BaseGa):
         # Evolution loop
         for iter in tqdm(range(self.n_generations)):
             # Save current best individual
-            pickle.dump(self.Chrom.copy()[0], open("result_save/best_save.pkl", "wb"))
-            best = self.Chrom.copy()[0]
+            # The file is a by-product: another fit may write it too.
+            best = copy.deepcopy(self.Chrom[0])
+            with open("result_save/best_save.pkl", "wb") as f:
+                pickle.dump(best, f)
             
             # Genetic operations
             DLGA.cross_over(self)
@@ -544,8 +561,7 @@ class DLGA(BaseGa):
             DLGA.delete_duplicates(self)
             
             # Ensure elitism
-            best = pickle.load(open("result_save/best_save.pkl", "rb"))
-            self.Chrom[0] = best
+            self.Chrom[0] = copy.deepcopy(best)
             
             # Selection and logging
             DLGA.select(self)
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index a423dc5..0edfdc2 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -3,6 +3,7 @@ import numpy as np
 import torch
 import random
 import os
+import copy
 import pickle
 import heapq
 from tqdm import tqdm
@@ -28,9 +29,7 @@ class KD_DLGA(DLGA):
         """Build the feature library (Theta) and metadata from the trained network."""
         X_tensor = torch.from_numpy(X.astype(np.float32)).to(self.device)
         X_tensor.requires_grad_(True)
-        self.Net.load_state_dict(
-            torch.load(f"model_save/Net_{self.best_epoch}.pkl", map_location=self.device, weights_only=True)
-        )
+        self.Net.load_state_dict(self._load_best_state())
         self.Net.eval()
         u = self.Net(X_tensor)
         u_grad = torch.autograd.grad(outputs=u.sum(), inputs=X_tensor, create_graph=True)[0]
@@ -139,20 +138,15 @@ class KD_DLGA(DLGA):
             best_chrom_path = "result_save/best_save.pkl"
             best = []
             if self.Chrom:
-                best = self.Chrom[0]
+                # The file is a by-product: another fit may write it too.
+                best = copy.deepcopy(self.Chrom[0])
                 with open(best_chrom_path, "wb") as f:
                     pickle.dump(best, f)
             self.cross_over()
             self.mutation()
             self.delete_duplicates()
-            if os.path.exists(best_chrom_path):
-                with open(best_chrom_path, "rb") as f:
-                    best_loaded = pickle.load(f)
-                if best_loaded:
-                    if self.Chrom:
-                        self.Chrom[0] = best_loaded
-                    else:
-                        self.Chrom.append(best_loaded)
+            if best:
+                self.Chrom[0] = copy.deepcopy(best)
             self.select()
             if self.verbose and self.Chrom and self.Chrom[0] != best:
                 output_str = (f"iter: {iter_num + 1}\n"
-- 
2.43.0


From 8a538408777e24c3f01894c347473986a6972a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 10/43] fix: the web app finds the Discover models and offers
 them for the datasets that support them

---
 app.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/app.py b/app.py
index 748af2a..1173d2f 100644
--- a/app.py
+++ b/app.py
@@ -51,8 +51,8 @@ def _is_bohrium_env(request):
 MODEL_KEYS = {
     "KD_SGA": "sga",
     "KD_DLGA": "dlga",
-    "KD_DSCV": "dscv",
-    "KD_DSCV_SPR": "dscv_spr",
+    "KD_DSCV": "discover",
+    "KD_DSCV_SPR": "discover_spr",
     "KD_EqGPT": "eqgpt",
 }
 
@@ -162,7 +162,7 @@ def _get_model_capabilities(model):
         return []
     caps = list(list_capabilities(model))
     # spr_* intents only work for KD_DSCV_SPR (PINN mode)
-    from kd.model.kd_dscv import KD_DSCV_SPR
+    from kd.model.kd_discover import KD_Discover_SPR as KD_DSCV_SPR
     if not isinstance(model, KD_DSCV_SPR):
         caps = [c for c in caps if not c.startswith("spr_")]
     return sorted(caps)
@@ -293,7 +293,7 @@ def _run_local(
                 model.fit_dataset(dataset, sample=sample)
 
             elif model_name == "KD_DSCV":
-                from kd.model.kd_dscv import KD_DSCV
+                from kd.model.kd_discover import KD_Discover as KD_DSCV
                 model = KD_DSCV(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
@@ -304,7 +304,7 @@ def _run_local(
                 result = model.fit_dataset(dataset, n_epochs=int(dscv_epochs))
 
             elif model_name == "KD_DSCV_SPR":
-                from kd.model.kd_dscv import KD_DSCV_SPR
+                from kd.model.kd_discover import KD_Discover_SPR as KD_DSCV_SPR
                 model = KD_DSCV_SPR(
                     binary_operators=_parse_ops(dscv_binary),
                     unary_operators=_parse_ops(dscv_unary),
-- 
2.43.0


From 2441848047debc8fb6d4e2f0aecc47148895f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 11/43] fix: a failed result download keeps the GPU job, and a
 failed run is not shown as finished

---
 app.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/app.py b/app.py
index 1173d2f..a88a173 100644
--- a/app.py
+++ b/app.py
@@ -416,6 +416,19 @@ def check_gpu_status(job_id, request: gr.Request = None):
         result_data, save_dir = download_result(job_id, request)
         equation = result_data.get("equation", "(unknown)")
 
+        if result_data.get("status") == "error":
+            if "error" not in result_data:
+                # nothing the runner wrote was downloaded
+                raise FileNotFoundError(equation)
+            detail = result_data["error"]
+            return (
+                f"Job {job_id} failed:\n{detail}",
+                None, None, gr.update(),
+                None,
+                gr.update(visible=True, value=f"Job {job_id}: Failed"),
+                gr.update(visible=False),
+            )
+
         eq_fig = None
         eq_img = os.path.join(save_dir, "equation.png")
         if os.path.exists(eq_img):
@@ -437,8 +450,13 @@ def check_gpu_status(job_id, request: gr.Request = None):
             gr.update(visible=False),
         )
     except Exception as e:
-        return (f"Download failed: {e}",
-                None, None, gr.update()) + _NO_GPU
+        # The job itself finished: keep it, so that the download can be retried.
+        return (
+            f"Download failed: {e}", None, None, gr.update(),
+            job_id,
+            gr.update(visible=True, value=f"Job {job_id}: Download failed"),
+            gr.update(visible=True),
+        )
 
 
 # ── Visualization ──────────────────────────────────────────────
-- 
2.43.0


From 976c5ea153aa3ae9b0151c499517dec72dfce21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 12/43] fix: a GPU job names the uploaded data file, refuses a
 missing one, and never reports an earlier job's result

---
 kd/job.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kd/job.py b/kd/job.py
index ab00855..71f5812 100644
--- a/kd/job.py
+++ b/kd/job.py
@@ -71,6 +71,9 @@ def submit_gpu_job(model_name, dataset_name, params, request,
     """
     from bohrium_open_sdk import UploadInputItem
 
+    if dataset_file and not os.path.exists(dataset_file):
+        raise FileNotFoundError(f"Dataset file not found: {dataset_file}")
+
     access_key, app_key = get_credentials(request)
     client = _client(access_key, app_key)
 
@@ -82,6 +85,8 @@ def submit_gpu_job(model_name, dataset_name, params, request,
     }
     if dataset_name:
         config["dataset_name"] = dataset_name
+    if dataset_file:
+        config["dataset_file"] = os.path.basename(dataset_file)
 
     # Write to a temp file for upload
     fd, config_path = tempfile.mkstemp(suffix=".json", prefix="kd_cfg_")
@@ -92,7 +97,7 @@ def submit_gpu_job(model_name, dataset_name, params, request,
         inputs = {"config": "", "output_dir": "output"}
         upload_files = [UploadInputItem(input_field="config", src=config_path)]
 
-        if dataset_file and os.path.exists(dataset_file):
+        if dataset_file:
             inputs["dataset_file"] = ""
             upload_files.append(
                 UploadInputItem(input_field="dataset_file", src=dataset_file)
@@ -160,11 +165,14 @@ def download_result(job_id, request, save_dir=None):
         save_dir = os.path.join(JOB_OUTPUT_DIR, f"kd_{job_id}")
     os.makedirs(save_dir, exist_ok=True)
 
+    result_path = os.path.join(save_dir, "result.json")
+    if os.path.exists(result_path):
+        os.remove(result_path)  # left by an earlier download
+
     client.web.sub_model.download(
         job_id, remote_target="output", save_path=save_dir
     )
 
-    result_path = os.path.join(save_dir, "result.json")
     if os.path.exists(result_path):
         with open(result_path) as f:
             return json.load(f), save_dir
-- 
2.43.0


From 7f7fbf685bd174786d1146e27db095786c79f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 13/43] fix: the runner's result.json is complete or absent,
 describes this run, and never another dataset

---
 kd/job.py    |  4 ++--
 kd/runner.py | 21 +++++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/kd/job.py b/kd/job.py
index 71f5812..350f2fe 100644
--- a/kd/job.py
+++ b/kd/job.py
@@ -91,7 +91,7 @@ def submit_gpu_job(model_name, dataset_name, params, request,
     # Write to a temp file for upload
     fd, config_path = tempfile.mkstemp(suffix=".json", prefix="kd_cfg_")
     try:
-        with os.fdopen(fd, "w") as f:
+        with os.fdopen(fd, "w", encoding="utf-8") as f:
             json.dump(config, f, ensure_ascii=False)
 
         inputs = {"config": "", "output_dir": "output"}
@@ -174,7 +174,7 @@ def download_result(job_id, request, save_dir=None):
     )
 
     if os.path.exists(result_path):
-        with open(result_path) as f:
+        with open(result_path, encoding="utf-8") as f:
             return json.load(f), save_dir
 
     return {"status": "error", "equation": "(result.json not found)"}, save_dir
diff --git a/kd/runner.py b/kd/runner.py
index 5555677..f273758 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -40,7 +40,9 @@ def load_dataset(config):
     dataset_name = config.get("dataset_name")
     dataset_file = config.get("dataset_file")
 
-    if dataset_file and os.path.exists(dataset_file):
+    if dataset_file:
+        if not os.path.exists(dataset_file):
+            raise FileNotFoundError(f"Dataset file not found: {dataset_file}")
         from kd.dataset._base import PDEDataset, load_mat_file
 
         file_config = config.get("file_config", {})
@@ -143,8 +145,11 @@ def save_output(output_dir, model_name, dataset_info, equation, elapsed,
     if error:
         result["error"] = str(error)
     path = os.path.join(output_dir, "result.json")
-    with open(path, "w") as f:
+    # result.json is either complete or absent, whenever the task is killed
+    tmp_path = path + ".tmp"
+    with open(tmp_path, "w", encoding="utf-8") as f:
         json.dump(result, f, indent=2, ensure_ascii=False)
+    os.replace(tmp_path, path)
     print(f"Results saved to {path}")
 
 
@@ -199,18 +204,22 @@ def main():
 
     output_dir = args.output_dir or config.get("output_dir", "output")
     params = config.get("params", {})
-    dataset_info = config.get("dataset_name") or config.get("dataset_file", "unknown")
+    dataset_info = config.get("dataset_file") or config.get("dataset_name", "unknown")
 
     print(f"=== KD GPU Runner ===")
     print(f"  Model   : {model_name}")
     print(f"  Dataset : {dataset_info}")
     print(f"  Output  : {output_dir}")
 
-    t0 = time.time()
+    stale = os.path.join(output_dir, "result.json")
+    if os.path.exists(stale):
+        os.remove(stale)  # describes an earlier run
+
+    t0 = time.monotonic()
     try:
         dataset = load_dataset(config)
         equation, model = RUNNERS[model_name](dataset, params)
-        elapsed = time.time() - t0
+        elapsed = time.monotonic() - t0
 
         save_output(output_dir, model_name, dataset_info, equation, elapsed, params)
         save_viz(output_dir, model)
@@ -218,7 +227,7 @@ def main():
         print(f"\nDone in {elapsed:.1f}s")
         print(f"Equation: {equation}")
     except Exception as e:
-        elapsed = time.time() - t0
+        elapsed = time.monotonic() - t0
         tb = traceback.format_exc()
         print(f"Error: {e}\n{tb}")
         save_output(output_dir, model_name, dataset_info, "(error)", elapsed, params, error=tb)
-- 
2.43.0


From 52235af16cac28732deb51f413f15024fbd3353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 14/43] fix: show a finished GPU job's result even if its
 picture is unreadable

---
 app.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/app.py b/app.py
index a88a173..0a5948c 100644
--- a/app.py
+++ b/app.py
@@ -434,12 +434,16 @@ def check_gpu_status(job_id, request: gr.Request = None):
         if os.path.exists(eq_img):
             import matplotlib.pyplot as plt
             import matplotlib.image as mpimg
-            img = mpimg.imread(eq_img)
-            fig, ax = plt.subplots(figsize=(8, 3))
-            ax.imshow(img)
-            ax.axis("off")
-            fig.tight_layout(pad=0)
-            eq_fig = fig
+            try:
+                img = mpimg.imread(eq_img)
+            except Exception:
+                img = None  # the picture is optional, the result is not
+            if img is not None:
+                fig, ax = plt.subplots(figsize=(8, 3))
+                ax.imshow(img)
+                ax.axis("off")
+                fig.tight_layout(pad=0)
+                eq_fig = fig
 
         elapsed_s = result_data.get("elapsed_seconds", "?")
         return (
-- 
2.43.0


From eb09a3cef104622d41749bd89ca3c1bdcac117a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 15/43] fix: configure(save_dir=None) clears the visualization
 directory again

---
 kd/viz/_style.py | 8 +++++---
 kd/viz/core.py   | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/kd/viz/_style.py b/kd/viz/_style.py
index 2e9dc11..d4a9ec2 100644
--- a/kd/viz/_style.py
+++ b/kd/viz/_style.py
@@ -29,18 +29,20 @@ class VizConfig:
 
 _CONFIG = VizConfig()
 
+_UNSET: Any = object()  # "leave as is"; an explicit None clears save_dir
+
 
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = _UNSET,
     backend: Optional[str] = None,
 ) -> VizConfig:
     if style is not None:
         _CONFIG.style = dict(DEFAULT_STYLE)
         _CONFIG.style.update(style)
-    if save_dir is not None:
-        _CONFIG.save_dir = Path(save_dir)
+    if save_dir is not _UNSET:
+        _CONFIG.save_dir = None if save_dir is None else Path(save_dir)
     if backend is not None:
         matplotlib.use(backend, force=True)
         _CONFIG.backend = backend
diff --git a/kd/viz/core.py b/kd/viz/core.py
index 14514de..6c3d6f4 100644
--- a/kd/viz/core.py
+++ b/kd/viz/core.py
@@ -17,7 +17,7 @@ from ._contracts import (
     TimeSliceComparisonData,
 )
 from ._helpers import resolve_output_path
-from ._style import VizConfig, configure as configure_style, get_config, style_context
+from ._style import _UNSET, VizConfig, configure as configure_style, get_config, style_context
 
 
 @dataclass
@@ -57,7 +57,7 @@ class VizContext:
 def configure(
     *,
     style: Optional[Dict[str, Any]] = None,
-    save_dir: Union[str, Path, None] = None,
+    save_dir: Union[str, Path, None] = _UNSET,
     backend: Optional[str] = None,
 ) -> VizConfig:
     return configure_style(style=style, save_dir=save_dir, backend=backend)
-- 
2.43.0


From 6159bc32dc994d15b1a08448c74529b10b049629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 16/43] fix: report equation pictures that could not be drawn,
 and never an outdated comparison picture

---
 kd/viz/_adapters/discover.py |  5 ++++-
 kd/viz/_adapters/dlga.py     | 11 +++++++----
 kd/viz/_adapters/pysr.py     |  9 ++++++++-
 kd/viz/_adapters/sga.py      |  6 ++++--
 kd/viz/equation_renderer.py  |  6 +++++-
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..ef5bd9d 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -224,7 +224,7 @@ class DiscoverVizAdapter:
 
         _, path = self._resolve_output(ctx, 'equation.png')
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get('font_size', 16),
@@ -233,6 +233,9 @@ class DiscoverVizAdapter:
         except Exception as exc:  # pragma: no cover - runtime dependency issues
             return VizResult(intent='equation', warnings=[f'Failed to render LaTeX equation: {exc}'])
 
+        if rendered is False:
+            return VizResult(intent='equation', warnings=['Failed to render LaTeX equation.'], metadata={'latex': latex})
+
         return VizResult(intent='equation', paths=[path], metadata={'latex': latex})
 
     def _residual(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/dlga.py b/kd/viz/_adapters/dlga.py
index 04af42b..b8768c4 100644
--- a/kd/viz/_adapters/dlga.py
+++ b/kd/viz/_adapters/dlga.py
@@ -131,8 +131,8 @@ class DLGAVizAdapter:
             output_dir=str(path.parent),
         )
         produced = path.parent / 'pde_comparison.png'
-        if produced.exists() and not path.exists():
-            produced.rename(path)
+        if produced.exists():
+            produced.replace(path)
         return VizResult(intent='field_comparison', paths=[path], metadata={'field_comparison': data})
 
     def _time_slices(self, model, ctx) -> VizResult:
@@ -208,13 +208,16 @@ class DLGAVizAdapter:
             operator_names=operators,
         )
         _, path = self._resolve_output(ctx, 'equation.png')
-        render_latex_to_image(
+        rendered = render_latex_to_image(
             latex,
             output_path=str(path),
             font_size=ctx.options.get('font_size', 16),
             show=False,
         )
-        return VizResult(intent='equation', paths=[path], metadata={'latex': latex, 'index': index})
+        metadata = {'latex': latex, 'index': index}
+        if rendered is False:
+            return VizResult(intent='equation', warnings=['Failed to render LaTeX equation.'], metadata=metadata)
+        return VizResult(intent='equation', paths=[path], metadata=metadata)
 
     def _residual(self, model, ctx) -> VizResult:
         data = self._build_residual_data(ctx)
diff --git a/kd/viz/_adapters/pysr.py b/kd/viz/_adapters/pysr.py
index 8218b36..b5a0567 100644
--- a/kd/viz/_adapters/pysr.py
+++ b/kd/viz/_adapters/pysr.py
@@ -103,7 +103,7 @@ class PySRVizAdapter:
 
         _, path = self._resolve_output(ctx, "equation.png")
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex,
                 output_path=str(path),
                 font_size=ctx.options.get("font_size", 18),
@@ -115,6 +115,13 @@ class PySRVizAdapter:
                 warnings=[f"Failed to render PySR LaTeX equation: {exc}"],
             )
 
+        if rendered is False:
+            return VizResult(
+                intent="equation",
+                warnings=["Failed to render PySR LaTeX equation."],
+                metadata={"latex": latex},
+            )
+
         return VizResult(intent="equation", paths=[path], metadata={"latex": latex})
 
     def _parity(self, model, ctx) -> VizResult:
diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index 2028af7..c74b1f3 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -76,13 +76,13 @@ class SGAVizAdapter:
         output_path = self._resolve_output(ctx, 'equation.png')
         structure_path = self._resolve_output(ctx, 'equation_structure.png')
         try:
-            render_latex_to_image(
+            rendered = render_latex_to_image(
                 latex_plain,
                 output_path=str(output_path),
                 font_size=ctx.options.get('font_size', 16),
                 show=False,
             )
-            render_latex_to_image(
+            rendered_structure = render_latex_to_image(
                 structure_plain,
                 output_path=str(structure_path),
                 font_size=ctx.options.get('font_size', 16),
@@ -95,6 +95,8 @@ class SGAVizAdapter:
             'latex': latex_plain,
             'structure_latex': structure_plain,
         }
+        if rendered is False or rendered_structure is False:
+            return VizResult(intent='equation', warnings=['Failed to render LaTeX equation.'], metadata=metadata)
         return VizResult(intent='equation', paths=[output_path, structure_path], metadata=metadata)
 
     def _field_comparison(self, model, ctx) -> VizResult:
diff --git a/kd/viz/equation_renderer.py b/kd/viz/equation_renderer.py
index 40aaf6e..186b340 100644
--- a/kd/viz/equation_renderer.py
+++ b/kd/viz/equation_renderer.py
@@ -28,6 +28,7 @@ def render_latex_to_image(
     *,
     show=True,
 ):
+    """Render ``latex_str``; returns False if that failed (the error is logged)."""
     try:
         latex_str = _ensure_math_mode(str(latex_str))
         # Heuristically adjust figure width based on LaTeX string length.
@@ -47,10 +48,13 @@ def render_latex_to_image(
         
         if show:
             plt.show()
-        
+
+        return True
+
     except Exception as e:
         logger.error("Failed to render LaTeX to image: %s", e)
         logger.error("  Offending LaTeX content: %s", latex_str)
+        return False
     finally:
         if 'fig' in locals():
             try:
-- 
2.43.0


From 27a3967f3fadcf0871e1c67f27ae26dbf894c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 17/43] fix: SGA's safe division no longer changes the data it
 divides by

---
 kd/model/sga/sgapde/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 66200ac..10bf700 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -265,7 +265,7 @@ class SolverConfig:
     def divide(up, down, eta=1e-10):
         """Safe division function."""
         while np.any(down == 0):
-            down += eta
+            down = down + eta  # the operand may be the context's own data
         return up / down
         
     def get_device(self):
-- 
2.43.0


From f427e19d1cf8934809c2874d74ca3c70c13ab7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 18/43] fix: Discover models and their programs keep their own
 task, library and cache when another model is set up

---
 kd/model/discover/program.py       | 62 +++++++++++++++++++++---------
 kd/model/kd_discover.py            | 50 ++++++++++++++++++++++++
 kd/model/kd_discover_regression.py |  3 +-
 kd/viz/discover_viz.py             |  4 +-
 4 files changed, 98 insertions(+), 21 deletions(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 14e9b12..41fb249 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -225,6 +225,7 @@ class Program(object):
     default_terms=[]
     # Cython-related static variables
     have_cython = None      # Do we have cython installed
+    execute_function = None # Function evaluating a traversal
     execute = None          # Link to execute. Either cython or python
     cyfunc = None           # Link to cyfunc lib since we do an include inline
 
@@ -241,6 +242,13 @@ class Program(object):
     
     def _init(self, tokens, on_policy=True):
 
+        # The class attributes describe the model set up last; a program keeps
+        # what it was built for.
+        self.task = Program.task
+        self.library = Program.library
+        self.const_optimizer = Program.const_optimizer
+        self.execute_function = Program.execute_function
+
         self.traversal = [Program.library[t] for t in tokens]
         self.default_terms = [[Program.library[t]] for term in Program.default_terms for t in term]
         # import pdb;pdb.set_trace()
@@ -286,11 +294,11 @@ class Program(object):
         self.STRidge = STRidge(
             self.traversal.copy(),
             self.default_terms,
-            noise_level=getattr(Program.task, "noise_level", 0),
-            max_depth=getattr(Program.task, "max_depth", 4),
-            cut_ratio=getattr(Program.task, "cut_ratio", 0.03),
-            spatial_error=getattr(Program.task, "spatial_error", False),
-            const=getattr(Program.task, "add_const", False),
+            noise_level=getattr(self.task, "noise_level", 0),
+            max_depth=getattr(self.task, "max_depth", 4),
+            cut_ratio=getattr(self.task, "cut_ratio", 0.03),
+            spatial_error=getattr(self.task, "spatial_error", False),
+            const=getattr(self.task, "add_const", False),
         )
                     
     def __getstate__(self):
@@ -342,15 +350,15 @@ class Program(object):
     def execute_STR(self,u, x,ut,  test=False, wf=False):
         if wf:
             y_hat, w_best, self.invalid,self.error_node,self.error_type, y_right= self.STRidge.wf_calculate(u,x,ut, \
-            test, Program.execute_function)
+            test, self.execute_function)
         else:
             y_hat, w_best, self.invalid,self.error_node,self.error_type, y_right= self.STRidge.calculate(u,x,ut, \
-                test, Program.execute_function)
+                test, self.execute_function)
 
         return y_hat, y_right, w_best
     
     def execute_terms(self,u,x):
-        results =  self.STRidge.evaluate_terms(u,x, execute_function =Program.execute_function )
+        results =  self.STRidge.evaluate_terms(u,x, execute_function =self.execute_function )
         #  todo return  n*d
         
         return results
@@ -358,7 +366,7 @@ class Program(object):
     def execute_multi_STR(self,u,x,ut, test = False):
         self.cached_terms, cached_vals = None, None  
         y_hat, w_best, self.invalid,self.error_node,self.error_type, y_right=  self.STRidge.calculate(u,\
-            x,ut, test, Program.execute_function, cached = (self.cached_terms, cached_vals))
+            x,ut, test, self.execute_function, cached = (self.cached_terms, cached_vals))
         
         return y_hat, y_right, w_best
     
@@ -372,11 +380,11 @@ class Program(object):
         # self.set_stridge()
         # import pdb;pdb.set_trace()
         y_hat, w_best, self.invalid,self.error_node,self.error_type, y_right = self.STRidge.evaluate(self.traversal,\
-                                                                                                      u,x,ut, Program.execute_function )
+                                                                                                      u,x,ut, self.execute_function )
         return y_hat, y_right,w_best
     
     def execute(self, u,x,ut,wf = False,):
-        if isinstance(Program.const_optimizer, ScipyMinimize):
+        if isinstance(self.const_optimizer, ScipyMinimize):
             self.cached_terms=None
             return self.execute_BFGS(u,x,ut)
 
@@ -390,7 +398,7 @@ class Program(object):
                 return self.execute_STR(u, x,ut,wf = wf)
                 
     def execute_test(self, u, x, ut):
-        results = self.STRidge.calculate_RHS_terms(u,x, Program.execute_function)
+        results = self.STRidge.calculate_RHS_terms(u,x, self.execute_function)
         return results
 
     @staticmethod
@@ -404,7 +412,7 @@ class Program(object):
 
     def execute_direct(self, x):
         x_inputs = self._normalize_x_inputs(x)
-        y_hat, self.invalid, self.error_node, self.error_type = Program.execute_function(
+        y_hat, self.invalid, self.error_node, self.error_type = self.execute_function(
             self.traversal,
             [],
             x_inputs,
@@ -427,11 +435,11 @@ class Program(object):
     
     def switch_tokens(self, token_type='torch'):
         if token_type == 'torch':
-            torch_tokens = Program.library.torch_tokens # dicts key == numpy_op+t, value = torch tokens
+            torch_tokens = self.library.torch_tokens # dicts key == numpy_op+t, value = torch tokens
             if len(torch_tokens)==0:
                 # print("AD Utilized")
                 return
-            np_tokens_name = Program.library.np_names
+            np_tokens_name = self.library.np_names
             if "_t" in np_tokens_name[0]:
                 # use ad to generate meta data 
                 return 
@@ -443,7 +451,7 @@ class Program(object):
                     new_traversal.append(t)
         else:
             assert token_type == 'subgrid'
-            subgrid_tokens = Program.library.subgrid_tokens # dicts key == numpy_op+t, value = torch tokens
+            subgrid_tokens = self.library.subgrid_tokens # dicts key == numpy_op+t, value = torch tokens
             if len(subgrid_tokens)==0:
                 return
             new_traversal = []
@@ -512,7 +520,7 @@ class Program(object):
 
         # Do the optimization
         x0 = np.ones(len(self.const_pos)) # Initial guess
-        optimized_constants = Program.const_optimizer(f, x0)
+        optimized_constants = self.const_optimizer(f, x0)
 
         # Set the optimized constants
         self.set_constants(optimized_constants)
@@ -540,6 +548,24 @@ class Program(object):
             self.traversal[self.const_pos[i]] = PlaceholderConstant(const)
 
 
+    # Static variables that belong to the model in use
+    _CONTEXT = ("task", "library", "const_optimizer", "cache", "n_objects",
+                "default_terms", "have_cython", "execute_function", "use_torch",
+                "protected")
+
+    @classmethod
+    def get_context(cls):
+        """Returns the static variables of the model in use"""
+
+        return {k: getattr(Program, k) for k in cls._CONTEXT if hasattr(Program, k)}
+
+    @classmethod
+    def set_context(cls, context):
+        """Makes the static variables those of another model"""
+
+        for k, v in context.items():
+            setattr(Program, k, v)
+
     @classmethod
     def set_n_objects(cls, n_objects):
         Program.n_objects = n_objects
@@ -548,7 +574,7 @@ class Program(object):
     def clear_cache(cls):
         """Clears the class' cache"""
 
-        cls.cache = {}
+        Program.cache = {}
         STRidge.clear_cache()
 
 
diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 75b2b64..bdad662 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -7,6 +7,8 @@ sampling, and can be combined with Physics-Informed Neural Networks (PINN).
 
 from abc import ABCMeta, abstractmethod
 from ..base import BaseEstimator
+import functools
+import threading
 import warnings
 import os
 import zlib
@@ -36,6 +38,36 @@ warnings.filterwarnings('ignore', category=FutureWarning)
 os.environ['TF_CPP_MIN_LOG_LEVEL'] = '2'
 
 
+# One model at a time may use the static variables of Program.
+_PROGRAM_LOCK = threading.RLock()
+_program_users = []
+
+
+def _own_program(method):
+    """Run a method with the static variables of Program set to its model's.
+
+    They are class attributes, so another model's setup replaces them.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with _PROGRAM_LOCK:
+            if _program_users and _program_users[-1] is self:
+                return method(self, *args, **kwargs)
+            outer = Program.get_context() if _program_users else None
+            Program.set_context(getattr(self, "_program_context", {}))
+            _program_users.append(self)
+            try:
+                return method(self, *args, **kwargs)
+            finally:
+                _program_users.pop()
+                self._program_context = Program.get_context()
+                if outer is not None:
+                    Program.set_context(outer)
+
+    return wrapper
+
+
 class BaseRL(BaseEstimator, metaclass=ABCMeta):
     """Abstract base class for reinforcement learning based models."""
     
@@ -106,6 +138,7 @@ class KD_Discover(BaseRL):
         self.base_config_file = "./discover/config/config_pde.json"
         self.set_config(config_out)
 
+    @_own_program
     def setup(self):
         """Setup model components.
         
@@ -133,6 +166,7 @@ class KD_Discover(BaseRL):
         self.searcher = self.make_searcher()
         self.set_seeds(self.seed)
         
+    @_own_program
     def info(self):
         """Print model information."""
         print("Library: ", Program.task.library)
@@ -152,6 +186,7 @@ class KD_Discover(BaseRL):
                 self.out_path, f"discover_{name}_{self.seed}.csv"
             )
 
+    @_own_program
     def import_inner_data(self, dataset, data_type='regular'):
         """Import data from predefined datasets.
 
@@ -167,6 +202,7 @@ class KD_Discover(BaseRL):
             self._derive_out_path(dataset)
         self.setup()
 
+    @_own_program
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
         """Import data through a :class:`~kd.dataset.PDEDataset` instance.
 
@@ -234,6 +270,7 @@ class KD_Discover(BaseRL):
             "with a kd.dataset.PDEDataset instance."
         )
 
+    @_own_program
     def fit_dataset(
         self,
         dataset,
@@ -259,6 +296,7 @@ class KD_Discover(BaseRL):
         )
         return self.train(n_epochs=n_epochs, verbose=verbose)
 
+    @_own_program
     def train_one_step(self, epoch=0, verbose=True):
         """Train model for one step.
         
@@ -271,6 +309,7 @@ class KD_Discover(BaseRL):
         """
         return self.searcher.search_one_step(epoch=epoch, verbose=verbose)
 
+    @_own_program
     def train(self, n_epochs=100, verbose=True):
         """Train model for multiple epochs.
         
@@ -458,10 +497,12 @@ class KD_Discover(BaseRL):
         torch.random.manual_seed(new_seed)
         torch.cuda.manual_seed_all(new_seed)
     
+    @_own_program
     def print_pq(self):
         """Print priority queue."""
         self.searcher.print_pq()
 
+    @_own_program
     def plot(self, fig_type, **kwargs):
         """Plot training results.
         
@@ -512,6 +553,7 @@ class KD_Discover_SPR(KD_Discover):
         self._base_generation_type = self.config_pinn.get("generation_type", "AD")
         self._base_n_input_var = int(self.config_task.get("n_input_var", 1))
 
+    @_own_program
     def import_dataset(
         self,
         dataset,
@@ -613,12 +655,14 @@ class KD_Discover_SPR(KD_Discover):
         )
         return model
     
+    @_own_program
     def setup(self):
         """Setup model components including PINN."""
         super().setup()
         self.denoise_pinn = self.make_pinn_model()
         self.denoise_pinn.import_outter_data(self.data_class.get_data())   
         
+    @_own_program
     def reset_up(self, clear_cache=True, reset_controller=True, new_seed=None):
         """Reset model components.
         
@@ -636,12 +680,14 @@ class KD_Discover_SPR(KD_Discover):
         if reset_controller:
             self.controller = self.make_controller()
         
+    @_own_program
     def pretrain(self):
         """Pretrain PINN model with observations."""
         print("NN evaluator training with data")
         self.denoise_pinn.pretrain()
         Program.reset_task(self.denoise_pinn, self.config_pinn['generation_type'])
         
+    @_own_program
     def callIterPINN(self, n_epochs, verbose=True):
         """Run iterative PINN and PDE discovery.
         
@@ -696,6 +742,7 @@ class KD_Discover_SPR(KD_Discover):
         self.reset_up(reset_controller=False)    
         return self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)
     
+    @_own_program
     def pinn_train(self, best_p, count, coef=0.1, local_sample=False, last=False):
         """Train PINN with discovered equation constraint.
         
@@ -709,6 +756,7 @@ class KD_Discover_SPR(KD_Discover):
         self.denoise_pinn.train_pinn(best_p, count, coef=coef, local_sample=local_sample, last=last)
         Program.reset_task(self.denoise_pinn, self.config_pinn['generation_type'])
                 
+    @_own_program
     def train(self, n_epochs, verbose):
         """Train model.
         
@@ -737,6 +785,7 @@ class KD_Discover_SPR(KD_Discover):
         self.data_class = SparseData(x, y)
         self.data_class.process_data(domains)    
 
+    @_own_program
     def fit(self, x, y, domains, n_epochs=20, verbose=True, data_type='Sparse'):
         """Fit model to data.
         
@@ -761,6 +810,7 @@ class KD_Discover_SPR(KD_Discover):
         """Make predictions (not implemented)."""
         pass
 
+    @_own_program
     def fit_dataset(
         self,
         dataset,
diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..b5ca110 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -5,7 +5,7 @@ from typing import Sequence
 
 import numpy as np
 
-from .kd_discover import KD_Discover
+from .kd_discover import KD_Discover, _own_program
 from .discover.functions import PlaceholderConstant
 
 
@@ -81,6 +81,7 @@ class KD_Discover_Regression(KD_Discover):
                 parts.append(repr(token))
         return ",".join(parts)
 
+    @_own_program
     def fit(self, X, y, var_names: Sequence[str] | None = None, *, verbose: bool = False):
         X_arr, y_arr, names = self._validate_inputs(X, y, var_names)
 
diff --git a/kd/viz/discover_viz.py b/kd/viz/discover_viz.py
index 686dd57..34f9469 100644
--- a/kd/viz/discover_viz.py
+++ b/kd/viz/discover_viz.py
@@ -567,8 +567,8 @@ def _calculate_pinn_fields(model, best_program):
     if y_hat_rhs is None or Theta is None:
         raise AttributeError("best_program 对象中未找到缓存的 Theta 矩阵或 y_hat_rhs。请确保对 pde_pinn.py 和 program.py 的修改已生效。")
 
-    # 3. 从 Program.task 获取对应的、已被裁剪的数据
-    task = Program.task
+    # 3. 从该 program 自己的 task 获取对应的、已被裁剪的数据
+    task = vars(best_program).get("task", Program.task)
 
     # Defensive check: if task.ut was never set (e.g. AD_generate_mD path
     # before the reset_ut fix), try to recover from ut_cache.
-- 
2.43.0


From 49f385a50ec7d7c73782ee098579b5c7467b49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 19/43] fix: Discover's best program is the best seen, also
 after batches without a usable or positive reward

---
 kd/model/discover/searcher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..c26c3a1 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -159,11 +159,12 @@ class Searcher:
                 best_idx = int(np.argmax(r_safe))
                 if np.isfinite(r[best_idx]) and (self.best_p is None or r[best_idx] > self.r_best):
                     self.best_p = programs[best_idx]
-                    self.r_best = r[best_idx]
+                    self.r_best = self.prev_r_best = r[best_idx]
             return
         programs, r, r_train, r_full_valid, p_train, priors,on_policy,obs, actions, baseline_r = reserved
         
-        r_max = np.max(r_full_valid)
+        # The best valid program is among those kept, whatever its reward's sign.
+        r_max = np.max(r)
         self.r_best = max(r_max, self.r_best)
         
         if self.gp_aggregator is not None:   
@@ -256,7 +257,7 @@ class Searcher:
             self.n_iterations=n_epochs
         
         # whether keep priority queue
-        if not keep_history and len(self.pq)>0:
+        if not keep_history and (len(self.pq)>0 or self.best_p is not None):
             self.set_up()
             
         pbar = tqdm(range(n_epochs), desc='Progress', ncols=100)
-- 
2.43.0


From 99a06ec6f42fdef860eb811de9b60ffeb6da906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 20/43] fix: an equation the sparse network cannot evaluate has
 no residual instead of ending the fit

---
 kd/model/discover/stridge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 79ab2aa..e0c4112 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -614,6 +614,9 @@ class STRidge(object):
 
     def calculate_RHS(self, u, x, ut, coefs, execute_func = unsafe_execute_torch,extra_gradient=False ):
         results = self.calculate_RHS_terms(u,x, execute_func,extra_gradient=extra_gradient)
+        if torch.is_tensor(results):
+            # the program cannot be evaluated, so it has no residual
+            return torch.full_like(ut, float('nan'))
         RHS = 0
         if isinstance(coefs, list):
             for i in range(len(coefs)):
-- 
2.43.0


From 0a16d022476f3aff8f44c5afd27292df7fd9af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 21/43] fix: web app visualizations of several users no longer
 share one save directory

---
 app.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/app.py b/app.py
index 0a5948c..d6a001d 100644
--- a/app.py
+++ b/app.py
@@ -7,6 +7,7 @@ Usage:
 """
 
 import os
+import threading
 import warnings
 import traceback
 
@@ -25,6 +26,10 @@ from kd.dataset._registry import PDE_REGISTRY
 from kd.viz.core import VizRequest, render, configure
 
 
+# The viz configuration and pyplot are global; event handlers run in threads.
+_VIZ_LOCK = threading.RLock()
+
+
 # ── GPU offloading ────────────────────────────────────────────
 
 GPU_MODELS = {"KD_DLGA", "KD_DSCV_SPR"}
@@ -252,7 +257,8 @@ def _run_local(
     eqgpt_epochs=5, eqgpt_samples=400, eqgpt_cases="N only (12 cases)",
 ):
     """Run model training in the current process (CPU or local GPU)."""
-    configure(save_dir=None)
+    with _VIZ_LOCK:
+        configure(save_dir=None)
 
     try:
         model = None
@@ -322,7 +328,8 @@ def _run_local(
                         None, None, gr.update()) + _NO_GPU
 
         equation = _get_equation_text(model, model_name, result)
-        fig = _render_equation_fig(model, equation)
+        with _VIZ_LOCK:
+            fig = _render_equation_fig(model, equation)
         caps = _get_model_capabilities(model) if model_name != "KD_EqGPT" else []
         viz_update = gr.update(choices=caps, value=caps[0] if caps else None)
 
@@ -475,7 +482,7 @@ def run_viz(viz_type, model_state):
         return None, "Please train a model first."
 
     # Use a temp dir so adapters that save-to-file still work
-    with tempfile.TemporaryDirectory() as tmpdir:
+    with _VIZ_LOCK, tempfile.TemporaryDirectory() as tmpdir:
         configure(save_dir=tmpdir)
         try:
             viz_result = render(VizRequest(viz_type, model_state))
-- 
2.43.0


From 6759059943c85be7d1b4d0d4839c8f48048f8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 22/43] fix: the runner restores the visualization directory
 when drawing fails

---
 kd/runner.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/kd/runner.py b/kd/runner.py
index f273758..e9c1b70 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -162,23 +162,24 @@ def save_viz(output_dir, model):
         from kd.viz.core import VizRequest, render, configure, list_capabilities
 
         configure(save_dir=output_dir)
-        caps = set(list_capabilities(model))
-
-        for viz_type in ("equation", "search_evolution", "training_curve"):
-            if viz_type not in caps and viz_type != "equation":
-                continue
-            try:
-                vr = render(VizRequest(viz_type, model))
-                if vr.figure is not None:
-                    vr.figure.savefig(
-                        os.path.join(output_dir, f"{viz_type}.png"),
-                        dpi=150, bbox_inches="tight",
-                    )
-                    plt.close(vr.figure)
-            except Exception:
-                pass
-
-        configure(save_dir=None)
+        try:
+            caps = set(list_capabilities(model))
+
+            for viz_type in ("equation", "search_evolution", "training_curve"):
+                if viz_type not in caps and viz_type != "equation":
+                    continue
+                try:
+                    vr = render(VizRequest(viz_type, model))
+                    if vr.figure is not None:
+                        vr.figure.savefig(
+                            os.path.join(output_dir, f"{viz_type}.png"),
+                            dpi=150, bbox_inches="tight",
+                        )
+                        plt.close(vr.figure)
+                except Exception:
+                    pass
+        finally:
+            configure(save_dir=None)
     except Exception as e:
         print(f"[runner] Viz generation skipped: {e}")
 
-- 
2.43.0


From 726fb261c65523c6f6d26c3a0c7aaf46cb158c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:00 +0000
Subject: [PATCH 23/43] fix: a visualization answers with a message when its
 temporary directory cannot be used

---
 app.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app.py b/app.py
index d6a001d..b51176c 100644
--- a/app.py
+++ b/app.py
@@ -6,6 +6,7 @@ Usage:
     python app.py
 """
 
+import contextlib
 import os
 import threading
 import warnings
@@ -482,9 +483,12 @@ def run_viz(viz_type, model_state):
         return None, "Please train a model first."
 
     # Use a temp dir so adapters that save-to-file still work
-    with _VIZ_LOCK, tempfile.TemporaryDirectory() as tmpdir:
-        configure(save_dir=tmpdir)
+    with _VIZ_LOCK, contextlib.ExitStack() as stack:
         try:
+            tmpdir = stack.enter_context(
+                tempfile.TemporaryDirectory(ignore_cleanup_errors=True)
+            )
+            configure(save_dir=tmpdir)
             viz_result = render(VizRequest(viz_type, model_state))
             if viz_result.warnings:
                 return None, "\n".join(viz_result.warnings)
-- 
2.43.0


From 758d593d57e53c4e800f2b233ea4aa270b678ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 24/43] fix: an empty number field of a GPU training is
 reported instead of raised

---
 app.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/app.py b/app.py
index b51176c..4963bad 100644
--- a/app.py
+++ b/app.py
@@ -349,26 +349,26 @@ def _submit_gpu_training(
     request,
 ):
     """Submit training to Bohrium GPU offline task."""
-    if model_name == "KD_DLGA":
-        runner_model = "dlga"
-        params = {
-            "operators": dlga_ops,
-            "epi": float(dlga_epi),
-            "max_iter": int(dlga_max_iter),
-            "sample": int(dlga_sample) if dlga_sample else None,
-        }
-    else:  # KD_DSCV_SPR
-        runner_model = "dscv_spr"
-        params = {
-            "binary_operators": dscv_binary,
-            "unary_operators": dscv_unary,
-            "n_samples_per_batch": int(dscv_batch),
-            "seed": int(dscv_seed),
-            "n_epochs": int(spr_epochs),
-            "sample_ratio": float(spr_sample_ratio),
-        }
-
     try:
+        if model_name == "KD_DLGA":
+            runner_model = "dlga"
+            params = {
+                "operators": dlga_ops,
+                "epi": float(dlga_epi),
+                "max_iter": int(dlga_max_iter),
+                "sample": int(dlga_sample) if dlga_sample else None,
+            }
+        else:  # KD_DSCV_SPR
+            runner_model = "dscv_spr"
+            params = {
+                "binary_operators": dscv_binary,
+                "unary_operators": dscv_unary,
+                "n_samples_per_batch": int(dscv_batch),
+                "seed": int(dscv_seed),
+                "n_epochs": int(spr_epochs),
+                "sample_ratio": float(spr_sample_ratio),
+            }
+
         job_id = submit_gpu_job(runner_model, dataset_name, params, request)
         return (
             f"GPU task submitted — Job ID: {job_id}\n"
-- 
2.43.0


From d0cefb6cecddb918a89400338afca6bdae70a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 25/43] fix: Discover's best equation and its reward change
 together, so a failed step leaves no reward without its equation

---
 kd/model/discover/searcher.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index c26c3a1..fcc1a8f 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -158,14 +158,13 @@ class Searcher:
                 r_safe = np.where(np.isfinite(r), r, -np.inf)
                 best_idx = int(np.argmax(r_safe))
                 if np.isfinite(r[best_idx]) and (self.best_p is None or r[best_idx] > self.r_best):
-                    self.best_p = programs[best_idx]
-                    self.r_best = self.prev_r_best = r[best_idx]
+                    self.best_p, self.r_best = programs[best_idx], r[best_idx]
+                    self.prev_r_best = self.r_best
             return
         programs, r, r_train, r_full_valid, p_train, priors,on_policy,obs, actions, baseline_r = reserved
         
         # The best valid program is among those kept, whatever its reward's sign.
         r_max = np.max(r)
-        self.r_best = max(r_max, self.r_best)
         
         if self.gp_aggregator is not None:   
             p_agg, action_agg, ob_agg, prior_agg = self.gp_aggregator( p_train, actions.shape[1])
@@ -183,7 +182,6 @@ class Searcher:
                 p_train = p_train + p_agg
                 on_policy = np.append(on_policy, [False]*len(p_agg))
                 r_max = np.max(r)
-                self.r_best = max(r_max, self.r_best)
         
         self.r_history.append(r_full_valid)
         self.r_train.append(r_train)
@@ -191,6 +189,13 @@ class Searcher:
         sorted_idx = np.argsort(r)[::-1]
         one_perc = int(len(programs) * float(self.args['epsilon']))
         cur_best_program = programs[sorted_idx[0]]
+
+        # The best equation and its reward change together, so that a step
+        # which fails below leaves neither behind.
+        new_r_best = bool(self.best_p is None or r_max > self.r_best)
+        if new_r_best:
+            self.best_p, self.r_best = cur_best_program, r_max
+
         for idx in sorted_idx[:one_perc]:
             self.top_samples_per_batch.append([epoch, r[idx], repr(programs[idx])])
 
@@ -223,13 +228,6 @@ class Searcher:
         #                   s_history, b_train, epoch_walltime, controller_programs)
 
 
-        # Update new best expression
-        new_r_best = False
-
-        if self.prev_r_best is None or r_max > self.prev_r_best:
-            new_r_best = True
-            self.best_p = cur_best_program
-            
         self.prev_r_best = self.r_best
         # Print new best expression
         if verbose and new_r_best:
-- 
2.43.0


From 8b5fa355192b9ad1c83573926003cfb088cfb576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 26/43] fix: Discover accepts a configuration of the user's
 (collections.Mapping is gone from Python)

---
 kd/model/discover/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..20d3e45 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+import collections.abc
 import copy
 import functools
 import numpy as np
@@ -270,7 +270,7 @@ def safe_merge_dicts(base_dict, update_dict):
         return base_dict
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
+        if isinstance(value, collections.abc.Mapping):
             base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
         else:
             base_dict[key] = value
-- 
2.43.0


From 8732803eb22da08100e7a21668d2a3fb6cf3758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 27/43] fix: DLGA's validation loss compares each prediction
 with its own target when y is one-dimensional

---
 kd/model/dlga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 2bad949..a1c1d48 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -172,7 +172,7 @@ class DLGA(BaseGa):
             prediction_validate = self.Net(X_valid)
             loss = MSELoss(prediction, y_train.view(-1, 1))
             loss_validate = np.mean(
-                (prediction_validate.detach().cpu().numpy() - y_valid) ** 2
+                (prediction_validate.detach().cpu().numpy() - y_valid.reshape(-1, 1)) ** 2
             )
             loss.backward()
             NN_optimizer.step()
-- 
2.43.0


From b1bf12f5f72a9252dc48c09651a6db64f85b1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 28/43] fix: loaded datasets no longer share metadata with the
 registry

---
 kd/dataset/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..51cbc3d 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Optional
 
 from ._base import (PDEDataset,
@@ -20,7 +21,7 @@ def _tag_dataset(dataset: Optional[PDEDataset], name: str) -> Optional[PDEDatase
 
     setattr(dataset, 'registry_name', name)
     info = PDE_REGISTRY.get(name, {})
-    aliases = info.get('aliases', {}) or {}
+    aliases = copy.deepcopy(info.get('aliases', {}) or {})
     setattr(dataset, 'aliases', aliases)
     legacy_name = aliases.get('legacy', getattr(dataset, 'legacy_name', None))
     if legacy_name is None:
@@ -40,7 +41,8 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
     Returns:
         PDEDataset: The loaded dataset instance.
     """
-    info = get_dataset_info(name)
+    # The dataset gets its own metadata: changing it must not affect later loads.
+    info = copy.deepcopy(get_dataset_info(name))
     
     # 处理不同文件格式
     if 'files' in info:  # 多文件情况（如chafee-infante）
@@ -139,7 +141,7 @@ def load_regression(name: str):
             f"Unknown regression dataset '{name}'. "
             f"Available: {available}"
         )
-    info = _REGRESSION_REGISTRY[name]
+    info = copy.deepcopy(_REGRESSION_REGISTRY[name])
     data_path = resources.files("kd.dataset.data")
     data = np.load(data_path / info["file"])
     X = data[:, info["x_cols"]]
-- 
2.43.0


From e7b199539ca96e209ee06b9eb87ea3bb63508c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 29/43] fix: square fields are not transposed on load,
 transposed .npy uploads are not scrambled

---
 kd/dataset/__init__.py | 2 +-
 kd/dataset/_base.py    | 2 +-
 kd/runner.py           | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index 51cbc3d..85ea852 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -51,7 +51,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         x = np.asarray(np.load(data_path / info['files']['x']), dtype=float).flatten()
         t = np.asarray(np.load(data_path / info['files']['t']), dtype=float).flatten()
 
-        if u.shape == (len(t), len(x)):
+        if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
             u = u.T
 
         dataset = PDEDataset(
diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..7eb3ad1 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -744,7 +744,7 @@ def load_pde_dataset(
         u_data = np.asarray(pde_data[u_key])
 
         # 确保 u_data 的形状与 (len(x), len(t)) 对齐
-        if u_data.shape == (len(t_data), len(x_data)):
+        if u_data.shape != (len(x_data), len(t_data)) and u_data.shape == (len(t_data), len(x_data)):
             u_data = u_data.T
 
         # 4. 将所有信息送入 PDEDataset 进行标准化封装
diff --git a/kd/runner.py b/kd/runner.py
index e9c1b70..d749c01 100644
--- a/kd/runner.py
+++ b/kd/runner.py
@@ -53,7 +53,7 @@ def load_dataset(config):
             x = np.asarray(raw[file_config.get("x_key", "x")], dtype=float).flatten()
             t = np.asarray(raw[file_config.get("t_key", "t")], dtype=float).flatten()
             u = np.asarray(raw[file_config.get("u_key", "usol")])
-            if u.shape == (len(t), len(x)):
+            if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
                 u = u.T
             return PDEDataset(equation_name="uploaded", x=x, t=t, usol=u)
 
@@ -68,6 +68,8 @@ def load_dataset(config):
             t_range = domain["t"] if domain and "t" in domain else (0, 1)
             x = np.linspace(*x_range, nx)
             t = np.linspace(*t_range, nt)
+            if data.shape != (nx, nt) and data.shape == (nt, nx):
+                data = data.T
             return PDEDataset(equation_name="uploaded", x=x, t=t, usol=data.reshape(nx, nt))
 
         else:
-- 
2.43.0


From 36e1238f81d5c06f5986e6bac20325795a6fe85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 30/43] fix: named regression expressions substitute each
 variable once

---
 kd/model/kd_discover_regression.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index b5ca110..0edcdbf 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from dataclasses import dataclass
 from typing import Sequence
 
@@ -58,10 +59,12 @@ class KD_Discover_Regression(KD_Discover):
 
     @staticmethod
     def _render_named_expression(expression: str, var_names: Sequence[str]) -> str:
-        rendered = expression
-        for index, name in reversed(list(enumerate(var_names, start=1))):
-            rendered = rendered.replace(f"x{index}", name)
-        return rendered
+        def name_of(match):
+            index = int(match.group(1))
+            return var_names[index - 1] if 1 <= index <= len(var_names) else match.group(0)
+
+        # One pass, so that a name is never taken for another variable.
+        return re.sub(r"(?<![A-Za-z0-9_])x(\d+)(?![A-Za-z0-9_])", name_of, expression)
 
     @staticmethod
     def _format_constant(value: float) -> str:
-- 
2.43.0


From dafcc612e5e461ac5cb9478417c13c4d0f215d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 31/43] fix: an EqGPT candidate with an undefined score earns
 nothing instead of NaN

---
 kd/model/eqgpt/continue_train_GPT_all.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..ee1ddd1 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -311,7 +311,9 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     reward=0
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
-        reward=np.mean(np.array(all_reward))
+        reward=np.mean(np.array(all_reward)) if all_reward else 0
+        if not np.isfinite(reward):
+            reward=0
     if ({word2id['u'], word2id['sin(u)']}.issubset(terms)
             or {word2id['u'], word2id['sinh(u)']}.issubset(terms)
             or {word2id['sin(u)'], word2id['sinh(u)']}.issubset(terms)
-- 
2.43.0


From 35273c1346f571bed74d4405e6ffac4dd4cd7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 32/43] fix: EqGPT keeps filling its best list while it holds
 fewer than ten

---
 kd/model/kd_eqgpt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 1170237..9f3340c 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -475,15 +475,14 @@ class KD_EqGPT:
             potential_text = all_sentence[second_index[p_idx]]
             array = np.asarray(best_award)
             idx_arr = np.where((array - potential_award) < 0)[0]
-            if len(idx_arr) == 0:
+            if len(idx_arr) == 0 and len(best_award) >= 10:
                 continue
             if np.isin(potential_award, array):
                 continue
-            ins_idx = idx_arr[0]
+            ins_idx = idx_arr[0] if len(idx_arr) else len(best_award)
             best_sentence.insert(ins_idx, potential_text)
             best_award.insert(ins_idx, potential_award)
-            best_sentence.pop(-1)
-            best_award.pop(-1)
+            del best_sentence[10:], best_award[10:]
 
         return best_award, best_sentence
 
-- 
2.43.0


From b062abc4a1a8760fb9aa9b2584cbeeee464fa646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 33/43] fix: EqGPT term (u(u^2)xx)xx takes the second
 derivative of u^2

---
 kd/model/eqgpt/calculate_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..eb33bb2 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From bad2f097bf172301eedf00253226752f20dd2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 34/43] fix: SGA names the default term and left side after the
 target field

---
 kd/model/sga/sgapde/context.py  | 2 +-
 kd/model/sga/sgapde/equation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..941ae12 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1053,7 +1053,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..1176f68 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -40,7 +40,9 @@ class SGAEquationDetails:
 def _infer_lhs_label(config) -> str:
     raw = getattr(config, 'left_side', None)
     if not raw:
-        return 'u_t'
+        field = getattr(config, 'target_field', None) or 'u'
+        axis = getattr(config, 'lhs_axis', None) or 't'
+        return f'{field}_{axis}'
     if isinstance(raw, str) and '=' in raw:
         return raw.split('=', 1)[1].strip() or 'u_t'
     return 'u_t'
-- 
2.43.0


From d14796458b59d7616699f8f1b3a73dcfb9158fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 35/43] fix: SGA crops parameter fields with the data when
 edges are deleted

---
 kd/model/sga/sgapde/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 941ae12..74e8c5c 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -416,6 +416,11 @@ class ProblemContext:
         slicer = tuple(slicer)
 
         new_fields = {name: field[slicer] for name, field in self.fields.items()}
+        param_fields = getattr(self.config, "param_fields", None)
+        if param_fields:
+            self.config.param_fields = {
+                name: np.asarray(value)[slicer] for name, value in param_fields.items()
+            }
         new_coords_1d = dict(self.coords_1d)
         new_coords_1d["x"] = np.asarray(new_coords_1d["x"]).reshape(-1)[n_slice_start:n_slice_end]
 
-- 
2.43.0


From 215af807373e8e66f358d01572ff0eb5d71c85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:34 +0000
Subject: [PATCH 36/43] fix: SGA uses the parameter fields of a plain x/t/usol
 dataset

---
 kd/model/sga/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/adapter.py b/kd/model/sga/adapter.py
index e57d5c9..95e1f92 100644
--- a/kd/model/sga/adapter.py
+++ b/kd/model/sga/adapter.py
@@ -57,9 +57,13 @@ class SGADataAdapter:
                 f"({len(x)}, {len(t)}) but got {u.shape}"
             )
 
-        return {
+        kwargs = {
             "u_data": u,
             "x_data": x,
             "t_data": t,
             "problem_name": getattr(self.dataset, "equation_name", "custom_dataset") or "custom_dataset",
         }
+        param_fields = getattr(self.dataset, "param_fields", None)
+        if param_fields:
+            kwargs["param_fields"] = {k: np.asarray(v) for k, v in param_fields.items()}
+        return kwargs
-- 
2.43.0


From cda731c063c245e319677ca48677a5536b847c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:24 +0000
Subject: [PATCH 37/43] fix: an interrupt while Discover samples or ranks
 programs ends the search instead of opening a debugger prompt

---
 kd/model/discover/dso/train.py | 5 +----
 kd/model/discover/task/task.py | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/kd/model/discover/dso/train.py b/kd/model/discover/dso/train.py
index 781f515..fa64377 100644
--- a/kd/model/discover/dso/train.py
+++ b/kd/model/discover/dso/train.py
@@ -659,10 +659,7 @@ def learn(sess, controller, pool, gp_controller, gp_aggregator, pinn_model, outp
             cv_list.append(cv)
             
         mse_cv = criterion(mse_list, cv_list, type = 'multiply')
-        try:
-            ranking = np.argsort(mse_cv, axis = 0)[0]
-        except:
-            import pdb;pdb.set_trace()
+        ranking = np.argsort(mse_cv, axis = 0)[0]
         best_count = np.bincount(ranking)
         best_ind = np.argmax(best_count)
         print(f"ranking is {best_count}; with No.{best_ind} ranks first")
diff --git a/kd/model/discover/task/task.py b/kd/model/discover/task/task.py
index 15b8d3d..e8d2a01 100644
--- a/kd/model/discover/task/task.py
+++ b/kd/model/discover/task/task.py
@@ -137,10 +137,7 @@ class HierarchicalTask(Task):
 
         # Update dangling with (arity - 1) for each element in action
         #import pdb;pdb.set_trace()
-        try:
-            dangling += lib.arities[action] - 1
-        except:
-            import pdb;pdb.set_trace()
+        dangling += lib.arities[action] - 1
         prior = self.prior(actions, parent, sibling, dangling) # (?, n_choices)
 
         # Reset initial values when tree completes
-- 
2.43.0


From f1802d25f29e07b3b321de32cbd274e8fa65ed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:33 +0000
Subject: [PATCH 38/43] fix: a Discover step cut short records no reward above
 its best

---
 kd/model/discover/searcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index fcc1a8f..18e11e6 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -183,8 +183,6 @@ class Searcher:
                 on_policy = np.append(on_policy, [False]*len(p_agg))
                 r_max = np.max(r)
         
-        self.r_history.append(r_full_valid)
-        self.r_train.append(r_train)
         # sort in descending order: larger rewards -> better solutions
         sorted_idx = np.argsort(r)[::-1]
         one_perc = int(len(programs) * float(self.args['epsilon']))
@@ -196,6 +194,9 @@ class Searcher:
         if new_r_best:
             self.best_p, self.r_best = cur_best_program, r_max
 
+        self.r_history.append(r_full_valid)
+        self.r_train.append(r_train)
+
         for idx in sorted_idx[:one_perc]:
             self.top_samples_per_batch.append([epoch, r[idx], repr(programs[idx])])
 
-- 
2.43.0


From bc68e811ab5bac9664dfb36b99d904d9f46b109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 39/43] fix: the DLGA visualization adapter is registered
 whichever module is imported first

---
 kd/model/dlga.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index a1c1d48..234f7f9 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -18,8 +18,6 @@ import copy
 import pickle
 import matplotlib.pyplot as plt
 
-from ..viz import equation_renderer
-
 class BaseGa(BaseEstimator, metaclass=ABCMeta):
     """Abstract base class for genetic algorithm based models."""
 
@@ -613,6 +611,10 @@ class DLGA(BaseGa):
             print(f"equation form: {equation}")
 
 
+            # Imported here: kd.viz registers its adapter for KD_DLGA and so has
+            # to be able to import this module.
+            from ..viz import equation_renderer
+
             if equation_renderer: # 检查导入是否成功
                 self.eq_latex = equation_renderer.dlga_eq2latex(
                     chromosome=Chrom,
-- 
2.43.0


From 5f84c0491b39bde5050ea52e0c7e78f47ab8455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:05 +0000
Subject: [PATCH 40/43] fix: a dataset given with axis order (t, x) pairs its
 points with their own values

---
 kd/dataset/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 7eb3ad1..177d940 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -352,7 +352,8 @@ class PDEDataset(MetaData):
         # Store parameter fields (non-differentiated variables).
         self.param_fields: Dict[str, np.ndarray] = {}
         if param_fields:
-            target_shape = self.usol.shape
+            target = self.usol if self.fields_data is None else self.fields_data[target_field]
+            target_shape = target.shape
             for name, arr in param_fields.items():
                 arr = np.asarray(arr)
                 if arr.shape != target_shape:
@@ -485,6 +486,9 @@ class PDEDataset(MetaData):
         self.x = coords_1d.get("x")
         self.t = coords_1d.get("t")
         self.usol = fields_data[target_field]
+        if axis_order == ["t", "x"]:
+            # The (x, t) helpers index usol with x first.
+            self.usol = self.usol.T
 
     def get_datapoint(self, x_id: int, t_id: int) -> Tuple[float, float, float]:
         """
-- 
2.43.0


From 3864397e9625c4ebd2c119098d047f1234703600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:05 +0000
Subject: [PATCH 41/43] fix: sparse Discover's fit on arrays no longer keeps
 the dimensions of an earlier dataset

---
 kd/model/kd_discover.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index bdad662..d4e7bd2 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -804,6 +804,7 @@ class KD_Discover_SPR(KD_Discover):
         self.set_seeds(self.seed)
         self._reset_out_path()
         self.make_outter_data(x, y, domains, data_type)
+        self._inject_nd_config()
         return self.train(n_epochs=n_epochs, verbose=verbose)
 
     def predict(self, x):
-- 
2.43.0


From 633bdc8803535d40c5c77898037fdb52707c6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 42/43] fix: SGA field comparisons and time slices show the
 data on the grid of the search (deleted edges, metadata)

---
 kd/viz/_adapters/sga.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index c74b1f3..ab99f67 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -434,6 +434,19 @@ class SGAVizAdapter:
         meta_perm = np.transpose(metadata_field, perm)
         orig_perm = np.transpose(original_field, perm)
 
+        if orig_perm.shape != meta_perm.shape:
+            # The search worked on another grid (finer metadata, deleted edges):
+            # show the original field at the points of that grid.
+            for i, axis in enumerate(spatial_axes + [lhs_axis]):
+                grid = getattr(context, f'{axis}_origin', None)
+                if np.shape(grid) != original_field.shape:
+                    return None
+                points = np.transpose(grid, perm)[tuple(slice(None) if j == i else 0 for j in range(len(perm)))]
+                order = np.argsort(points)
+                orig_perm = np.apply_along_axis(
+                    lambda values: np.interp(coords_1d[axis], points[order], values[order]), i, orig_perm
+                )
+
         return FieldComparisonData(
             spatial_coords=spatial_coords,
             t_coords=t_coords,
-- 
2.43.0


From 329ea93086a3c04fdff00a7f441500ed9551f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 43/43] fix: SGA residual plot no longer subtracts values of
 two grids (deleted edges, metadata)

---
 kd/viz/_adapters/sga.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kd/viz/_adapters/sga.py b/kd/viz/_adapters/sga.py
index ab99f67..d27961c 100644
--- a/kd/viz/_adapters/sga.py
+++ b/kd/viz/_adapters/sga.py
@@ -611,10 +611,16 @@ class SGAVizAdapter:
             residual_meta = np.transpose(residual_meta, perm)
             residual_origin = np.transpose(residual_origin, perm)
 
+        # The search may have worked on another grid than the data's own (finer
+        # metadata, deleted edges); values of two grids cannot be subtracted.
+        if true_ut.shape == rhs_meta.shape:
+            actual, mode = true_ut, 'metadata_vs_groundtruth'
+        else:
+            actual, mode = meta_ut, 'metadata'
         residual_data = ResidualPlotData.from_actual_predicted(
-            actual=true_ut.reshape(-1),
+            actual=actual.reshape(-1),
             predicted=rhs_meta.reshape(-1),
-            metadata={'mode': 'metadata_vs_groundtruth'},
+            metadata={'mode': mode},
         )
 
         warnings: list = []
-- 
2.43.0


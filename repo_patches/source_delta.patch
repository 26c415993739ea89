From 280864d119017b79184b6570a55dbe53c3cb167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 01/44] fix: keep the draw probability when a population is
 saved and reloaded

---
 popsynth/population.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..4999092 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
@@ -766,7 +766,8 @@ class Population(object):
 
         except KeyError:
 
-            probability = None
+            # older files carry a misspelled key
+            probability = f["probabilty"][()] if "probabilty" in f else None
 
         fluxes = f["fluxes"][()]
         flux_obs = f["flux_obs"][()]
-- 
2.43.0


From 86a901174f5cb4315131fd717fd7467fd0ca0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 02/44] fix: reload the graph of a population as a directed
 graph

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 4999092..904bd90 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -793,7 +793,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From 820fe4373b8d73ef8952a8f00ef7e20104cb110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 03/44] fix: reload the name and functional forms of a
 population as text

---
 popsynth/population.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 904bd90..7204991 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -30,6 +30,18 @@ wine = "#8F2727"
 dark, dark_highlight, mid, mid_highlight, light, light_highlight = betagen(wine)
 
 
+def _load_string(value):
+    """
+    Recover the text from an HDF5 string attribute
+    """
+
+    if isinstance(value, bytes):
+
+        return value.decode()
+
+    return value
+
+
 class Population(object):
     def __init__(
         self,
@@ -599,7 +611,9 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+
+                f.attrs["lf_form"] = np.string_(self._lf_form)
 
             f.attrs["has_lf"] = True
 
@@ -607,7 +621,11 @@ class Population(object):
             f.attrs["has_lf"] = False
 
         f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
+        if self._spatial_form is not None:
+
+            f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
@@ -723,7 +741,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = _load_string(f.attrs.get("lf_form"))
 
             else:
 
@@ -739,9 +757,9 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
+        name = _load_string(f.attrs["name"])
 
-        spatial_form = str(f.attrs["spatial_form"])
+        spatial_form = _load_string(f.attrs.get("spatial_form"))
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
-- 
2.43.0


From 10851a2607b165788d3ebb68a3112a6317b3e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 04/44] fix: sub-populations keep known distances and can be
 saved

---
 popsynth/population.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 7204991..5867935 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -887,25 +887,21 @@ class Population(object):
 
             new_aux = None
 
-        itr = 0
-        known_distances = []
-        known_distance_idx = []
-        unknown_distance_idx = []
-
-        for i, s in enumerate(selection):
-
-            if s:
+        if observed:
 
-                if i in self._known_distances:
+            # the indices refer to the selected objects
 
-                    known_distances.append(self._distances[i])
-                    known_distance_idx.append(itr)
+            known_distances = self._known_distances
+            known_distance_idx = self._known_distance_idx
+            unknown_distance_idx = self._unknown_distance_idx
 
-                else:
+        else:
 
-                    unknown_distance_idx.append(itr)
+            # hidden objects never have known distances
 
-                itr += 1
+            known_distances = []
+            known_distance_idx = []
+            unknown_distance_idx = np.arange(sum(selection))
 
         if self._probability is not None:
 
@@ -919,8 +915,8 @@ class Population(object):
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
             known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distance_idx=np.array(known_distance_idx, dtype=int),
+            unknown_distance_idx=np.array(unknown_distance_idx, dtype=int),
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
             selection=np.ones(sum(selection), dtype=bool),
@@ -939,6 +935,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From 0d5359cebc92dc2013a43eca9d8210de604deeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 05/44] fix: selected parts of a simulated variable carry a
 boolean selection

---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..4d5c9e7 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones(len(selected), dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros(len(non_selected), dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From c7c0984f38e572a04e830bafba5b1ef3127676fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 06/44] fix: operations on simulated variables keep latent and
 observed values aligned

---
 popsynth/simulated_variable.py | 35 +++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 4d5c9e7..59ecc17 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -118,7 +118,7 @@ class SimulatedVariable(np.ndarray):
 
         obs = self.view(np.ndarray).__getitem__(item)
 
-        if not isinstance(obs, np.ndarray):
+        if not isinstance(obs, np.ndarray) or obs.ndim == 0:
 
             return obs
 
@@ -164,12 +164,28 @@ class SimulatedVariable(np.ndarray):
         if out_no:
             info['outputs'] = out_no
 
-        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+        # the latent values are computed into their own storage
+        # and before any output that may share memory with the
+        # inputs is overwritten
+
+        latent_kwargs = dict(kwargs)
+
+        if "out" in kwargs:
+
+            latent_kwargs["out"] = tuple(
+                None if x is None else np.array(x) for x in kwargs["out"]
+            )
+
+        if method == "at" and isinstance(inputs[0], SimulatedVariable):
+
+            latent_args[0] = latent_args[0].copy()
 
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
+        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+
         if results is NotImplemented:
             return NotImplemented
 
@@ -179,10 +195,8 @@ class SimulatedVariable(np.ndarray):
         if method == 'at':
             if isinstance(inputs[0], SimulatedVariable):
 
-                print("oh shit")
+                inputs[0]._latent_values = latent_args[0]
 
-                pass
-            #                inputs[0].info = info
             return
 
         if ufunc.nout == 1:
@@ -197,7 +211,7 @@ class SimulatedVariable(np.ndarray):
 
             if output is None:
 
-                if isinstance(result, np.ndarray):
+                if isinstance(result, np.ndarray) and result.shape == self.shape:
 
                     out = SimulatedVariable(
                         result, latent_result, self._selection
@@ -205,12 +219,19 @@ class SimulatedVariable(np.ndarray):
 
                 else:
 
+                    # this is no longer one value per object
+
                     out = result
 
             else:
 
                 out = output
 
+                if isinstance(out, SimulatedVariable):
+
+                    out._latent_values = latent_result
+                    out._selection = self._selection
+
             final_results.append(out)
 
         results = tuple(final_results)
-- 
2.43.0


From 6f316388d253ba622a763df17656a94508693749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 07/44] fix: draw normalized distances without a progress bar
 from the normalized density

---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..648ed9f 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -369,7 +369,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From 6079d2fd41bfb0948b5910aa547ecc46a3a20a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 08/44] fix: normalize populations whose normalization is left
 at its default

---
 popsynth/distribution.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 648ed9f..7acd584 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -45,6 +45,16 @@ class Distribution(
         self._parameter_storage: Dict[str, float] = {}
         self._normalization_parameter: Optional[str] = None
 
+        # find the normalization, also if it is never set
+
+        for cls in type(self).__mro__:
+
+            for k, v in cls.__dict__.items():
+
+                if isinstance(v, Parameter) and v.is_normalization:
+
+                    self._normalization_parameter = k
+
         self._seed = seed  # type: int
         self._name = name  # type: str
         self._form = form  # type: str
@@ -54,7 +64,7 @@ class Distribution(
     @property
     def normalization_parameter(self) -> Optional[float]:
 
-        return self._parameter_storage[self._normalization_parameter]
+        return getattr(self, self._normalization_parameter)
 
     @normalization_parameter.setter
     def normalization_parameter(self, value):
-- 
2.43.0


From d6c010eefd6deeb68f2d865d4fdc5dbf4e07356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 09/44] fix: record spatial parameters left at their default in
 the truth

---
 popsynth/population_synth.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..18a2e01 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -961,11 +961,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
-        # store the spatial distributVion truths
-        truth[
-            self._spatial_distribution.name
-        ] = self._spatial_distribution.truth
-
         # set the random seed
 
         np.random.seed(self._seed)
@@ -1037,6 +1032,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         self._spatial_distribution.draw_distance(size=n, normalize=normalize)
 
+        # store the spatial distribution truths
+
+        truth[
+            self._spatial_distribution.name
+        ] = self._spatial_distribution.truth
+
         # set the draw probability
 
         probability *= self._spatial_distribution.probability
-- 
2.43.0


From 3913d199cbc47b0df851760b9485a5541df40399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 10/44] fix: build the graph only from what is attached now

---
 popsynth/population_synth.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 18a2e01..cd41b4e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1504,6 +1504,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start over, what is attached may have changed
+
+        self._graph = nx.DiGraph()
+
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
-- 
2.43.0


From 4ae4c7559a1d0887a5abe8cf546062d1a5eb07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 11/44] fix: populations keep their own copy of parameters and
 model spaces

---
 popsynth/population_synth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index cd41b4e..5aad083 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1371,7 +1371,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         lf_form = None
         if self._luminosity_distribution is not None:
 
-            lf_params = self._luminosity_distribution.params
+            lf_params = dict(self._luminosity_distribution.params)
             lf_form = self._luminosity_distribution.form
 
         # if distance_probability is None:
@@ -1390,8 +1390,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
             r_max=self._spatial_distribution.r_max,
             n_model=self._n_model,
             lf_params=lf_params,
-            spatial_params=self._spatial_distribution.params,
-            model_spaces=self._model_spaces,
+            spatial_params=dict(self._spatial_distribution.params),
+            model_spaces=dict(self._model_spaces),
             seed=self._seed,
             name=self._name,
             spatial_form=self._spatial_distribution.form,
-- 
2.43.0


From 42e8ba1e81f31166f1800a012c46575042a092eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 12/44] fix: graph edges of samplers that use the distance

---
 popsynth/auxiliary_sampler.py |  2 +-
 popsynth/population_synth.py  | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..c12735e 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -483,7 +483,7 @@ class AuxiliarySampler(
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 5aad083..f304ee4 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1537,6 +1537,15 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(k2)
                 self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
+                if v2.uses_distance:
+
+                    self._graph.add_edge(self._spatial_distribution.name, k2)
+
+                if v2.observed:
+
+                    self._graph.add_node(v2.obs_name, observed=True)
+                    self._graph.add_edge(k2, v2.obs_name)
+
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
@@ -1561,9 +1570,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(v.obs_name, observed=False)
                 self._graph.add_edge(k, v.obs_name)
 
-                if v.uses_distance:
+            if v.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+                self._graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
-- 
2.43.0


From 541901705b7a55e0e38b45c894ee5c9e5bb1a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 13/44] fix: deeper secondary samplers receive luminosities and
 record their truth

---
 popsynth/auxiliary_sampler.py | 35 +++++++++++++++++++++++++++++++++++
 popsynth/population_synth.py  |  6 ++++++
 2 files changed, 41 insertions(+)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c12735e..c18d07a 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -253,6 +253,41 @@ class AuxiliarySampler(
 
         self._luminosity = luminosity  # type:ArrayLike
 
+    def set_secondary_luminosity(self, luminosity: ArrayLike) -> None:
+        """
+        Set the luminosity values of all secondary samplers
+        that use them.
+
+        :param luminosity: Luminosity
+        :type luminosity: ArrayLike
+        """
+
+        for k, v in self._secondary_samplers.items():
+
+            if v.uses_luminosity:
+
+                v.set_luminosity(luminosity)
+
+            v.set_secondary_luminosity(luminosity)
+
+    def get_secondary_truths(self) -> Dict[str, Dict[str, float]]:
+        """
+        Get the true parameters of all secondary samplers
+
+        :returns: Dict of truths
+        :rtype: Dict[str, Dict[str, float]]
+        """
+
+        out = {}
+
+        for k, v in self._secondary_samplers.items():
+
+            out[v.name] = v.truth
+
+            out.update(v.get_secondary_truths())
+
+        return out
+
     def set_spatial_values(self, value: SpatialContainer) -> None:
         """
         Set the spatial values.
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f304ee4..349f927 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1159,6 +1159,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 truth[v2.name] = v2.truth
 
+                truth.update(v2.get_secondary_truths())
+
         else:
 
             luminosities = self.luminosity_distribution.draw_luminosity(
@@ -1204,6 +1206,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     v2.set_luminosity(luminosities)
 
+                v2.set_secondary_luminosity(luminosities)
+
                 if v2.uses_distance:
 
                     v2.set_spatial_values(
@@ -1233,6 +1237,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 truth[v2.name] = v2.truth
 
+                truth.update(v2.get_secondary_truths())
+
         # pbar.update()
 
         # now draw all the observed fluxes
-- 
2.43.0


From 064af58a47030984bbb08892bf36d83a65ecff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 14/44] fix: drawing a survey again resamples everything that
 is attached

---
 popsynth/population_synth.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 349f927..0bbc63d 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -961,6 +961,23 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
+        # forget anything that was sampled for an earlier survey
+
+        for v in self._auxiliary_observations.values():
+
+            v.reset()
+
+        if self._derived_luminosity_sampler is not None:
+
+            self._derived_luminosity_sampler.reset()
+
+        self._flux_selector.reset()
+        self._distance_selector.reset()
+
+        if self._spatial_selector is not None:
+
+            self._spatial_selector.reset()
+
         # set the random seed
 
         np.random.seed(self._seed)
-- 
2.43.0


From 0396ac7d5c100f2fd7183b958dcf2d3eb4d7fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 15/44] fix: give the distance selection the distances it
 selects on

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 0bbc63d..0f2319e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1369,6 +1369,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        self._distance_selector.set_distance(
+            distances[global_selection.selection]
+        )
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From 069618037696831a3b50d2e88e966168f0d11116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 16/44] fix: allow surveys in which no distance is known

---
 popsynth/population_synth.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 0f2319e..f20288b 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1385,9 +1385,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if global_selection.n_selected > 0:
 
-            log.info(
-                f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
-            )
+            if len(known_distances) > 0:
+
+                log.info(
+                    f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
+                )
 
         else:
 
-- 
2.43.0


From 5ea423ba2393f0390b7a5190a7fcd516729fa370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 17/44] fix: building a population synth from a dictionary
 leaves the dictionary alone

---
 popsynth/population_synth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f20288b..aab5f3e 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1,5 +1,6 @@
 from abc import ABCMeta
 from collections import OrderedDict
+from copy import deepcopy
 from typing import Any, Dict, Optional, Union
 
 import networkx as nx
@@ -345,6 +346,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :rtype: :class:`PopulationSynth`
         """
 
+        # do not alter what was passed
+
+        input = deepcopy(input)
+
         if "luminosity distribution" in input:
 
             # try:
-- 
2.43.0


From 9672b9dd1ca8fe61d1cfc76c7d82700e82d379bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 18/44] fix: store the type of the derived luminosity sampler

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index aab5f3e..7dc1a01 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -303,7 +303,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp[
+                "type"
+            ] = self._derived_luminosity_sampler._auxiliary_sampler_name
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From 6ade1359876e47e7951c6d3cb6de1776c7340c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 19/44] fix: is_rate is optional and may come first in a stored
 population synth

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 7dc1a01..d2a3625 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -394,7 +394,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         tmp = input["spatial distribution"]
 
-        sd_name = list(tmp.keys())[0]
+        sd_name = [k for k in tmp.keys() if k != "is_rate"][0]
 
         spatial_distribution: SpatialDistribution = distribution_registry[
             sd_name
@@ -414,7 +414,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(spatial_distribution, CosmologicalDistribution):
 
-            spatial_distribution._is_rate = tmp["is_rate"]
+            spatial_distribution._is_rate = bool(tmp.get("is_rate", True))
 
         seed: int = input["seed"]
 
-- 
2.43.0


From aa5865463a6ac8e17a819245fa6d8ee7684d4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 20/44] fix: restore inherited parameters of auxiliary
 selections

---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index d2a3625..26241f8 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -695,9 +695,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From 92f0fe5f6f4220fcb8a8e91091fcfb03cb40355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 21/44] fix: write auxiliary samplers to YAML in the order they
 are drawn

---
 popsynth/population_synth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 26241f8..8b7822a 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -197,6 +197,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 stream=f,
                 data=self.to_dict(),
                 default_flow_style=False,
+                sort_keys=False,
                 Dumper=yaml.SafeDumper,
             )
 
-- 
2.43.0


From d0a38d4162c5a6a837e631c510d2b7f47866a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 22/44] fix: write population synths with numpy parameter
 values to YAML

---
 popsynth/population_synth.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8b7822a..901c6e3 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -35,6 +35,17 @@ from popsynth.utils.registry import (
 log = setup_logger(__name__)
 
 
+class _PopSynthDumper(yaml.SafeDumper):
+    """
+    A safe dumper that writes numpy scalars as plain numbers
+    """
+
+
+_PopSynthDumper.add_multi_representer(
+    np.generic, lambda dumper, data: dumper.represent_data(data.item())
+)
+
+
 class PopulationSynth(object, metaclass=ABCMeta):
     def __init__(
         self,
@@ -198,7 +209,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 data=self.to_dict(),
                 default_flow_style=False,
                 sort_keys=False,
-                Dumper=yaml.SafeDumper,
+                Dumper=_PopSynthDumper,
             )
 
     def to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From 85d6f4f69eb1fb3bf1137c33d6f92a41b42a1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 23/44] fix: keep the order of auxiliary samplers in saved
 populations

---
 popsynth/utils/hdf5_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 828f8c2..68380fb 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -13,6 +13,11 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     :param dic: Dictionary to save
     :type dic: Dict[Any, Any]
     """
+    if len(dic) > 0 and path not in h5file:
+
+        # remember the order of the entries
+        h5file.create_group(path, track_order=True)
+
     for key, item in dic.items():
 
         if isinstance(item, list):
-- 
2.43.0


From a01779e7a045a6b719d6abfaa6dbd11da68f1fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 24/44] fix: broken power law densities are normalized over any
 range

---
 popsynth/distributions/bpl_distribution.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..e7c3975 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -1,5 +1,4 @@
 import numpy as np
-import scipy.integrate as integrate
 import scipy.stats as stats
 
 from popsynth.distribution import DistributionParameter, LuminosityDistribution
@@ -46,15 +45,9 @@ class BPLDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        f = lambda ll: bpl(
-            ll, self.Lmin, self.Lbreak, self.Lmax, self.alpha, self.beta
-        )
-
-        integrand = integrate.quad(f, self.Lmin, self.Lmax)[0]
-
-        # normalize
+        # this is already normalized analytically
 
-        return f(L) / integrand
+        return bpl(L, self.Lmin, self.Lbreak, self.Lmax, self.alpha, self.beta)
 
     def draw_luminosity(self, size=1):
 
-- 
2.43.0


From 59c3e65c84a700e4acb6eef143f2b2f0b70cf06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 25/44] fix: broken power laws with an index of -1

---
 popsynth/distributions/bpl_distribution.py | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index e7c3975..1a4740d 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -58,6 +58,34 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _integrate_piece(xa, xb, a):
+    """
+    Integrate x^a between bounds.
+    """
+
+    if a == -1:
+
+        return np.log(xb / xa)
+
+    return (np.power(xb, a + 1.0) - np.power(xa, a + 1.0)) / (a + 1)
+
+
+def _sample_piece(u, xa, xb, a):
+    """
+    Inverse transform sample x^a between bounds.
+    """
+
+    if a == -1:
+
+        return xa * np.power(xb / xa, u)
+
+    return np.power(
+        u * (np.power(xb, a + 1.0) - np.power(xa, a + 1.0))
+        + np.power(xa, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -70,12 +98,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _integrate_piece(x0, x1, a1)
+    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -148,17 +172,9 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_piece(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+    out[~idx] = _sample_piece(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From 88981e1779a557f2a656ee7d0b9cc7fe2be0a054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 26/44] fix: evaluate pareto and broken power law densities of
 integers and scalars

---
 popsynth/distributions/bpl_distribution.py    | 2 +-
 popsynth/distributions/pareto_distribution.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 1a4740d..a96516c 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -124,7 +124,7 @@ def bpl(x, x0, x1, x2, a1, a2):
     """
 
     # creatre a holder for the values
-    x = np.atleast_1d(x)
+    x = np.atleast_1d(np.asarray(x, dtype=float))
 
     out = np.zeros_like(x)
 
diff --git a/popsynth/distributions/pareto_distribution.py b/popsynth/distributions/pareto_distribution.py
index 762ee4d..8145981 100644
--- a/popsynth/distributions/pareto_distribution.py
+++ b/popsynth/distributions/pareto_distribution.py
@@ -32,6 +32,8 @@ class ParetoDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
+        L = np.asarray(L, dtype=float)
+
         out = np.zeros_like(L)
 
         idx = L >= self.Lmin
-- 
2.43.0


From 8b89a6d46a4ab46834302f90242731eb983c60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 27/44] fix: normalize the log10-normal density

---
 popsynth/distributions/log10_normal_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 845be51..638ed39 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,7 +32,7 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
+        return (1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))) * np.exp(
             -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
-- 
2.43.0


From 7494d3ba23d5bc690ed3c35831ac36d95d07b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 28/44] fix: the log-uniform density vanishes outside of its
 bounds

---
 popsynth/distributions/uniform_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/distributions/uniform_distribution.py b/popsynth/distributions/uniform_distribution.py
index c986264..5bd4ccb 100644
--- a/popsynth/distributions/uniform_distribution.py
+++ b/popsynth/distributions/uniform_distribution.py
@@ -41,7 +41,9 @@ class LogUniLuminiosityDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return 1.0 / (L * np.log(self.Lmax / self.Lmin))
+        inside = (L >= self.Lmin) & (L <= self.Lmax)
+
+        return inside / (L * np.log(self.Lmax / self.Lmin))
 
     def draw_luminosity(self, size=1):
 
-- 
2.43.0


From 45ede7eae86324a19636f4c01744f2ba372c4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 29/44] fix: lower bound of the truncated log10-normal sampler

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From e45206783035d780282309791ba9269c90eb8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 30/44] fix: the broken power law sampler has its documented
 sigma

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..e4eca71 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -109,6 +109,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From 4798fc9f9004b157821e8e3ac79b4a1a0d83a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 31/44] fix: compiled power law sampling follows the seed

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index e4eca71..a04e1f5 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -84,8 +84,12 @@ class PowerLawAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
+        # the random state of compiled code is not seeded
+
+        u = np.random.uniform(size=size)
+
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, size
+            self.xmin, self.xmax, self.alpha, u
         )
 
     def observation_sampler(self, size: int):
@@ -158,13 +162,13 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 
 
 @nb.njit(fastmath=True)
-def _sample_power_law(xmin, xmax, alpha, size):
+def _sample_power_law(xmin, xmax, alpha, us):
 
-    out = np.empty(size)
+    out = np.empty(len(us))
 
-    for i in range(size):
+    for i in range(len(us)):
 
-        u = np.random.uniform(0, 1)
+        u = us[i]
 
         if alpha != -1.0:
 
-- 
2.43.0


From 3050f273cd50ac2b1d89e2f72171f086dd90de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 32/44] fix: power laws with negative integer indices

---
 popsynth/aux_samplers/plaw_aux_sampler.py  | 2 +-
 popsynth/distributions/bpl_distribution.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index a04e1f5..e5fb03b 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -89,7 +89,7 @@ class PowerLawAuxSampler(AuxiliarySampler):
         u = np.random.uniform(size=size)
 
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, u
+            float(self.xmin), float(self.xmax), float(self.alpha), u
         )
 
     def observation_sampler(self, size: int):
diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index a96516c..55cd513 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -99,7 +99,7 @@ def integrate_pl(x0, x1, x2, a1, a2):
 
     # compute the integral of each piece analytically
     int_1 = _integrate_piece(x0, x1, a1)
-    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
+    int_2 = np.power(float(x1), a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -142,7 +142,7 @@ def bpl(x, x0, x1, x2, a1, a2):
 
     idx = (x >= x1) & (x < x2)
 
-    out[idx] = np.power(x[idx], a2) * np.power(x1, a1 - a2)
+    out[idx] = np.power(x[idx], a2) * np.power(float(x1), a1 - a2)
 
     return out * norm
 
-- 
2.43.0


From 005edaa78e97ff7a7a1e852bb7370fa145f3409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 33/44] fix: sample the declination and not the polar angle

---
 popsynth/aux_samplers/sky_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/sky_sampler.py b/popsynth/aux_samplers/sky_sampler.py
index dad7a11..71970ea 100644
--- a/popsynth/aux_samplers/sky_sampler.py
+++ b/popsynth/aux_samplers/sky_sampler.py
@@ -78,6 +78,6 @@ class DecSampler(NonObservedAuxSampler):
 
     def true_sampler(self, size):
 
-        self._true_values = np.arccos(
+        self._true_values = np.pi / 2 - np.arccos(
             1 - 2 * np.random.uniform(0.0, 1.0, size=size)
         )
-- 
2.43.0


From 29f1d91612cd1c33bea54b5aec6af1b62166dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 34/44] fix: polar and longitudinal angles of spiral galaxies

---
 popsynth/distributions/spiral_galaxy_distribution.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index bf0697c..15c82d0 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -46,7 +46,7 @@ class SpiralGalaxyDistribution(SphericalDistribution):
         super(SpiralGalaxyDistribution, self).__init__(
             seed=seed,
             name=name,
-            form=form,
+            form=spatial_form if form is None else form,
         )
 
     def dNdV(self, r):
@@ -98,8 +98,11 @@ class SpiralGalaxyDistribution(SphericalDistribution):
             0, scale=0.07 * np.abs(self._distances), size=size
         )
 
-        phi = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
+        # the polar angle is measured from the pole and the
+        # arms wind in the longitudinal angle
 
-        self._theta = spiraltheta
+        self._theta = np.arccos(
+            zpos / np.sqrt(self._distances ** 2 + zpos ** 2)
+        )
 
-        self._phi = phi
+        self._phi = np.mod(spiraltheta, 2 * np.pi)
-- 
2.43.0


From 4b948fa4ca98dc49c64574fa7995f85b31b06c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 35/44] fix: display true fluxes as latent fluxes and arrows
 from true to observed

---
 popsynth/population.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 5867935..fea5383 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -993,7 +993,7 @@ class Population(object):
 
         ax.scatter(
             self._distances,
-            self._fluxes,
+            self._fluxes.latent,
             alpha=0.5,
             color=flux_color,
             edgecolors="none",
@@ -1006,16 +1006,12 @@ class Population(object):
         # ax.set_xscale('log')
         ax.set_yscale("log")
 
-        try:
+        if self._n_objects > 0:
 
             ax.set_ylim(
-                bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+                bottom=min([self._fluxes.min(), self._fluxes.latent.min()])
             )
 
-        except ValueError:
-
-            ax.set_ylim(bottom=self._fluxes.min())
-
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
         return fig
@@ -1105,7 +1101,7 @@ class Population(object):
 
         if (with_arrows) and (not self._no_detection):
             for start, stop, z in zip(
-                self._fluxes[self._selection],
+                self._fluxes.selected.latent,
                 self._fluxes.selected,
                 self._distances.selected,
             ):
-- 
2.43.0


From 1222ab0fca3aa5805f5dfc32eb3bdc0e01a93389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 36/44] fix: re-activating logs restores the levels from before
 they were silenced

---
 popsynth/utils/logging.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..bd2f5db 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -121,6 +121,8 @@ class LoggingState(object):
 
         # store their current states
 
+        self._is_stored = False
+
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
             popsynth_console_log_handler.level
@@ -128,6 +130,14 @@ class LoggingState(object):
 
     def _store_state(self):
 
+        # do not overwrite the levels that must be restored
+
+        if self._is_stored:
+
+            return
+
+        self._is_stored = True
+
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
             popsynth_console_log_handler.level
@@ -135,6 +145,12 @@ class LoggingState(object):
 
     def restore_last_state(self):
 
+        if not self._is_stored:
+
+            return
+
+        self._is_stored = False
+
         self.popsynth_usr_log_handler.setLevel(
             self.popsynth_usr_log_handler_state
         )
-- 
2.43.0


From 47c1d9242d4376a3604783fd619837ec75496c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 37/44] fix: save populations with names that are not ASCII

---
 popsynth/population.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fea5383..870c58f 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -30,6 +30,13 @@ wine = "#8F2727"
 dark, dark_highlight, mid, mid_highlight, light, light_highlight = betagen(wine)
 
 
+def _save_string(value):
+
+    # text may be anything, not only ASCII
+
+    return np.string_(str(value).encode())
+
+
 def _load_string(value):
     """
     Recover the text from an HDF5 string attribute
@@ -613,18 +620,18 @@ class Population(object):
 
             if self._lf_form is not None:
 
-                f.attrs["lf_form"] = np.string_(self._lf_form)
+                f.attrs["lf_form"] = _save_string(self._lf_form)
 
             f.attrs["has_lf"] = True
 
         else:
             f.attrs["has_lf"] = False
 
-        f.attrs["name"] = np.string_(self._name)
+        f.attrs["name"] = _save_string(self._name)
 
         if self._spatial_form is not None:
 
-            f.attrs["spatial_form"] = np.string_(self._spatial_form)
+            f.attrs["spatial_form"] = _save_string(self._spatial_form)
 
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
-- 
2.43.0


From 84de7eda8f3788c0d6448c97e453e79b025a4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 38/44] fix: save any numpy scalar, so that reloaded
 populations can be saved again

---
 popsynth/utils/hdf5_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 68380fb..5c70b29 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -51,7 +51,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
                 raise ValueError("Cannot save %s type" % type(item))
 
         if isinstance(
-            item, (np.ndarray, np.int64, np.float64, str, bytes, float, int)
+            item, (np.ndarray, np.generic, str, bytes, float, int)
         ):
 
             h5file[path + "/" + key] = item
-- 
2.43.0


From 09975707a4d235d0c7b6e0bb29643e4949c74527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:25 +0000
Subject: [PATCH 39/44] fix: keep what an auxiliary selection is made on when a
 synthesizer is written

---
 popsynth/auxiliary_sampler.py                 |  5 +++-
 popsynth/population_synth.py                  | 23 ++++++++++++++++---
 .../selection_probability.py                  | 13 +++++++++++
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c18d07a..812e1ce 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -576,7 +576,10 @@ class AuxiliarySampler(
         tmp["secondary"] = list(self.secondary_samplers.keys())
 
         selection = {}
-        selection[self.selector._selection_name] = self.selector.parameters
+        selection[self.selector._selection_name] = {
+            **self.selector.parameters,
+            **self.selector.used_values,
+        }
 
         tmp["selection"] = selection
 
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 901c6e3..3b2146c 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -301,7 +301,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
             tmp["secondary"] = list(v.secondary_samplers.keys())
 
             selection = {}
-            selection[v.selector._selection_name] = v.selector.parameters
+            selection[v.selector._selection_name] = {
+                **v.selector.parameters,
+                **v.selector.used_values,
+            }
 
             tmp["selection"] = selection
 
@@ -331,7 +334,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
             selection = {}
             selection[
                 self._derived_luminosity_sampler.selector._selection_name
-            ] = self._derived_luminosity_sampler.selector.parameters
+            ] = {
+                **self._derived_luminosity_sampler.selector.parameters,
+                **self._derived_luminosity_sampler.selector.used_values,
+            }
 
             tmp["selection"] = selection
 
@@ -715,7 +721,18 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                                 break
 
-                    selector._use_obs_value = True
+                    # the selection is on the observed value
+                    # unless it is said to be on something else
+
+                    for k in ["use_obs_value", "use_distance", "use_luminosity"]:
+
+                        if params.get(k, False):
+
+                            setattr(selector, f"_{k}", True)
+
+                    if not selector.used_values:
+
+                        selector._use_obs_value = True
 
                     tmp.set_selection_probability(selector)
 
diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index b9522e0..6033fa6 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -145,6 +145,19 @@ class SelectionProbability(
 
         return out
 
+    @property
+    def used_values(self) -> Dict[str, bool]:
+        """
+        What the selection is made on, if that is not
+        only the observed value
+        """
+
+        flags = ["use_obs_value", "use_distance", "use_luminosity", "use_flux"]
+
+        out = {k: True for k in flags if getattr(self, f"_{k}")}
+
+        return {} if list(out) == ["use_obs_value"] else out
+
     @property
     def selection(self) -> np.ndarray:
         if self._selection is not None:
-- 
2.43.0


From 50bbb2dec1200e8ceaa6925e35d4ccac87a92766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 40/44] fix: in-place operations on subsets of simulated
 variables keep latent values in step

---
 popsynth/simulated_variable.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 59ecc17..ebc34f9 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -126,7 +126,29 @@ class SimulatedVariable(np.ndarray):
 
         selection = self._selection.__getitem__(item)
 
-        return SimulatedVariable(obs, latent, selection)
+        # a subset has its own storage, so that operating on
+        # it in place does not change only our observed values
+
+        return SimulatedVariable(obs.copy(), latent, selection)
+
+    def __setitem__(self, item, value):
+
+        if isinstance(value, SimulatedVariable):
+
+            # this also completes in-place operations on subsets
+            # as the latent values must follow the observed ones
+
+            latent = self._latent_values.copy()
+
+            latent[item] = value._latent_values
+
+            self.view(np.ndarray)[item] = value.view(np.ndarray)
+
+            self._latent_values = latent
+
+        else:
+
+            self.view(np.ndarray)[item] = value
 
     def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
         args = []
-- 
2.43.0


From fcc9e29523349f486101a1708f8da68d5609b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 41/44] fix: latent values of masked operations keep their own
 elements

---
 popsynth/simulated_variable.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index ebc34f9..b5c4203 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -195,7 +195,13 @@ class SimulatedVariable(np.ndarray):
         if "out" in kwargs:
 
             latent_kwargs["out"] = tuple(
-                None if x is None else np.array(x) for x in kwargs["out"]
+                np.array(
+                    x._latent_values,
+                    dtype=np.result_type(x.dtype, x._latent_values.dtype),
+                )
+                if isinstance(x, SimulatedVariable)
+                else (None if x is None else np.array(x))
+                for x in outputs
             )
 
         if method == "at" and isinstance(inputs[0], SimulatedVariable):
-- 
2.43.0


From 253c943eecb0a41ffa66f07dfaac880cb07b1083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 42/44] fix: simulated variables own the storage of their
 observed values

---
 popsynth/simulated_variable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index b5c4203..3586686 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -35,7 +35,11 @@ class SimulatedVariable(np.ndarray):
         # Input array is an already formed ndarray instance
         # We first cast to be our class type
 
-        obj = np.asarray(observed_values).view(cls)
+        # with storage of its own, as the values may be shared with
+        # the latent values or other variables and must not follow
+        # when this one is changed in place
+
+        obj = np.array(observed_values).view(cls)
 
         if len(selection) != len(observed_values):
 
@@ -126,10 +130,10 @@ class SimulatedVariable(np.ndarray):
 
         selection = self._selection.__getitem__(item)
 
-        # a subset has its own storage, so that operating on
-        # it in place does not change only our observed values
+        # note that a subset has its own storage, so that operating
+        # on it in place does not change only our observed values
 
-        return SimulatedVariable(obs.copy(), latent, selection)
+        return SimulatedVariable(obs, latent, selection)
 
     def __setitem__(self, item, value):
 
-- 
2.43.0


From c9512083bcfce9b13d4b6a2a829005b1fd50ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 43/44] fix: logs silenced after loud or debug mode come back
 at its levels

---
 popsynth/utils/logging.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index bd2f5db..71d9490 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -122,6 +122,7 @@ class LoggingState(object):
         # store their current states
 
         self._is_stored = False
+        self._is_silent = False
 
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
@@ -150,6 +151,7 @@ class LoggingState(object):
             return
 
         self._is_stored = False
+        self._is_silent = False
 
         self.popsynth_usr_log_handler.setLevel(
             self.popsynth_usr_log_handler_state
@@ -160,9 +162,18 @@ class LoggingState(object):
 
     def silence_logs(self):
 
+        # the levels in force now are the ones to come back to, unless
+        # the logs are silent already
+
+        if not self._is_silent:
+
+            self._is_stored = False
+
         # store the state
         self._store_state()
 
+        self._is_silent = True
+
         # silence the logs
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
         self.popsynth_console_log_handler.setLevel(logging.CRITICAL)
@@ -172,6 +183,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._is_silent = False
+
         # silence the logs
 
         self.popsynth_usr_log_handler.setLevel(logging.INFO)
-- 
2.43.0


From 8852770fb82a7b760e350904c6fe0559733c9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 44/44] fix: nothing is logged to stderr when all log outputs
 are off

---
 popsynth/utils/logging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 71d9490..dd69166 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -335,6 +335,9 @@ def setup_logger(name):
     if popsynth_config["logging"]["file"]["on"]:
         log.addHandler(popsynth_usr_log_handler)
 
+    # without any output, python would write to stderr on its own
+    log.addHandler(logging.NullHandler())
+
     # we do not want to duplicate teh messages in the parents
     log.propagate = False
 
-- 
2.43.0


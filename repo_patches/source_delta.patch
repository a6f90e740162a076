From e4146ab66a888ecbb5da34bf5a9834901eed2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 01/73] fix: write the probability of a population under the
 name it is read back from

---
 popsynth/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..fcc3860 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
-- 
2.43.0


From 0c44fec7b1d94f78660b961d71af8abc11a5cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 02/73] fix: decode the name and forms of a population read
 from HDF5

---
 popsynth/population.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fcc3860..a2b2ce2 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -723,7 +723,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = _decode(f.attrs.get("lf_form"))
 
             else:
 
@@ -739,9 +739,9 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
+        name = _decode(f.attrs["name"])
 
-        spatial_form = str(f.attrs["spatial_form"])
+        spatial_form = _decode(f.attrs.get("spatial_form"))
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
@@ -1339,6 +1339,15 @@ class Population(object):
         # sns.despine(offset=5, trim=True);
 
 
+def _decode(value):
+    """
+    The text stored in an HDF5 attribute. h5py returns bytes for the
+    fixed-length strings we write.
+    """
+
+    return value.decode() if isinstance(value, bytes) else value
+
+
 def _create_sphere_variables(R, distance, theta, phi):
     x, y, z = xyz(distance, theta, phi)
 
-- 
2.43.0


From 36918bfeb46d56f172d5c20a2a3f0ad11cb375df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 03/73] fix: a population without a LaTeX form does not gain
 the text None on disk

---
 popsynth/population.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index a2b2ce2..6e0853a 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -599,7 +599,9 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+
+                f.attrs["lf_form"] = np.string_(self._lf_form)
 
             f.attrs["has_lf"] = True
 
@@ -607,7 +609,11 @@ class Population(object):
             f.attrs["has_lf"] = False
 
         f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
+        if self._spatial_form is not None:
+
+            f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
-- 
2.43.0


From db4aea32868e0a2507ea07f518e1bb00c3b1f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 04/73] fix: keep the directions of the graph read from HDF5

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 6e0853a..151852e 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -798,7 +798,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From 38a1b3e8bbc7ed8f88db0b98f74dee13a1f35949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 05/73] fix: save any numpy scalar, so that a reloaded
 population can be written again

---
 popsynth/utils/hdf5_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 828f8c2..9ba756d 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -46,7 +46,7 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
                 raise ValueError("Cannot save %s type" % type(item))
 
         if isinstance(
-            item, (np.ndarray, np.int64, np.float64, str, bytes, float, int)
+            item, (np.ndarray, np.generic, str, bytes, float, int)
         ):
 
             h5file[path + "/" + key] = item
-- 
2.43.0


From 6be6658b3ae28c2eb41171fda057f289d873bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 06/73] fix: keep the order of the entries of dictionaries
 saved to HDF5

---
 popsynth/utils/hdf5_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 9ba756d..1edcbae 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -57,6 +57,12 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
 
                 h5file[path + "/" + key] = "FILL_VALUE"
 
+            else:
+
+                # the order of the entries matters, e.g.,
+                # samplers are drawn in the order they were added
+                h5file.create_group(path + "/" + key, track_order=True)
+
             recursively_save_dict_contents_to_group(
                 h5file, path + "/" + key + "/", item
             )
-- 
2.43.0


From 99ef0a676611fd9116a6003754ed012b9fe54b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 07/73] fix: keep the order in which samplers were added in the
 YAML file

---
 popsynth/population_synth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..ccb2e71 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -196,6 +196,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 stream=f,
                 data=self.to_dict(),
                 default_flow_style=False,
+                sort_keys=False,
                 Dumper=yaml.SafeDumper,
             )
 
-- 
2.43.0


From 03e3710aeab3a79c50b7a3c3462f40a4275827b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 08/73] fix: write parameters that are numpy scalars to YAML

---
 popsynth/population_synth.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index ccb2e71..2d92408 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -34,6 +34,17 @@ from popsynth.utils.registry import (
 log = setup_logger(__name__)
 
 
+class _SafeDumper(yaml.SafeDumper):
+    """
+    A safe dumper that writes numpy scalars as plain numbers
+    """
+
+
+_SafeDumper.add_multi_representer(
+    np.generic, lambda dumper, value: dumper.represent_data(value.item())
+)
+
+
 class PopulationSynth(object, metaclass=ABCMeta):
     def __init__(
         self,
@@ -197,7 +208,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 data=self.to_dict(),
                 default_flow_style=False,
                 sort_keys=False,
-                Dumper=yaml.SafeDumper,
+                Dumper=_SafeDumper,
             )
 
     def to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From ae312879f0e0f28f50594fb5c836c60c3b8b3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 09/73] fix: a sub-population keeps the known distances of its
 objects

---
 popsynth/population.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 151852e..e425d9b 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -874,6 +874,12 @@ class Population(object):
 
             new_aux = None
 
+        # the known distances are indexed with respect to the
+        # selected objects of this population
+        known_idx = set(
+            np.where(self._selection)[0][self._known_distance_idx]
+        )
+
         itr = 0
         known_distances = []
         known_distance_idx = []
@@ -883,7 +889,7 @@ class Population(object):
 
             if s:
 
-                if i in self._known_distances:
+                if i in known_idx:
 
                     known_distances.append(self._distances[i])
                     known_distance_idx.append(itr)
@@ -905,9 +911,9 @@ class Population(object):
         return Population(
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
-            known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distances=np.array(known_distances, dtype=float),
+            known_distance_idx=np.array(known_distance_idx, dtype=int),
+            unknown_distance_idx=np.array(unknown_distance_idx, dtype=int),
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
             selection=np.ones(sum(selection), dtype=bool),
-- 
2.43.0


From 788a3869b79e977abd13d329970e607d2e5384e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 10/73] fix: a sub-population remembers the population synth,
 so that it can be saved

---
 popsynth/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population.py b/popsynth/population.py
index e425d9b..cf90672 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -932,6 +932,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From 32a7942ee6c81a453931785f6a0645edadc6ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 11/73] fix: the selection of the selected values of a
 simulated variable is boolean

---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..81e0e12 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones_like(selected, dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros_like(non_selected, dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From 909ac2084246401565d9a4bd62f20499b376ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 12/73] fix: in-place operations and out= keep the observed and
 latent values of a simulated variable apart

---
 popsynth/simulated_variable.py | 40 +++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 81e0e12..960d59e 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -146,45 +146,61 @@ class SimulatedVariable(np.ndarray):
 
         outputs = out
         out_no = []
+        latent_kwargs = dict(kwargs)
         if outputs:
             out_args = []
+            latent_out_args = []
             for j, output in enumerate(outputs):
                 if isinstance(output, SimulatedVariable):
                     out_no.append(j)
                     out_args.append(output.view(np.ndarray))
+                    # the latent values may share their memory with the
+                    # observed ones, so they get a place of their own
+                    latent_out_args.append(
+                        output._latent_values.view(np.ndarray).copy()
+                    )
                 else:
                     out_args.append(output)
+                    latent_out_args.append(
+                        None if output is None else output.copy()
+                    )
             kwargs['out'] = tuple(out_args)
+            latent_kwargs['out'] = tuple(latent_out_args)
         else:
             outputs = (None,) * ufunc.nout
 
+        if method == 'at' and isinstance(inputs[0], SimulatedVariable):
+
+            latent_args[0] = latent_args[0].copy()
+
         info = {}
         if in_no:
             info['inputs'] = in_no
         if out_no:
             info['outputs'] = out_no
 
-        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+        # the latent values come first as the observed
+        # results can overwrite the inputs
 
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
-        if results is NotImplemented:
-            return NotImplemented
-
-        if latent_results is NotImplemented:
-            return NotImplemented
+        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
 
         if method == 'at':
             if isinstance(inputs[0], SimulatedVariable):
 
-                print("oh shit")
+                inputs[0]._latent_values = latent_args[0]
 
-                pass
-            #                inputs[0].info = info
             return
 
+        if results is NotImplemented:
+            return NotImplemented
+
+        if latent_results is NotImplemented:
+            return NotImplemented
+
         if ufunc.nout == 1:
             results = (results,)
             latent_results = (latent_results,)
@@ -209,6 +225,10 @@ class SimulatedVariable(np.ndarray):
 
             else:
 
+                if isinstance(output, SimulatedVariable):
+
+                    output._latent_values = latent_result
+
                 out = output
 
             final_results.append(out)
-- 
2.43.0


From 0e6d09be83404e7037fa09d6c3430f4a064e6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 13/73] fix: reductions of a simulated variable along an axis,
 e.g., its standard deviation

---
 popsynth/simulated_variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 960d59e..ec76667 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -213,7 +213,11 @@ class SimulatedVariable(np.ndarray):
 
             if output is None:
 
-                if isinstance(result, np.ndarray):
+                # things like reductions no longer have one
+                # value per object
+                if isinstance(result, np.ndarray) and (
+                    len(result) == len(self._selection)
+                ):
 
                     out = SimulatedVariable(
                         result, latent_result, self._selection
-- 
2.43.0


From 623591206880fbac3145f6c8091d9891cad66892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 14/73] fix: normalized distances are drawn from the normalized
 density without a progress bar

---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..648ed9f 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -369,7 +369,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From 569ce2ee03e9a0cfc1b6afac477e98518735357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 15/73] fix: surveys in which no distance is known

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 2d92408..efb68a1 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1367,13 +1367,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         log.info(f"Detected {len(known_distances)} distances")
 
-        if global_selection.n_selected > 0:
+        if len(known_distances) > 0:
 
             log.info(
                 f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
             )
 
-        else:
+        elif global_selection.n_selected == 0:
 
             log.warning("No Objects detected")
 
-- 
2.43.0


From be99c2abe262c702af1eb5cd52a1d399c990d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 16/73] fix: give the distance selector the distances it
 selects on

---
 popsynth/population_synth.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index efb68a1..4a47291 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1357,6 +1357,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        self._distance_selector.set_distance(
+            distances[global_selection.selection]
+        )
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From bef25d14f5b5cde3dbca2ec413fa81e56506291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 17/73] fix: drawing a second survey does not reuse the draws
 of the first

---
 popsynth/population_synth.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 4a47291..d8c2220 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -970,6 +970,23 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :rtype: :class:`Population`
         """
 
+        # forget anything that was sampled for a previous survey
+
+        for k, v in self._auxiliary_observations.items():
+
+            v.reset()
+
+        if self._derived_luminosity_sampler is not None:
+
+            self._derived_luminosity_sampler.reset()
+
+        self._flux_selector.reset()
+        self._distance_selector.reset()
+
+        if self._spatial_selector is not None:
+
+            self._spatial_selector.reset()
+
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
-- 
2.43.0


From 3c60335f1a38ad3891528468387938b1b185945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 18/73] fix: nested secondary samplers that use the distance
 can be put in the graph

---
 popsynth/auxiliary_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..c12735e 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -483,7 +483,7 @@ class AuxiliarySampler(
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
-- 
2.43.0


From fc7d497ab0b0d4195a45e2eb060540f5142a4afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 19/73] fix: secondary samplers of secondary samplers receive
 the luminosity

---
 popsynth/auxiliary_sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c12735e..a442c57 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -363,6 +363,12 @@ class AuxiliarySampler(
 
                 v.set_spatial_values(self._spatial_values)
 
+                # there is no luminosity (yet) for a derived luminosity
+
+                if hasattr(self, "_luminosity"):
+
+                    v.set_luminosity(self._luminosity)
+
                 v.draw(size=size)
 
             # Now, it is assumed that if this sampler depends on the previous samplers,
-- 
2.43.0


From eecdd89c3042eba759bb9033eec46f7e9a07d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 20/73] fix: the truth of the spatial distribution includes the
 defaults it used

---
 popsynth/population_synth.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index d8c2220..d209430 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -990,11 +990,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
-        # store the spatial distributVion truths
-        truth[
-            self._spatial_distribution.name
-        ] = self._spatial_distribution.truth
-
         # set the random seed
 
         np.random.seed(self._seed)
@@ -1074,6 +1069,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         self._spatial_distribution.draw_sky_positions(size=n)
 
+        # store the spatial distribution truths, which are
+        # complete once the distribution has been sampled
+        truth[
+            self._spatial_distribution.name
+        ] = self._spatial_distribution.truth
+
         distances = self._spatial_distribution.distances  # type: np.ndarray
 
         log.info("Expecting %d total objects" % n)
-- 
2.43.0


From adfe5be1f11cd3d8d98a2cd1a247e1311088048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 21/73] fix: store the truths of secondary samplers at any
 depth

---
 popsynth/auxiliary_sampler.py | 19 +++++++++++++++++++
 popsynth/population_synth.py  |  4 ++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index a442c57..35afe03 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -509,6 +509,25 @@ class AuxiliarySampler(
 
         return recursive_secondaries
 
+    def get_secondary_truths(self) -> Dict[str, Dict[str, float]]:
+        """
+        Get the truths of this sampler and of all the
+        samplers it depends on, by their name.
+
+        :returns: Dict of truths
+        :rtype: Dict[str, Dict[str, float]]
+        """
+
+        truths: Dict[str, Dict[str, float]] = {}
+
+        for k, v in self._secondary_samplers.items():
+
+            truths.update(v.get_secondary_truths())
+
+        truths[self._name] = self.truth
+
+        return truths
+
     def get_secondary_objects(
         self,
         recursive_secondaries: Optional[Dict[str, Any]] = None,
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index d209430..8febb99 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1186,7 +1186,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 # this will _could_ be clobbered later
                 # but that is ok
 
-                truth[v2.name] = v2.truth
+                truth.update(v2.get_secondary_truths())
 
         else:
 
@@ -1260,7 +1260,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 # store the secondary truths
 
-                truth[v2.name] = v2.truth
+                truth.update(v2.get_secondary_truths())
 
         # pbar.update()
 
-- 
2.43.0


From 10d554a205a659e3b85fe6f2827fce975e3ee2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 22/73] fix: removed samplers do not stay in the graph

---
 popsynth/population_synth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8febb99..f6a11e2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1537,6 +1537,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start over, as samplers can have been removed
+
+        self._graph = nx.DiGraph()
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
-- 
2.43.0


From 6c98caa926d34350a62492fe0df60e24cbe0c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 23/73] fix: the graph of a population synth that has no
 luminosity yet

---
 popsynth/population_synth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f6a11e2..6cc0e72 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1577,7 +1577,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     spatial_distribution=self._spatial_distribution,
                 )
 
-        else:
+        elif self._luminosity_distribution is not None:
+
             self._graph.add_edge(self._luminosity_distribution.name, "obs_flux")
         # now do the same fro everything else
 
-- 
2.43.0


From 029fd0fdab8c0d90e8ac3893512f21676f13bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 24/73] fix: the graph has the distance edge of samplers that
 are not observed

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 6cc0e72..ff16c14 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1594,9 +1594,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(v.obs_name, observed=False)
                 self._graph.add_edge(k, v.obs_name)
 
-                if v.uses_distance:
+            if v.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+                self._graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
-- 
2.43.0


From 20de16336d5cd2e2c53e7e579ced2cee37bf47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 25/73] fix: the graph has the edges of the secondary samplers
 of a derived luminosity

---
 popsynth/population_synth.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index ff16c14..ac7101c 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1566,9 +1566,18 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 v2,
             ) in self._derived_luminosity_sampler.secondary_samplers.items():
 
-                self._graph.add_node(k2)
+                self._graph.add_node(k2, observed=False)
                 self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
+                if v2.uses_distance:
+
+                    self._graph.add_edge(self._spatial_distribution.name, k2)
+
+                if v2.observed:
+
+                    self._graph.add_node(v2.obs_name, observed=True)
+                    self._graph.add_edge(k2, v2.obs_name)
+
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
-- 
2.43.0


From f773b5846ec2ecc62f008d892fc6393de626d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 26/73] fix: a population keeps the parameters it was drawn
 with

---
 popsynth/population_synth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index ac7101c..447e87b 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1404,7 +1404,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         lf_form = None
         if self._luminosity_distribution is not None:
 
-            lf_params = self._luminosity_distribution.params
+            lf_params = dict(self._luminosity_distribution.params)
             lf_form = self._luminosity_distribution.form
 
         # if distance_probability is None:
@@ -1423,8 +1423,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
             r_max=self._spatial_distribution.r_max,
             n_model=self._n_model,
             lf_params=lf_params,
-            spatial_params=self._spatial_distribution.params,
-            model_spaces=self._model_spaces,
+            spatial_params=dict(self._spatial_distribution.params),
+            model_spaces=dict(self._model_spaces),
             seed=self._seed,
             name=self._name,
             spatial_form=self._spatial_distribution.form,
-- 
2.43.0


From 8aecfdf7f245c4dbb0e4e5b07a19f6763e61e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 27/73] fix: store the type of a derived luminosity sampler,
 not its name

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 447e87b..32f2ead 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -314,7 +314,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp[
+                "type"
+            ] = self._derived_luminosity_sampler._auxiliary_sampler_name
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From b0b06222381fad5bda0ca51580a9149db152cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 28/73] fix: building a population synth from a dictionary
 leaves the dictionary as it was

---
 popsynth/population_synth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 32f2ead..77cf908 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -564,6 +564,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
             for obj_name, v in input["auxiliary samplers"].items():
 
                 # first we extract the required info
+                # (from a copy: the input is not ours to empty)
+
+                v = dict(v)
 
                 sampler_name = v.pop("type")
                 is_observed = v.pop("observed")
-- 
2.43.0


From fc336ae01b4e785a9e6a267bf712ffcbf12c3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 29/73] fix: set the inherited parameters of the selection of
 an auxiliary sampler

---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 77cf908..aeb3031 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -705,9 +705,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From 828154e9a8786b7fb8ab0afcc3acd3a74aabffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 30/73] fix: is_rate is optional in the description of a
 cosmological distribution

---
 popsynth/population_synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index aeb3031..8bc69f3 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -421,7 +421,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(spatial_distribution, CosmologicalDistribution):
 
-            spatial_distribution._is_rate = tmp["is_rate"]
+            spatial_distribution._is_rate = tmp.get("is_rate", True)
 
         seed: int = input["seed"]
 
-- 
2.43.0


From a8154e53dd46c597be7403ea80690fc44cf3808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 31/73] fix: normalize the log10-normal luminosity function

---
 popsynth/distributions/log10_normal_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 845be51..638ed39 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,7 +32,7 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
+        return (1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))) * np.exp(
             -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
-- 
2.43.0


From 784c55761e9dacab2cab32c9c997de4b23a7f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 32/73] fix: luminosity functions of integer luminosities are
 not truncated to integers

---
 popsynth/distributions/bpl_distribution.py    | 2 +-
 popsynth/distributions/pareto_distribution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..06b9c12 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -109,7 +109,7 @@ def bpl(x, x0, x1, x2, a1, a2):
     # creatre a holder for the values
     x = np.atleast_1d(x)
 
-    out = np.zeros_like(x)
+    out = np.zeros_like(x, dtype=float)
 
     # get the total integral to compute the normalization
     _, _, C = integrate_pl(x0, x1, x2, a1, a2)
diff --git a/popsynth/distributions/pareto_distribution.py b/popsynth/distributions/pareto_distribution.py
index 762ee4d..1ffb57e 100644
--- a/popsynth/distributions/pareto_distribution.py
+++ b/popsynth/distributions/pareto_distribution.py
@@ -32,7 +32,7 @@ class ParetoDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        out = np.zeros_like(L)
+        out = np.zeros_like(L, dtype=float)
 
         idx = L >= self.Lmin
 
-- 
2.43.0


From 373f63271b40e81f0dac9f13886cd09b4b743b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 33/73] fix: the log-uniform luminosity function is zero
 outside its bounds

---
 popsynth/distributions/uniform_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/distributions/uniform_distribution.py b/popsynth/distributions/uniform_distribution.py
index c986264..5bd4ccb 100644
--- a/popsynth/distributions/uniform_distribution.py
+++ b/popsynth/distributions/uniform_distribution.py
@@ -41,7 +41,9 @@ class LogUniLuminiosityDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return 1.0 / (L * np.log(self.Lmax / self.Lmin))
+        inside = (L >= self.Lmin) & (L <= self.Lmax)
+
+        return inside / (L * np.log(self.Lmax / self.Lmin))
 
     def draw_luminosity(self, size=1):
 
-- 
2.43.0


From 3f96a3db5a0b1cc2d2995ed1fb3a9fe1ad189d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 34/73] fix: broken power laws with an index of -1

---
 popsynth/distributions/bpl_distribution.py | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 06b9c12..5e2d093 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -65,6 +65,34 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _integrate_piece(x0, x1, a):
+    """
+    Integrate x^a between x0 and x1
+    """
+
+    if a == -1:
+
+        return np.log(x1 / x0)
+
+    return (np.power(x1, a + 1.0) - np.power(x0, a + 1.0)) / (a + 1)
+
+
+def _sample_piece(u, x0, x1, a):
+    """
+    Inverse transform sample x^a between x0 and x1
+    """
+
+    if a == -1:
+
+        return x0 * np.power(x1 / x0, u)
+
+    return np.power(
+        u * (np.power(x1, a + 1.0) - np.power(x0, a + 1.0))
+        + np.power(x0, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -77,12 +105,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _integrate_piece(x0, x1, a1)
+    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -155,17 +179,9 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_piece(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+    out[~idx] = _sample_piece(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From 81863dc22aae0b921218f7f4949d0992512af7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 35/73] fix: broken power laws with integer indices and break

---
 popsynth/distributions/bpl_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 5e2d093..100d0e0 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -106,7 +106,7 @@ def integrate_pl(x0, x1, x2, a1, a2):
 
     # compute the integral of each piece analytically
     int_1 = _integrate_piece(x0, x1, a1)
-    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
+    int_2 = np.power(float(x1), a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -149,7 +149,7 @@ def bpl(x, x0, x1, x2, a1, a2):
 
     idx = (x >= x1) & (x < x2)
 
-    out[idx] = np.power(x[idx], a2) * np.power(x1, a1 - a2)
+    out[idx] = np.power(x[idx], a2) * np.power(float(x1), a1 - a2)
 
     return out * norm
 
-- 
2.43.0


From ec05b90ed57cf3d3933fc237d5bdbbd1266b4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 36/73] fix: the power law sampler follows the seed of the
 population synth

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..6f3f592 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -84,8 +84,13 @@ class PowerLawAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
+        # draw outside of the compiled code: numba has
+        # a generator of its own that our seed does not reach
+
+        u = np.random.uniform(0, 1, size=size)
+
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, size
+            self.xmin, self.xmax, self.alpha, u
         )
 
     def observation_sampler(self, size: int):
@@ -157,25 +162,23 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 
 
 @nb.njit(fastmath=True)
-def _sample_power_law(xmin, xmax, alpha, size):
-
-    out = np.empty(size)
+def _sample_power_law(xmin, xmax, alpha, u):
 
-    for i in range(size):
+    out = np.empty_like(u)
 
-        u = np.random.uniform(0, 1)
+    for i in range(len(u)):
 
         if alpha != -1.0:
 
             x = np.power(
-                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u
+                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u[i]
                 + np.power(xmin, alpha + 1),
                 1.0 / (alpha + 1.0),
             )
 
         else:
 
-            x = xmin * np.exp(u / (1.0 / np.log(xmax / xmin)))
+            x = xmin * np.exp(u[i] / (1.0 / np.log(xmax / xmin)))
 
         out[i] = x
 
-- 
2.43.0


From df64daabecbdfd4088c417b06165c7380fc06605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 37/73] fix: the power law sampler accepts integer parameters

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6f3f592..53a7bd1 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -90,7 +90,7 @@ class PowerLawAuxSampler(AuxiliarySampler):
         u = np.random.uniform(0, 1, size=size)
 
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, u
+            float(self.xmin), float(self.xmax), float(self.alpha), u
         )
 
     def observation_sampler(self, size: int):
-- 
2.43.0


From 974420eaaee6fca96eda643e1936e82b7c7823dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 38/73] fix: the broken power law sampler has the sigma its
 observations use

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 53a7bd1..eaf8bfa 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -114,6 +114,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From fad1e5b801fefb6f7d082b9da6054e7524d273a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 39/73] fix: the lower bound of the truncated log10-normal
 sampler

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From 0d6fd5a9b41af71af16265ad255cf2fc481a354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 40/73] fix: the sky positions of the spiral galaxy are valid
 angles

---
 popsynth/distributions/spiral_galaxy_distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index bf0697c..0b0b220 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -100,6 +100,8 @@ class SpiralGalaxyDistribution(SphericalDistribution):
 
         phi = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
 
-        self._theta = spiraltheta
+        # the polar angle and the longitude
 
-        self._phi = phi
+        self._theta = phi
+
+        self._phi = np.mod(spiraltheta, 2 * np.pi)
-- 
2.43.0


From 2ec31541cfdb590cfc1d637f4a18938b710dbfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 41/73] fix: the spiral galaxy has its LaTeX form

---
 popsynth/distributions/spiral_galaxy_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index 0b0b220..51db7ca 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -46,7 +46,7 @@ class SpiralGalaxyDistribution(SphericalDistribution):
         super(SpiralGalaxyDistribution, self).__init__(
             seed=seed,
             name=name,
-            form=form,
+            form=spatial_form if form is None else form,
         )
 
     def dNdV(self, r):
-- 
2.43.0


From 28fd5d87ceb1c6c2ae610907da0345d2c5888f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 42/73] fix: the declination sampler samples declinations and
 not polar angles

---
 popsynth/aux_samplers/sky_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/sky_sampler.py b/popsynth/aux_samplers/sky_sampler.py
index dad7a11..101f6cc 100644
--- a/popsynth/aux_samplers/sky_sampler.py
+++ b/popsynth/aux_samplers/sky_sampler.py
@@ -78,6 +78,6 @@ class DecSampler(NonObservedAuxSampler):
 
     def true_sampler(self, size):
 
-        self._true_values = np.arccos(
+        self._true_values = np.arcsin(
             1 - 2 * np.random.uniform(0.0, 1.0, size=size)
         )
-- 
2.43.0


From c5bc3cbbc04a61eac6dbc69d1c14fe943c04f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 43/73] fix: print a population synth that has no luminosity
 yet

---
 popsynth/population_synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 8bc69f3..1d8915c 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1493,6 +1493,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
     def __repr__(self) -> str:
 
+        out = ""
+
         if self._has_derived_luminosity:
 
             out = "Luminosity Function\n"
-- 
2.43.0


From b11e03b58e0285d2ca75c61f47ff53ec71e2912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 44/73] fix: reject distributions with more than one
 normalization

---
 popsynth/utils/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c89f159..c1e101d 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -171,6 +171,8 @@ class ParameterMeta(type):
 
                         raise AssertionError("Can only have 1 normalization")
 
+                    norm_counter += 1
+
         return cls
 
     def __subclasscheck__(cls, subclass):
-- 
2.43.0


From 51ece729d7bbc38e8bf9fc73c19808536bec0d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 45/73] fix: several processes can create the log directory at
 once

---
 popsynth/utils/package_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/utils/package_data.py b/popsynth/utils/package_data.py
index 3b4193b..94544be 100644
--- a/popsynth/utils/package_data.py
+++ b/popsynth/utils/package_data.py
@@ -17,7 +17,7 @@ def get_path_of_log_dir() -> Path:
 
     if not p.exists():
 
-        p.mkdir(parents=True)
+        p.mkdir(parents=True, exist_ok=True)
 
     return p
 
-- 
2.43.0


From de01571dd8a45c40ac0ee84230eb99bdf872f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 46/73] fix: logs that were silenced twice can be activated
 again

---
 popsynth/utils/logging.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..e1010c0 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -144,8 +144,14 @@ class LoggingState(object):
 
     def silence_logs(self):
 
-        # store the state
-        self._store_state()
+        # store the state, unless that is the silent
+        # one, which is not what we want to go back to
+        if not (
+            self.popsynth_usr_log_handler.level == logging.CRITICAL
+            and self.popsynth_console_log_handler.level == logging.CRITICAL
+        ):
+
+            self._store_state()
 
         # silence the logs
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
-- 
2.43.0


From 347375d49b0eac570f5deafbac846f91dc1d9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 47/73] fix: normalized distances of a distribution whose
 normalization has its default

---
 popsynth/distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 648ed9f..fffeea6 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -320,6 +320,8 @@ class SpatialDistribution(Distribution):
 
             # set the prefactor to unity
 
+            old_value = None
+
             if self._normalization_parameter is not None:
 
                 old_value = self.normalization_parameter
@@ -329,7 +331,7 @@ class SpatialDistribution(Distribution):
 
             dNdr_norm = lambda r: dNdr(r) / integral
 
-            if self._normalization_parameter is not None:
+            if old_value is not None:
 
                 self.normalization_parameter = old_value
 
-- 
2.43.0


From f0e8f2c171b04e47f3a527fb4c0ff6ccd920ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 48/73] fix: the broken power law accepts integer values with
 negative indices

---
 popsynth/distributions/bpl_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 100d0e0..46d13c5 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -131,7 +131,7 @@ def bpl(x, x0, x1, x2, a1, a2):
     """
 
     # creatre a holder for the values
-    x = np.atleast_1d(x)
+    x = np.atleast_1d(x).astype(float)
 
     out = np.zeros_like(x, dtype=float)
 
-- 
2.43.0


From 9ee10a4385ac87dd56679dd1a4315dd8e6a98287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 49/73] fix: the declared normalization parameter is known
 before it is first read

---
 popsynth/distribution.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index fffeea6..c27cf6a 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -43,7 +43,9 @@ class Distribution(
         """
 
         self._parameter_storage: Dict[str, float] = {}
-        self._normalization_parameter: Optional[str] = None
+        self._normalization_parameter: Optional[str] = (
+            self._find_normalization()
+        )
 
         self._seed = seed  # type: int
         self._name = name  # type: str
@@ -51,10 +53,36 @@ class Distribution(
 
         self._probability: Optional[np.ndarray] = None
 
+    @classmethod
+    def _find_normalization(cls) -> Optional[str]:
+        """
+        The name of the parameter which is declared
+        as normalization
+        """
+        seen = set()
+
+        for base in cls.__mro__:
+
+            for k, v in vars(base).items():
+
+                if (
+                    k not in seen
+                    and isinstance(v, DistributionParameter)
+                    and v.is_normalization
+                ):
+
+                    return k
+
+                seen.add(k)
+
+        return None
+
     @property
     def normalization_parameter(self) -> Optional[float]:
 
-        return self._parameter_storage[self._normalization_parameter]
+        # goes through the parameter such that a
+        # default value is used
+        return getattr(self, self._normalization_parameter)
 
     @normalization_parameter.setter
     def normalization_parameter(self, value):
-- 
2.43.0


From 73f2be52917946752858f3e7b6d3f798e65d5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 50/73] fix: sections of a description can be empty

---
 popsynth/population_synth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 1d8915c..7118d0a 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -359,7 +359,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :rtype: :class:`PopulationSynth`
         """
 
-        if "luminosity distribution" in input:
+        if input.get("luminosity distribution") is not None:
 
             # try:
 
@@ -379,7 +379,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.debug(f"setting parameters for {ld_name}")
 
-            for k, v in tmp[ld_name].items():
+            for k, v in (tmp[ld_name] or {}).items():
 
                 log.debug(f"trying to set {k} to {v}")
 
@@ -407,7 +407,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             sd_name
         ]
 
-        for k, v in tmp[sd_name].items():
+        for k, v in (tmp[sd_name] or {}).items():
 
             log.debug(f"trying to set {k} to {v}")
 
@@ -559,7 +559,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         aux_samplers: Dict[str, AuxiliarySampler] = OrderedDict()
         secondary_samplers: Dict[str, str] = OrderedDict()
 
-        if "auxiliary samplers" in input:
+        if input.get("auxiliary samplers") is not None:
 
             for obj_name, v in input["auxiliary samplers"].items():
 
-- 
2.43.0


From d9af87de0cc484406fc5d8e2a2d6163c0af60c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 51/73] fix: percentiles of simulated variables

An index like [0, ...] gives an array without dimensions, whose length
cannot be compared: np.percentile failed on simulated variables.
---
 popsynth/simulated_variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index ec76667..e02d5f8 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -118,7 +118,8 @@ class SimulatedVariable(np.ndarray):
 
         obs = self.view(np.ndarray).__getitem__(item)
 
-        if not isinstance(obs, np.ndarray):
+        # single values have no latent values or selection
+        if np.ndim(obs) == 0:
 
             return obs
 
-- 
2.43.0


From 95a14791153ca99b505352c2fb8e167228658621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 52/73] fix: display the true fluxes

The observed fluxes were plotted as the true ones, so that the arrows
from true to observed values had no length.
---
 popsynth/population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index cf90672..6025373 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -990,7 +990,7 @@ class Population(object):
 
         ax.scatter(
             self._distances,
-            self._fluxes,
+            self._fluxes.latent,
             alpha=0.5,
             color=flux_color,
             edgecolors="none",
@@ -1102,7 +1102,7 @@ class Population(object):
 
         if (with_arrows) and (not self._no_detection):
             for start, stop, z in zip(
-                self._fluxes[self._selection],
+                self._fluxes.selected.latent,
                 self._fluxes.selected,
                 self._distances.selected,
             ):
-- 
2.43.0


From 94e3f939f96e7045361fe6b5fdda4591d1814630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:46 +0000
Subject: [PATCH 53/73] fix: display the fluxes of an empty population

---
 popsynth/population.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 6025373..2b0ef91 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -1003,16 +1003,12 @@ class Population(object):
         # ax.set_xscale('log')
         ax.set_yscale("log")
 
-        try:
+        if self._n_objects > 0:
 
             ax.set_ylim(
-                bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+                bottom=min([self._fluxes.min(), self._fluxes.latent.min()])
             )
 
-        except ValueError:
-
-            ax.set_ylim(bottom=self._fluxes.min())
-
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
         return fig
-- 
2.43.0


From 864adac61646150393a3a15c56f7a10e9685e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 54/73] fix: a sampler cannot have the name of the derived
 luminosity sampler

---
 popsynth/population_synth.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 7118d0a..5a2feb7 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -836,6 +836,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(auxiliary_sampler, DerivedLumAuxSampler):
 
+            if auxiliary_sampler.name in self._auxiliary_observations:
+
+                log.error(f"{auxiliary_sampler.name} is already registered!")
+
+                raise RuntimeError()
+
             log.info(
                 f"registering derived luminosity sampler: {auxiliary_sampler.name}"
             )
@@ -855,7 +861,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 raise RuntimeError()
 
-            if auxiliary_sampler.name in self._auxiliary_observations:
+            if auxiliary_sampler.name in self._auxiliary_observations or (
+                self._derived_luminosity_sampler is not None
+                and auxiliary_sampler.name
+                == self._derived_luminosity_sampler.name
+            ):
 
                 log.error(f"{auxiliary_sampler.name} is already registered!")
 
-- 
2.43.0


From f5f8c7290d4510a5594cda72c23f7c7744553a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 55/73] fix: a survey that fails keeps the normalization

---
 popsynth/distribution.py     | 22 +++++++++++++++-------
 popsynth/population_synth.py | 24 ++++++++++++++----------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index c27cf6a..dc90c7e 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -355,13 +355,17 @@ class SpatialDistribution(Distribution):
                 old_value = self.normalization_parameter
                 self.normalization_parameter = 1
 
-            integral = integrate.quad(dNdr, 0.0, self.r_max)[0]
+            try:
 
-            dNdr_norm = lambda r: dNdr(r) / integral
+                integral = integrate.quad(dNdr, 0.0, self.r_max)[0]
 
-            if old_value is not None:
+            finally:
 
-                self.normalization_parameter = old_value
+                if old_value is not None:
+
+                    self.normalization_parameter = old_value
+
+            dNdr_norm = lambda r: dNdr(r) / integral
 
         else:
 
@@ -412,11 +416,15 @@ class SpatialDistribution(Distribution):
             old_value = self.normalization_parameter
             self.normalization_parameter = 1
 
-        self._probability = dNdr_norm(self._distances)
+        try:
 
-        if self._normalization_parameter is not None:
+            self._probability = dNdr_norm(self._distances)
+
+        finally:
 
-            self.normalization_parameter = old_value
+            if self._normalization_parameter is not None:
+
+                self.normalization_parameter = old_value
 
 
 class LuminosityDistribution(Distribution):
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 5a2feb7..327d8de 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1040,19 +1040,23 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     log.info('setting normalization to unity for integration')
                     self._spatial_distribution.normalization_parameter = 1
 
-                integral = integrate.quad(
-                    dNdr, 0.0, self._spatial_distribution.r_max
-                )[0]
+                try:
 
-                if old_value is not None:
+                    integral = integrate.quad(
+                        dNdr, 0.0, self._spatial_distribution.r_max
+                    )[0]
 
-                    self._spatial_distribution.normalization_parameter = (
-                        old_value
-                    )
+                finally:
 
-                    log.info(
-                        f"normalization parameter set back to {self._spatial_distribution.normalization_parameter}"
-                    )
+                    if old_value is not None:
+
+                        self._spatial_distribution.normalization_parameter = (
+                            old_value
+                        )
+
+                        log.info(
+                            f"normalization parameter set back to {self._spatial_distribution.normalization_parameter}"
+                        )
 
                 dNdr_norm = lambda r: dNdr(r) / integral
 
-- 
2.43.0


From f87fb9c1401f45ad524d1bf2a3c291aefe8d788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 56/73] fix: names with a slash survive HDF5

---
 popsynth/population.py       | 12 ++++++++----
 popsynth/utils/hdf5_utils.py | 38 +++++++++++++++++++++++++++++++-----
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2b0ef91..221c6b9 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -16,6 +16,8 @@ from popsynth.utils.array_to_cmap import array_to_cmap
 from popsynth.utils.hdf5_utils import (
     clean_graph_dict,
     fill_graph_dict,
+    key_to_name,
+    name_to_key,
     recursively_load_dict_contents_from_group,
     recursively_save_dict_contents_to_group,
 )
@@ -651,7 +653,7 @@ class Population(object):
 
         for k, v in self._auxiliary_quantities.items():
 
-            q_grp = aux_grp.create_group(k)
+            q_grp = aux_grp.create_group(name_to_key(k))
             q_grp.create_dataset(
                 "true_values", data=v["true_values"], compression="gzip"
             )
@@ -663,7 +665,9 @@ class Population(object):
 
         for k, v in self._model_spaces.items():
 
-            model_grp.create_dataset(k, data=v, compression="gzip")
+            model_grp.create_dataset(
+                name_to_key(k), data=v, compression="gzip"
+            )
 
         # now store the truths
         recursively_save_dict_contents_to_group(f, "truth", self._truth)
@@ -782,13 +786,13 @@ class Population(object):
 
         for k in f["model_spaces"].keys():
 
-            model_spaces[str(k)] = f["model_spaces"][k][()]
+            model_spaces[key_to_name(str(k))] = f["model_spaces"][k][()]
 
         auxiliary_quantities = {}
 
         for k in f["auxiliary_quantities"].keys():
 
-            auxiliary_quantities[str(k)] = {
+            auxiliary_quantities[key_to_name(str(k))] = {
                 "true_values": f["auxiliary_quantities"][k]["true_values"][()],
                 "obs_values": f["auxiliary_quantities"][k]["obs_values"][()],
             }
diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 1edcbae..8287dfa 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -4,6 +4,30 @@ import h5py
 import numpy as np
 
 
+def name_to_key(name: str) -> str:
+    """
+    The HDF5 key of a name. A slash would make a path of it.
+
+    :param name: Name of, e.g., a sampler
+    :type name: str
+    :returns: The key
+    :rtype: str
+    """
+    return name.replace("%", "%25").replace("/", "%2F")
+
+
+def key_to_name(key: str) -> str:
+    """
+    The name that is stored under an HDF5 key.
+
+    :param key: The key
+    :type key: str
+    :returns: The name
+    :rtype: str
+    """
+    return key.replace("%2F", "/").replace("%25", "%")
+
+
 def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     """
     Save dict to HDF5.
@@ -15,6 +39,8 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
     """
     for key, item in dic.items():
 
+        key = name_to_key(key)
+
         if isinstance(item, list):
 
             is_ok = True
@@ -84,22 +110,24 @@ def recursively_load_dict_contents_from_group(h5file, path):
     for key, item in h5file[path].items():
 
         if isinstance(item, h5py._hl.dataset.Dataset):
-            ans[key] = item[()]
+            name = key_to_name(key)
+
+            ans[name] = item[()]
 
             try:
 
-                ans[key] = ans[key].decode()
+                ans[name] = ans[name].decode()
 
-                if ans[key] == "FILL_VALUE":
+                if ans[name] == "FILL_VALUE":
 
-                    ans[key] = {}
+                    ans[name] = {}
 
             except:
 
                 pass
 
         elif isinstance(item, h5py._hl.group.Group):
-            ans[key] = recursively_load_dict_contents_from_group(
+            ans[key_to_name(key)] = recursively_load_dict_contents_from_group(
                 h5file, path + "/" + key + "/"
             )
     return ans
-- 
2.43.0


From ca8a466108a8e44d06a77df3a7b11c90607cfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 57/73] fix: a sampler's selection on distance sees the
 distances even if the sampler does not use them

---
 popsynth/auxiliary_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 35afe03..bef7b23 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -333,7 +333,7 @@ class AuxiliarySampler(
 
                 log.info(f"{self.name} is sampling its secondary quantities")
 
-            if self._uses_distance:
+            if hasattr(self, "_distance"):
 
                 self._selector.set_distance(self._distance)
 
-- 
2.43.0


From 8baab9f67d89073518bd342ed6d5fac211610453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 58/73] fix: parameters can be integers beyond 64 bit

---
 popsynth/utils/meta.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c1e101d..bb0053e 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -97,6 +97,12 @@ class Parameter(object):
                 )
                 raise RuntimeError()
 
+        # numpy cannot compute with larger integers
+
+        if isinstance(value, int) and abs(value) >= 2**63:
+
+            value = float(value)
+
         obj._parameter_storage[self.name] = value
 
         # Define property "free"
-- 
2.43.0


From dbfe10ad201e56f5789ddf0f48a469b931e7fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 59/73] fix: setting the normalization checks the bounds of its
 parameter

---
 popsynth/distribution.py     | 19 +++++++++++++++----
 popsynth/population_synth.py |  4 ++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index dc90c7e..2ff24fd 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -86,6 +86,17 @@ class Distribution(
 
     @normalization_parameter.setter
     def normalization_parameter(self, value):
+
+        # goes through the parameter such that its
+        # bounds are checked
+        setattr(self, self._normalization_parameter, value)
+
+    def _set_normalization(self, value) -> None:
+        """
+        Set the normalization for a computation, regardless of
+        the bounds of the parameter and whether it is free
+        """
+
         self._parameter_storage[self._normalization_parameter] = value
 
     @property
@@ -353,7 +364,7 @@ class SpatialDistribution(Distribution):
             if self._normalization_parameter is not None:
 
                 old_value = self.normalization_parameter
-                self.normalization_parameter = 1
+                self._set_normalization(1)
 
             try:
 
@@ -363,7 +374,7 @@ class SpatialDistribution(Distribution):
 
                 if old_value is not None:
 
-                    self.normalization_parameter = old_value
+                    self._set_normalization(old_value)
 
             dNdr_norm = lambda r: dNdr(r) / integral
 
@@ -414,7 +425,7 @@ class SpatialDistribution(Distribution):
         if self._normalization_parameter is not None:
 
             old_value = self.normalization_parameter
-            self.normalization_parameter = 1
+            self._set_normalization(1)
 
         try:
 
@@ -424,7 +435,7 @@ class SpatialDistribution(Distribution):
 
             if self._normalization_parameter is not None:
 
-                self.normalization_parameter = old_value
+                self._set_normalization(old_value)
 
 
 class LuminosityDistribution(Distribution):
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 327d8de..c656543 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1038,7 +1038,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                         self._spatial_distribution.normalization_parameter
                     )
                     log.info('setting normalization to unity for integration')
-                    self._spatial_distribution.normalization_parameter = 1
+                    self._spatial_distribution._set_normalization(1)
 
                 try:
 
@@ -1050,7 +1050,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     if old_value is not None:
 
-                        self._spatial_distribution.normalization_parameter = (
+                        self._spatial_distribution._set_normalization(
                             old_value
                         )
 
-- 
2.43.0


From 2fa79d03d06cfcc3559df289713d6f8ad52e0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 60/73] fix: densities of large integer luminosities do not
 overflow

---
 popsynth/distributions/pareto_distribution.py    | 5 ++++-
 popsynth/distributions/schechter_distribution.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/popsynth/distributions/pareto_distribution.py b/popsynth/distributions/pareto_distribution.py
index 1ffb57e..4ccd579 100644
--- a/popsynth/distributions/pareto_distribution.py
+++ b/popsynth/distributions/pareto_distribution.py
@@ -32,12 +32,15 @@ class ParetoDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
+        # powers of integers overflow
+        L = np.asarray(L, dtype=float)
+
         out = np.zeros_like(L, dtype=float)
 
         idx = L >= self.Lmin
 
         out[idx] = (
-            self.alpha * self.Lmin**self.alpha / L[idx] ** (self.alpha + 1)
+            self.alpha * float(self.Lmin) ** self.alpha / L[idx] ** (self.alpha + 1)
         )
 
         return out
diff --git a/popsynth/distributions/schechter_distribution.py b/popsynth/distributions/schechter_distribution.py
index 7e84e76..2188aea 100644
--- a/popsynth/distributions/schechter_distribution.py
+++ b/popsynth/distributions/schechter_distribution.py
@@ -36,10 +36,13 @@ class SchechterDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
+        # powers of integers overflow
+        L = np.asarray(L, dtype=float)
+
         return (
             L**self.alpha
             * np.exp(-L / self.Lmin)
-            / (self.Lmin ** (1 + self.alpha) * sf.gamma(1 + self.alpha))
+            / (float(self.Lmin) ** (1 + self.alpha) * sf.gamma(1 + self.alpha))
         )
 
     def draw_luminosity(self, size=1):
-- 
2.43.0


From 27a462d0bb6b2ee60d41a7067e1dbff195796d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 61/73] fix: power-law density at integer redshifts

---
 popsynth/distributions/cosmological_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/cosmological_distribution.py b/popsynth/distributions/cosmological_distribution.py
index 8607f7c..3137499 100644
--- a/popsynth/distributions/cosmological_distribution.py
+++ b/popsynth/distributions/cosmological_distribution.py
@@ -202,7 +202,7 @@ class ZPowerCosmoDistribution(CosmologicalDistribution):
 
 @nb.njit(fastmath=True)
 def _zp_dndv(z, Lambda, delta):
-    return Lambda * np.power(z + 1, delta)
+    return Lambda * np.power(z + 1.0, delta)
 
 
 # class MergerDistribution(CosmologicalDistribution):
-- 
2.43.0


From 083475d7af520d20684cbc6fac3695d1d0aba2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 62/73] fix: names with letters outside ASCII survive HDF5

---
 popsynth/population.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 221c6b9..a758457 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -603,18 +603,18 @@ class Population(object):
 
             if self._lf_form is not None:
 
-                f.attrs["lf_form"] = np.string_(self._lf_form)
+                f.attrs["lf_form"] = _encode(self._lf_form)
 
             f.attrs["has_lf"] = True
 
         else:
             f.attrs["has_lf"] = False
 
-        f.attrs["name"] = np.string_(self._name)
+        f.attrs["name"] = _encode(self._name)
 
         if self._spatial_form is not None:
 
-            f.attrs["spatial_form"] = np.string_(self._spatial_form)
+            f.attrs["spatial_form"] = _encode(self._spatial_form)
 
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
@@ -1353,6 +1353,14 @@ class Population(object):
         # sns.despine(offset=5, trim=True);
 
 
+def _encode(value):
+    """
+    The fixed-length string that is stored in an HDF5 attribute.
+    """
+
+    return np.bytes_(str(value).encode())
+
+
 def _decode(value):
     """
     The text stored in an HDF5 attribute. h5py returns bytes for the
-- 
2.43.0


From bea5fe09e9fd55a81de30fcd6b949644be5cf9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 63/73] fix: log-normal samplers truncated at zero have no
 other lower bound

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index affd06d..6ef47fb 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -42,7 +42,7 @@ class TruncatedLogNormalAuxSampler(AuxiliarySampler):
     def true_sampler(self, size: int):
 
         if self.lower == 0:
-            a = stats.norm.ppf(1e-5, loc=self.mu, scale=self.tau)
+            a = -np.inf
         else:
             a = np.log(self.lower)
 
@@ -117,7 +117,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
     def true_sampler(self, size: int):
 
         if self.lower == 0:
-            a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
+            a = -np.inf
         else:
             a = np.log10(self.lower)
 
-- 
2.43.0


From bc3cdb79ada060a9ea7ff43570024ef4e46d2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 64/73] fix: power laws with an index within rounding of -1

---
 popsynth/aux_samplers/plaw_aux_sampler.py  | 5 +++++
 popsynth/distributions/bpl_distribution.py | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index eaf8bfa..de29878 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -165,6 +165,11 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 @nb.njit(fastmath=True)
 def _sample_power_law(xmin, xmax, alpha, u):
 
+    # next to -1 the difference of the powers vanishes
+    if abs(alpha + 1.0) < 1e-7:
+
+        alpha = -1.0
+
     out = np.empty_like(u)
 
     for i in range(len(u)):
diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 46d13c5..98d322f 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -70,7 +70,7 @@ def _integrate_piece(x0, x1, a):
     Integrate x^a between x0 and x1
     """
 
-    if a == -1:
+    if abs(a + 1) < 1e-7:
 
         return np.log(x1 / x0)
 
@@ -82,7 +82,7 @@ def _sample_piece(u, x0, x1, a):
     Inverse transform sample x^a between x0 and x1
     """
 
-    if a == -1:
+    if abs(a + 1) < 1e-7:
 
         return x0 * np.power(x1 / x0, u)
 
-- 
2.43.0


From fe406b1ae681a6be2fbbd752e0a7e65c00e15061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 65/73] fix: populations with auxiliary quantities can be
 deep-copied

---
 popsynth/auxiliary_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index bef7b23..85bc4a9 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -120,7 +120,7 @@ class SecondaryContainer(object):
 
 
 class SecondaryStorage(DotMap):
-    def __init__(self):
+    def __init__(self, *args, **kwargs):
         """
         A container for secondary samplers
 
@@ -128,7 +128,7 @@ class SecondaryStorage(DotMap):
 
         """
 
-        super(SecondaryStorage, self).__init__()
+        super(SecondaryStorage, self).__init__(*args, **kwargs)
 
     def add_secondary(self, secondary_values: SecondaryContainer) -> None:
         """
-- 
2.43.0


From f7fe36748f9f35ce792d9bfbada832494fad6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 66/73] fix: pickles and deep copies of simulated variables
 have their own latent values

---
 popsynth/simulated_variable.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index e02d5f8..e2894ab 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .utils.logging import setup_logger
@@ -114,6 +116,30 @@ class SimulatedVariable(np.ndarray):
 
         self._latent_values = getattr(obj, "_latent_values", None)
 
+    def __reduce__(self):
+
+        reconstruct, args, state = super().__reduce__()
+
+        return reconstruct, args, (state, self._selection, self._latent_values)
+
+    def __setstate__(self, state):
+
+        state, selection, latent_values = state
+
+        super().__setstate__(state)
+
+        self._selection = selection
+        self._latent_values = latent_values
+
+    def __deepcopy__(self, memo):
+
+        out = super().__deepcopy__(memo)
+
+        out._selection = copy.deepcopy(self._selection, memo)
+        out._latent_values = copy.deepcopy(self._latent_values, memo)
+
+        return out
+
     def __getitem__(self, item):
 
         obs = self.view(np.ndarray).__getitem__(item)
-- 
2.43.0


From 3970e7eb5042117c3a872625ffd63b49f5a08321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 67/73] fix: simulated variables can be the where argument of
 ufuncs

---
 popsynth/simulated_variable.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index e2894ab..65208c9 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -174,6 +174,14 @@ class SimulatedVariable(np.ndarray):
         outputs = out
         out_no = []
         latent_kwargs = dict(kwargs)
+
+        where = kwargs.get('where', None)
+
+        if isinstance(where, SimulatedVariable):
+
+            kwargs['where'] = where.view(np.ndarray)
+            latent_kwargs['where'] = where._latent_values.view(np.ndarray)
+
         if outputs:
             out_args = []
             latent_out_args = []
-- 
2.43.0


From bde3bc9b75089ad4f4b752025405fc832fee04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 68/73] fix: in-place operations on a part of a simulated
 variable act on its latent values

---
 popsynth/simulated_variable.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 65208c9..3302933 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -155,6 +155,24 @@ class SimulatedVariable(np.ndarray):
 
         return SimulatedVariable(obs, latent, selection)
 
+    def __setitem__(self, item, value):
+
+        # assigning simulated variables, e.g. by x[mask] *= 2,
+        # assigns their latent values as well
+
+        if isinstance(value, SimulatedVariable):
+
+            latent = self._latent_values.copy()
+            latent[item] = value._latent_values
+
+            super().__setitem__(item, value.view(np.ndarray))
+
+            self._latent_values = latent
+
+        else:
+
+            super().__setitem__(item, value)
+
     def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
         args = []
         in_no = []
-- 
2.43.0


From b790acd3677f7d4385326682784ddc40e3171a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 69/73] fix: rearranged simulated variables keep latent values
 and selection aligned

---
 popsynth/simulated_variable.py | 96 ++++++++++++++++++++++++++++++++++
 1 file changed, 96 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 3302933..d94e038 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -173,6 +173,102 @@ class SimulatedVariable(np.ndarray):
 
             super().__setitem__(item, value)
 
+    def _rearrange(self, method, *args, **kwargs):
+        """
+        Apply a method that rearranges the objects to the observed
+        values, the latent values and the selection.
+        """
+
+        return SimulatedVariable(
+            getattr(self.view(np.ndarray), method)(*args, **kwargs),
+            getattr(self._latent_values, method)(*args, **kwargs),
+            getattr(self._selection, method)(*args, **kwargs),
+        )
+
+    def take(self, indices, axis=None, out=None, mode="raise"):
+
+        if out is not None or np.ndim(indices) == 0:
+
+            return self.view(np.ndarray).take(indices, axis, out, mode)
+
+        return self._rearrange("take", indices, axis=axis, mode=mode)
+
+    def compress(self, condition, axis=None, out=None):
+
+        if out is not None:
+
+            return self.view(np.ndarray).compress(condition, axis, out)
+
+        return self._rearrange("compress", condition, axis=axis)
+
+    def repeat(self, repeats, axis=None):
+
+        return self._rearrange("repeat", repeats, axis=axis)
+
+    def reshape(self, *shape, order="C"):
+
+        return self._rearrange("reshape", *shape, order=order)
+
+    def ravel(self, order="C"):
+
+        return self._rearrange("ravel", order=order)
+
+    def flatten(self, order="C"):
+
+        return self._rearrange("flatten", order=order)
+
+    def transpose(self, *axes):
+
+        return self._rearrange("transpose", *axes)
+
+    @property
+    def T(self):
+
+        return self.transpose()
+
+    def swapaxes(self, axis1, axis2):
+
+        return self._rearrange("swapaxes", axis1, axis2)
+
+    def _reorder(self, order, axis):
+        """
+        Put the objects in this order
+        """
+
+        latent_values = np.take_along_axis(self._latent_values, order, axis)
+        selection = np.take_along_axis(self._selection, order, axis)
+
+        obs = self.view(np.ndarray)
+        obs[...] = np.take_along_axis(obs, order, axis)
+
+        self._latent_values = latent_values
+        self._selection = selection
+
+    def sort(self, axis=-1, kind=None, order=None):
+
+        self._reorder(self.argsort(axis=axis, kind=kind, order=order), axis)
+
+    def partition(self, kth, axis=-1, kind="introselect", order=None):
+
+        self._reorder(
+            self.argpartition(kth, axis=axis, kind=kind, order=order), axis
+        )
+
+    def argsort(self, *args, **kwargs):
+
+        return self.view(np.ndarray).argsort(*args, **kwargs)
+
+    def argpartition(self, *args, **kwargs):
+
+        return self.view(np.ndarray).argpartition(*args, **kwargs)
+
+    def __array_wrap__(self, array, context=None):
+
+        # a result of a function that does not know of
+        # latent values
+
+        return np.asarray(array)
+
     def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
         args = []
         in_no = []
-- 
2.43.0


From a21ad156fee3de8d7e4689b3173e6cd744aa9093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 70/73] fix: rounding a simulated variable to decimals keeps
 its latent values

---
 popsynth/simulated_variable.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d94e038..75a3cc7 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -262,6 +262,22 @@ class SimulatedVariable(np.ndarray):
 
         return self.view(np.ndarray).argpartition(*args, **kwargs)
 
+    def round(self, decimals=0, out=None):
+
+        result = SimulatedVariable(
+            self.view(np.ndarray).round(decimals),
+            self._latent_values.round(decimals),
+            self._selection,
+        )
+
+        if out is None:
+
+            return result
+
+        out[...] = result
+
+        return out
+
     def __array_wrap__(self, array, context=None):
 
         # a result of a function that does not know of
-- 
2.43.0


From 8cd0c63cf932a5ee865de35fc4f2763eeef20192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 71/73] fix: arrays made like a simulated variable do not take
 its latent values

---
 popsynth/simulated_variable.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 75a3cc7..a0cfd86 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -6,6 +6,9 @@ from .utils.logging import setup_logger
 
 log = setup_logger(__name__)
 
+_LIKE = (np.zeros_like, np.ones_like, np.full_like, np.empty_like)
+_ELEMENTWISE = (np.nan_to_num, np.gradient)
+
 
 class SimulatedVariable(np.ndarray):
     """
@@ -278,6 +281,30 @@ class SimulatedVariable(np.ndarray):
 
         return out
 
+    def __array_function__(self, func, types, args, kwargs):
+
+        # these functions make one value per object but are not ufuncs
+
+        if args and args[0] is self and func in _LIKE + _ELEMENTWISE:
+
+            obs = func(self.view(np.ndarray), *args[1:], **kwargs)
+
+            if np.shape(obs) != self.shape:
+
+                return obs
+
+            if func in _LIKE:
+
+                latent = obs.copy()
+
+            else:
+
+                latent = func(self._latent_values.copy(), *args[1:], **kwargs)
+
+            return SimulatedVariable(obs, latent, self._selection)
+
+        return super().__array_function__(func, types, args, kwargs)
+
     def __array_wrap__(self, array, context=None):
 
         # a result of a function that does not know of
-- 
2.43.0


From 677ee3b28b0d60fd1065dac129c7560b726b9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 72/73] fix: in-place operations on simulated variables with
 integer latent values

---
 popsynth/simulated_variable.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index a0cfd86..c18b16c 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -10,6 +10,15 @@ _LIKE = (np.zeros_like, np.ones_like, np.full_like, np.empty_like)
 _ELEMENTWISE = (np.nan_to_num, np.gradient)
 
 
+def _common_copy(x, y) -> np.ndarray:
+    """
+    A copy of x that can hold the values of y, e.g., integer
+    latent values of observed values that are not integers.
+    """
+
+    return x.view(np.ndarray).astype(np.result_type(x.dtype, y.dtype))
+
+
 class SimulatedVariable(np.ndarray):
     """
     SimulatedVariables hold the observed and latent values
@@ -165,7 +174,7 @@ class SimulatedVariable(np.ndarray):
 
         if isinstance(value, SimulatedVariable):
 
-            latent = self._latent_values.copy()
+            latent = _common_copy(self._latent_values, value._latent_values)
             latent[item] = value._latent_values
 
             super().__setitem__(item, value.view(np.ndarray))
@@ -349,7 +358,7 @@ class SimulatedVariable(np.ndarray):
                     # the latent values may share their memory with the
                     # observed ones, so they get a place of their own
                     latent_out_args.append(
-                        output._latent_values.view(np.ndarray).copy()
+                        _common_copy(output._latent_values, output)
                     )
                 else:
                     out_args.append(output)
@@ -363,7 +372,7 @@ class SimulatedVariable(np.ndarray):
 
         if method == 'at' and isinstance(inputs[0], SimulatedVariable):
 
-            latent_args[0] = latent_args[0].copy()
+            latent_args[0] = _common_copy(latent_args[0], inputs[0])
 
         info = {}
         if in_no:
-- 
2.43.0


From ad635f94f0357af5505106e595e6de463d3ad07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 73/73] fix: converting a simulated variable converts its
 latent values

---
 popsynth/simulated_variable.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index c18b16c..d7112f9 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -290,6 +290,14 @@ class SimulatedVariable(np.ndarray):
 
         return out
 
+    def astype(self, *args, **kwargs):
+
+        return SimulatedVariable(
+            self.view(np.ndarray).astype(*args, **kwargs),
+            self._latent_values.astype(*args, **kwargs),
+            self._selection,
+        )
+
     def __array_function__(self, func, types, args, kwargs):
 
         # these functions make one value per object but are not ufuncs
-- 
2.43.0


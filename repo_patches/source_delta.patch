From 77c580bfd2684db1e2e55cb6d476489ec5838ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 01/44] fix: aggregate through two relationships between the
 same pair of entities

get_relationship_variable_id built the name of the linking column from the parent
entity's id, while the calculator names it after the relationship's parent_name.
---
 featuretools/utils/gen_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 9f35e1b..7ed11bb 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -26,7 +26,7 @@ def get_relationship_variable_id(path):
     child_link_name = r.child_variable.id
     for _, r in path[1:]:
         parent_link_name = child_link_name
-        child_link_name = '%s.%s' % (r.parent_entity.id,
+        child_link_name = '%s.%s' % (r.parent_name,
                                      parent_link_name)
     return child_link_name
 
-- 
2.43.0


From 67c354a7d843f1f7037b83cd186d2b469357e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 02/44] fix: aggregate multi-input, multi-output and time-based
 primitives when no row is left

groupby.apply on no groups returns no feature columns, so the calculation failed
with a KeyError when use_previous or missing links left no child rows.
---
 .../feature_set_calculator.py                  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 88cd33e..a1ad250 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -685,12 +685,18 @@ class FeatureSetCalculator(object):
                 # to silence pandas warning about ambiguity we explicitly pass
                 # the column (in actuality grouping by both index and group would
                 # work)
-                to_merge = base_frame.groupby(base_frame[groupby_var],
-                                              observed=True,
-                                              sort=False).apply(wrap)
-                frame = pd.merge(left=frame, right=to_merge,
-                                 left_index=True,
-                                 right_index=True, how='left')
+                if isinstance(base_frame, pd.DataFrame) and base_frame[groupby_var].isnull().all():
+                    # no group to apply the functions to, in which case apply
+                    # would not return the columns of the features
+                    feature_values = [(f, np.full(f.number_output_features, np.nan)) for f in to_apply]
+                    frame = update_feature_columns(feature_values, frame)
+                else:
+                    to_merge = base_frame.groupby(base_frame[groupby_var],
+                                                  observed=True,
+                                                  sort=False).apply(wrap)
+                    frame = pd.merge(left=frame, right=to_merge,
+                                     left_index=True,
+                                     right_index=True, how='left')
 
                 progress_callback(len(to_apply) / float(self.num_features))
 
-- 
2.43.0


From 29a28ad7489030c53d595fb25ddc58ed70b55007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 03/44] fix: calculate a multi-output aggregation before the
 features using a slice of it

The depth of the aggregation was not derived from the features depending on a
slice of it, so it could be sorted after them, which failed with a KeyError.
---
 featuretools/computational_backends/feature_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 776c5d6..5724a7c 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -179,8 +179,9 @@ class FeatureSet(object):
 
             depths[f.unique_name()] = order[f.unique_name()]
 
-            # Only look at dependencies if they are on the same entity.
-            if not f.relationship_path:
+            # Only look at dependencies if they are on the same entity, as the
+            # base feature of a slice is whatever its own relationship path.
+            if not f.relationship_path or isinstance(f, FeatureOutputSlice):
                 dependencies = f.get_dependencies()
                 for dep in dependencies:
                     order[dep.unique_name()] = \
-- 
2.43.0


From cd3baca8352ed9eaab8afe95fe8cee7daec2d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 04/44] fix: calculate TimeSincePrevious over all rows of the
 entity

Like Diff it depends on the previous row, but it was applied to just the requested
instances, so its values changed with the other rows requested and with chunking.
---
 featuretools/primitives/standard/transform_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/primitives/standard/transform_primitive.py b/featuretools/primitives/standard/transform_primitive.py
index 5db373e..aca2db1 100644
--- a/featuretools/primitives/standard/transform_primitive.py
+++ b/featuretools/primitives/standard/transform_primitive.py
@@ -86,6 +86,7 @@ class TimeSincePrevious(TransformPrimitive):
     name = "time_since_previous"
     input_types = [DatetimeTimeIndex]
     return_type = Numeric
+    uses_full_entity = True
     description_template = "the time since the previous instance of {}"
 
     def __init__(self, unit="seconds"):
-- 
2.43.0


From fd55e4be4a000c11ca4cd4e7987c91a588273c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 05/44] fix: numeric aggregations of datetimes stay numeric
 when all values are null

AvgTimeBetween came out as an all-NaT datetime column, on which transform features
failed with a TypeError.
---
 .../computational_backends/feature_set_calculator.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index a1ad250..8d9be03 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -749,6 +749,14 @@ class FeatureSetCalculator(object):
                     frame[f.get_name()].dtype.name in ['object', 'bool']):
                 frame[f.get_name()] = frame[f.get_name()].astype(float)
 
+            # pandas keeps the dtype of a datetime input when all results are null
+            if (isinstance(frame, pd.DataFrame) and
+                    f.number_output_features == 1 and
+                    f.variable_type == variable_types.Numeric and
+                    pdtypes.is_datetime64_any_dtype(frame[f.get_name()]) and
+                    frame[f.get_name()].isnull().all()):
+                frame[f.get_name()] = np.nan
+
         return frame
 
     def _necessary_columns(self, entity_id, feature_names):
-- 
2.43.0


From 0a656843560644cece0033e03a6a2d60e0974d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 06/44] fix: calculate approximate features when an instance
 repeats within a time bucket

---
 .../computational_backends/calculate_feature_matrix.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index d690bb2..d77b8e0 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -418,8 +418,9 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
                 inner_grouped = _chunk_dataframe_groups(inner_grouped, chunk_size)
 
             for time_last, group in inner_grouped:
-                # sort group by instance id
-                ids = group['instance_id'].sort_values().values
+                # sort group by instance id, a group of approximated cutoff
+                # times can contain the same instance more than once
+                ids = group['instance_id'].drop_duplicates().sort_values().values
                 if no_unapproximated_aggs and approximate is not None:
                     window = None
                 else:
-- 
2.43.0


From a1d545bc7d80d5fa2a77a6f1c4436df63a08febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 07/44] fix: last time indexes consider every relationship
 between two entities

---
 featuretools/entityset/entityset.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 18ad9a4..ad76ef0 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -771,10 +771,10 @@ class EntitySet(object):
         """
         # Generate graph of entities to find leaf entities
         children = defaultdict(list)  # parent --> child mapping
-        child_vars = defaultdict(dict)
+        child_vars = defaultdict(list)  # parent --> linking variable of each child
         for r in self.relationships:
             children[r.parent_entity.id].append(r.child_entity)
-            child_vars[r.parent_entity.id][r.child_entity.id] = r.child_variable
+            child_vars[r.parent_entity.id].append(r.child_variable.id)
 
         updated_entities = updated_entities or []
         if updated_entities:
@@ -843,11 +843,10 @@ class EntitySet(object):
                     continue
 
                 # updated last time from all children
-                for child_e in child_entities:
+                for child_e, link_var in zip(child_entities, child_vars[entity.id]):
                     # TODO: Figure out if Dask code related to indexes is important for Koalas
                     if child_e.last_time_index is None:
                         continue
-                    link_var = child_vars[entity.id][child_e.id].id
 
                     lti_is_dask = isinstance(child_e.last_time_index, dd.Series)
                     lti_is_koalas = is_instance(child_e.last_time_index, ks, 'Series')
-- 
2.43.0


From 94d2270698f0511db0727256a09ebd087acc3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:11 +0000
Subject: [PATCH 08/44] fix: a child without any time no longer hides the last
 time of its siblings

---
 featuretools/entityset/entityset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index ad76ef0..98fc44e 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -871,9 +871,11 @@ class EntitySet(object):
                         lti_df = pd.DataFrame({'last_time': child_e.last_time_index,
                                                entity.index: child_e.df[link_var]})
 
-                        # sort by time and keep only the most recent
+                        # sort by time and keep only the most recent,
+                        # children without any time come before the others
                         lti_df.sort_values(['last_time', entity.index],
-                                           kind="mergesort", inplace=True)
+                                           kind="mergesort", na_position='first',
+                                           inplace=True)
 
                         lti_df.drop_duplicates(entity.index,
                                                keep='last',
-- 
2.43.0


From b4abb67db791113a2e07cc2ca5e7195063436f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 09/44] fix: leave the dask_kwargs supplied by the user
 unchanged

---
 featuretools/computational_backends/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0fc4d59..6ea7e6f 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -135,6 +135,9 @@ def n_jobs_to_workers(n_jobs):
 def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
     Client, LocalCluster = get_client_cluster()
 
+    # settings are removed below, leave the ones of the user as they are
+    dask_kwargs = dict(dask_kwargs)
+
     cluster = None
     if 'cluster' in dask_kwargs:
         cluster = dask_kwargs['cluster']
-- 
2.43.0


From 45f5c6d6ee43739fa798a94e1db63330424151f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 10/44] fix: release the client and cluster when starting them
 or closing the client fails

---
 .../calculate_feature_matrix.py               | 11 +++---
 featuretools/computational_backends/utils.py  | 39 ++++++++++++-------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index d77b8e0..cb8c0a5 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -680,11 +680,12 @@ def parallel_calculate_chunks(cutoff_time, chunk_size, feature_set, approximate,
     except Exception:
         raise
     finally:
-        if client is not None:
-            client.close()
-
-        if 'cluster' not in dask_kwargs and cluster is not None:
-            cluster.close()
+        try:
+            if client is not None:
+                client.close()
+        finally:
+            if 'cluster' not in dask_kwargs and cluster is not None:
+                cluster.close()
 
     feature_matrix = pd.concat(feature_matrix)
 
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 6ea7e6f..6be1881 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -183,20 +183,31 @@ def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
                     msg = "Dashboard started on port {}"
                     print(msg.format(info['services']['bokeh']))
 
-    client = Client(cluster)
-
-    warned_of_memory = False
-    for worker in list(client.scheduler_info()['workers'].values()):
-        worker_limit = worker['memory_limit']
-        if worker_limit < entityset_size:
-            raise ValueError("Insufficient memory to use this many workers")
-        elif worker_limit < 2 * entityset_size and not warned_of_memory:
-            logger.warning("Worker memory is between 1 to 2 times the memory"
-                           " size of the EntitySet. If errors occur that do"
-                           " not occur with n_jobs equals 1, this may be the "
-                           "cause.  See https://featuretools.alteryx.com/en/stable/guides/performance.html#parallel-feature-computation"
-                           " for more information.")
-            warned_of_memory = True
+    client = None
+    try:
+        client = Client(cluster)
+
+        warned_of_memory = False
+        for worker in list(client.scheduler_info()['workers'].values()):
+            worker_limit = worker['memory_limit']
+            if worker_limit < entityset_size:
+                raise ValueError("Insufficient memory to use this many workers")
+            elif worker_limit < 2 * entityset_size and not warned_of_memory:
+                logger.warning("Worker memory is between 1 to 2 times the memory"
+                               " size of the EntitySet. If errors occur that do"
+                               " not occur with n_jobs equals 1, this may be the "
+                               "cause.  See https://featuretools.alteryx.com/en/stable/guides/performance.html#parallel-feature-computation"
+                               " for more information.")
+                warned_of_memory = True
+    except BaseException:
+        # nothing is returned, so nobody else can release them
+        try:
+            if hasattr(client, 'close'):
+                client.close()
+        finally:
+            if 'cluster' not in dask_kwargs and hasattr(cluster, 'close'):
+                cluster.close()
+        raise
 
     return client, cluster
 
-- 
2.43.0


From 01641421ab6685887d248cea01ee9f81e360276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:18 +0000
Subject: [PATCH 11/44] fix: concurrent first uses of an EntitySet on one
 cluster no longer fail

---
 .../computational_backends/calculate_feature_matrix.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index cb8c0a5..ce935c6 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -608,7 +608,11 @@ def parallel_calculate_chunks(cutoff_time, chunk_size, feature_set, approximate,
             _es = client.get_dataset(es_token)
         else:
             _es = client.scatter([entityset])[0]
-            client.publish_dataset(**{_es.key: _es})
+            try:
+                client.publish_dataset(**{_es.key: _es})
+            except KeyError:
+                # another client has persisted the same EntitySet meanwhile
+                pass
 
         # save features to a tempfile and scatter it
         pickled_feats = cloudpickle.dumps(feature_set)
-- 
2.43.0


From 377f4d3184f8c4bc090ed7e8c58c5b3c734c2b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 12/44] fix: metadata follows variable conversions, deletions
 and secondary time index changes

---
 featuretools/entityset/entity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1683379..56c77d2 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -209,6 +209,7 @@ class Entity(object):
         variable = self._get_variable(variable_id)
         new_variable = new_type.create_from(variable)
         self.variables[self.variables.index(variable)] = new_variable
+        self.entityset.reset_data_description()
 
     def _create_variables(self, variable_types, index, time_index, secondary_time_index):
         """Extracts the variables from a dataframe
@@ -368,6 +369,7 @@ class Entity(object):
         for v_id in variable_ids:
             v = self._get_variable(v_id)
             self.variables.remove(v)
+        self.entityset.reset_data_description()
 
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
@@ -439,6 +441,7 @@ class Entity(object):
                 columns.append(time_index)
 
         self.secondary_time_index = secondary_time_index
+        self.entityset.reset_data_description()
 
 
 def _create_index(index, make_index, df):
-- 
2.43.0


From dcf35764e416347fee2a5cd25f8aa8b4e58ede76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:35 +0000
Subject: [PATCH 13/44] fix: saved progress keeps every chunk in a file of its
 own

---
 .../calculate_feature_matrix.py               |  8 ++++--
 featuretools/computational_backends/utils.py  | 28 ++++++++++++++-----
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index ce935c6..aa02d55 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -368,7 +368,7 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
         feature_matrix.append(_feature_matrix)
 
     else:
-        for _, group in cutoff_time.groupby(cutoff_df_time_var):
+        for bucket_time, group in cutoff_time.groupby(cutoff_df_time_var):
             # if approximating, calculate the approximate features
             if approximate is not None:
                 precalculated_features_trie = approximate_features(
@@ -382,7 +382,11 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
             else:
                 precalculated_features_trie = None
 
-            @save_csv_decorator(save_progress)
+            # every bucket is calculated at the same time if all aggregations
+            # have been approximated
+            part_time = bucket_time if no_unapproximated_aggs and approximate is not None else None
+
+            @save_csv_decorator(save_progress, time=part_time)
             def calc_results(time_last, ids, precalculated_features=None, training_window=None, include_cutoff_time=True):
                 update_progress_callback = None
 
diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 6be1881..35aa405 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -1,5 +1,7 @@
+import hashlib
 import logging
 import os
+import uuid
 import warnings
 from functools import wraps
 
@@ -30,23 +32,35 @@ def bin_cutoff_times(cutoff_time, bin_size):
     return binned_cutoff_time
 
 
-def save_csv_decorator(save_progress=None):
+def save_csv_decorator(save_progress=None, time=None):
+    """
+    Save the matrix returned by a method, which takes a cutoff time and instance
+    ids, to a csv file of its own. The file is named after the cutoff time unless
+    another time is given, and after the instance ids: several chunks can share
+    a cutoff time.
+    """
     def inner_decorator(method):
         @wraps(method)
         def wrapped(*args, **kwargs):
             if save_progress is None:
                 r = method(*args, **kwargs)
             else:
-                time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%I-%M-%S-%f") + '.csv'
+                part_time = args[0] if time is None else time
+                if hasattr(part_time, 'strftime'):
+                    time_name = part_time.strftime("%Y_%m_%d_%H-%M-%S-%f")
+                else:
+                    time_name = str(part_time)
+                part = repr((part_time, list(args[1])))
+                part_name = hashlib.md5(part.encode('utf-8')).hexdigest()[:16]
+                file_name = 'ft_{}_{}.csv'.format(time_name, part_name)
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
-                if not os.path.exists(temp_dir):
-                    os.makedirs(temp_dir)
-                temp_file_path = os.path.join(temp_dir, file_name)
+                os.makedirs(temp_dir, exist_ok=True)
+                # the same part can be calculated by two workers at once
+                temp_file_path = os.path.join(temp_dir, '{}_{}'.format(uuid.uuid4().hex, file_name))
                 r = method(*args, **kwargs)
                 r.to_csv(temp_file_path)
-                os.rename(temp_file_path, file_path)
+                os.replace(temp_file_path, file_path)
             return r
         return wrapped
     return inner_decorator
-- 
2.43.0


From 8947e336fb72e3e714d9602fdb205f974d5d028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:14 +0000
Subject: [PATCH 14/44] fix: aggregations over several multi-unit time spans
 are calculated separately

---
 featuretools/computational_backends/feature_set.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 5724a7c..ecf6c36 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -204,16 +204,11 @@ class FeatureSet(object):
 # These functions are used for sorting and grouping features
 
 
-def _get_use_previous(f):  # TODO Sort and group features for DateOffset with two different temporal values
+def _get_use_previous(f):
     if isinstance(f, AggregationFeature) and f.use_previous is not None:
-        if len(f.use_previous.times.keys()) > 1:
-            return ("", -1)
-        else:
-            unit = list(f.use_previous.times.keys())[0]
-            value = f.use_previous.times[unit]
-            return (unit, value)
+        return tuple(sorted(f.use_previous.times.items()))
     else:
-        return ("", -1)
+        return ()
 
 
 def _get_where(f):
-- 
2.43.0


From 517be8137f951758e5c7bce1e7fa48d6a4d2288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:39 +0000
Subject: [PATCH 15/44] fix: a stored EntitySet reads back as it was written

Overwriting removes the old description first and partitions that are not
written again; csv data is read with the separator it was written with, text
is not converted to numbers, dates or missing values, floats keep all digits;
parquet keeps missing values missing; interesting values keep their type.
---
 featuretools/entityset/deserialize.py | 45 +++++++++++++++++++----
 featuretools/entityset/serialize.py   | 53 +++++++++++++++++++++++++--
 2 files changed, 88 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 901c739..6cbfbe8 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -12,7 +12,11 @@ from featuretools.entityset.serialize import FORMATS
 from featuretools.utils.gen_utils import check_schema_version, import_or_raise
 from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
 from featuretools.utils.wrangle import _is_local_tar, _is_s3, _is_url
-from featuretools.variable_types import LatLong, find_variable_types
+from featuretools.variable_types import (
+    Datetime,
+    LatLong,
+    find_variable_types
+)
 
 
 def description_to_variable(description, entity=None):
@@ -32,8 +36,7 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
-        interesting_values = pd.read_json(description['properties']['interesting_values'], typ='series')
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(description, variable)
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
@@ -41,6 +44,23 @@ def description_to_variable(description, entity=None):
     return variable
 
 
+def read_interesting_values(description, variable):
+    '''Deserialize interesting values from variable description.
+
+    Args:
+        description (dict) : Description of :class:`.Variable`.
+        variable (Variable) : Instance of :class:`.Variable` the values belong to.
+
+    Returns:
+        interesting_values (Series) : Values as they were in the serialized :class:`.Variable`.
+    '''
+    # Only the values of datetime variables were times before they were serialized
+    return pd.read_json(description['properties']['interesting_values'],
+                        typ='series',
+                        dtype=False,
+                        convert_dates=isinstance(variable, Datetime))
+
+
 def description_to_entity(description, entityset, path=None):
     '''Deserialize entity from entity description and add to entityset.
 
@@ -63,9 +83,7 @@ def description_to_entity(description, entityset, path=None):
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
-        interesting_values = variable_types[variable.id][1]['properties']['interesting_values']
-        interesting_values = pd.read_json(interesting_values, typ="series")
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(variable_types[variable.id][1], variable)
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
@@ -139,7 +157,9 @@ def read_entity_data(description, path):
     read_kwargs = {}
     if entity_type == 'dask':
         lib = dd
-        read_kwargs['dtype'] = dtypes
+        # Times are read as text, they are converted below
+        read_kwargs['dtype'] = {column: 'object' if dtype.startswith(('datetime', 'timedelta')) else dtype
+                                for column, dtype in dtypes.items()}
     elif entity_type == 'koalas':
         import_error = 'Cannot load Koalas entityset - unable to import Koalas. ' \
                        'Consider doing a pip install with featuretools[koalas] to install Koalas with pip'
@@ -148,9 +168,20 @@ def read_entity_data(description, path):
         kwargs['compression'] = str(kwargs['compression'])
     else:
         lib = pd
+        read_kwargs['dtype'] = {column: str for column in description['loading_info'].get('string_columns', [])}
     if load_format == 'csv':
+        if entity_type != 'koalas':
+            # Only empty fields are missing values
+            read_kwargs['keep_default_na'] = False
+            read_kwargs['na_values'] = ['']
+            # Numbers have to be read to their last digit
+            if kwargs['engine'] == 'c':
+                read_kwargs['float_precision'] = 'round_trip'
+            else:
+                read_kwargs['dtype'].update({column: 'object' for column, dtype in dtypes.items() if dtype.startswith('float')})
         dataframe = lib.read_csv(
             file,
+            sep=kwargs.get('sep', ','),
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index dc85e78..92d44e5 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -1,10 +1,13 @@
 import datetime
+import glob
 import json
 import os
+import shutil
 import tarfile
 import tempfile
 
 import dask.dataframe as dd
+import pandas as pd
 
 from featuretools.utils.gen_utils import import_or_none, is_instance
 from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
@@ -76,6 +79,25 @@ def entityset_to_description(entityset):
     return data_description
 
 
+def _remove_old_parts(pattern, num_parts):
+    '''Remove partitions that an earlier write left beside those just written.'''
+    prefix, suffix = pattern.rsplit('*', 1)
+    # Dask pads the numbers in the names of csv files
+    width = len(str(num_parts - 1)) if suffix == '.csv' else 0
+    written = {str(i).zfill(width) for i in range(num_parts)}
+    for part in glob.glob(glob.escape(prefix) + '*' + suffix):
+        number = part[len(prefix):-len(suffix)]
+        if number.isdigit() and number not in written:
+            os.remove(part)
+
+
+def _string_columns(df):
+    '''Object columns in which every value that is not missing is a string.'''
+    columns = df.select_dtypes('object').columns
+    return [column for column in columns
+            if all(isinstance(value, str) for value in df[column].dropna())]
+
+
 def write_entity_data(entity, path, format='csv', **kwargs):
     '''Write entity data to disk or S3 path.
 
@@ -96,8 +118,18 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     location = os.path.join('data', basename)
     file = os.path.join(path, location)
     df = entity.df
+    loading_info = {'location': location, 'type': format, 'params': kwargs}
+
+    # Partitions are written to a directory, anything else to a file
+    if os.path.isdir(file) and isinstance(df, pd.DataFrame):
+        shutil.rmtree(file)
+    elif os.path.isfile(file) and not isinstance(df, pd.DataFrame):
+        os.remove(file)
 
     if format == 'csv':
+        if isinstance(df, pd.DataFrame):
+            # Strings that look like numbers, dates or missing values must not be converted when read
+            loading_info['string_columns'] = _string_columns(df)
         if is_instance(df, ks, 'DataFrame'):
             df = df.copy()
             columns = list(df.select_dtypes('object').columns)
@@ -115,7 +147,16 @@ def write_entity_data(entity, path, format='csv', **kwargs):
         # Issue is resolved by casting columns of dtype object to string.
         df = df.copy()
         columns = list(df.select_dtypes('object').columns)
-        df[columns] = df[columns].astype(str)
+        if isinstance(df, pd.DataFrame):
+            # Strings and booleans can be stored as they are
+            columns = [column for column in columns
+                       if pd.api.types.infer_dtype(df[column], skipna=True) not in ('string', 'boolean', 'empty')]
+        for column in columns:
+            # Missing values have to stay missing
+            if is_instance(df, ks, 'DataFrame'):
+                df[column] = df[column].astype(str)
+            else:
+                df[column] = df[column].astype(str).where(df[column].notnull(), None)
         df.to_parquet(file, **kwargs)
     elif format == 'pickle':
         # Dask currently does not support to_pickle
@@ -127,7 +168,10 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     else:
         error = 'must be one of the following formats: {}'
         raise ValueError(error.format(', '.join(FORMATS)))
-    return {'location': location, 'type': format, 'params': kwargs}
+    if isinstance(df, dd.DataFrame):
+        pattern = file if format == 'csv' else os.path.join(file, 'part.*.parquet')
+        _remove_old_parts(pattern, df.npartitions)
+    return loading_info
 
 
 def write_data_description(entityset, path, profile_name=None, **kwargs):
@@ -158,10 +202,13 @@ def write_data_description(entityset, path, profile_name=None, **kwargs):
 
 def dump_data_description(entityset, path, **kwargs):
     description = entityset_to_description(entityset)
+    file = os.path.join(path, 'data_description.json')
+    # Without a description nothing can be read until all of the data is written
+    if os.path.exists(file):
+        os.remove(file)
     for entity in entityset.entities:
         loading_info = write_entity_data(entity, path, **kwargs)
         description['entities'][entity.id]['loading_info'].update(loading_info)
-    file = os.path.join(path, 'data_description.json')
     with open(file, 'w') as file:
         json.dump(description, file)
 
-- 
2.43.0


From 1eddd38b7b78cec2056dc60db41e36758c070dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:39 +0000
Subject: [PATCH 16/44] fix: integer approximate windows round times down

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 35aa405..7254d1d 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -25,7 +25,7 @@ logger = logging.getLogger('featuretools.computational_backend')
 def bin_cutoff_times(cutoff_time, bin_size):
     binned_cutoff_time = cutoff_time.copy()
     if type(bin_size) == int:
-        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x / bin_size * bin_size)
+        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x // bin_size * bin_size)
     else:
         bin_size = _check_timedelta(bin_size)
         binned_cutoff_time['time'] = datetime_round(binned_cutoff_time['time'], bin_size)
-- 
2.43.0


From 300636949329b02804ca59efd13b6c61beaace34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:03 +0000
Subject: [PATCH 17/44] fix: approximated multi-output aggregations of unknown
 instances have all their columns

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 7254d1d..b1be8d1 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -124,7 +124,7 @@ def gather_approximate_features(feature_set):
 
 
 def gen_empty_approx_features_df(approx_features):
-    df = pd.DataFrame(columns=[f.get_name() for f in approx_features])
+    df = pd.DataFrame(columns=[name for f in approx_features for name in f.get_feature_names()])
     df.index.name = approx_features[0].entity.index
     return df
 
-- 
2.43.0


From 6af28ce4867573832b4ff3d024b80049ab37282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 18/44] fix: a feature grouped by its own base feature is saved
 with that base feature

---
 featuretools/feature_base/feature_base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4899143..87b6dd4 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -725,9 +725,8 @@ class GroupByTransformFeature(TransformFeature):
         return names
 
     def get_arguments(self):
-        # Do not include groupby in base_features.
-        feature_names = [feat.unique_name() for feat in self.base_features
-                         if feat.unique_name() != self.groupby.unique_name()]
+        # Do not include groupby, which is last in base_features.
+        feature_names = [feat.unique_name() for feat in self.base_features[:-1]]
         return {
             'name': self._name,
             'base_features': feature_names,
-- 
2.43.0


From 07040a9586c2e3285b4d6767fe7b7a4d710fbc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 19/44] fix: GroupByTransformFeature leaves the caller's list
 of base features alone

---
 featuretools/feature_base/feature_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 87b6dd4..ce5b6cd 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -689,7 +689,7 @@ class GroupByTransformFeature(TransformFeature):
         self.groupby = groupby
 
         if hasattr(base_features, '__iter__'):
-            base_features.append(groupby)
+            base_features = list(base_features) + [groupby]
         else:
             base_features = [base_features, groupby]
 
-- 
2.43.0


From 027f5ef12e8b009f409a848781ef7044404171ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 20/44] fix: a hook that changes the arguments it is told of
 does not change what other hooks are told

---
 featuretools/utils/entry_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entry_point.py b/featuretools/utils/entry_point.py
index a5db1fc..c7294bf 100644
--- a/featuretools/utils/entry_point.py
+++ b/featuretools/utils/entry_point.py
@@ -24,7 +24,7 @@ def entry_point(name):
 
             # send arguments before function is called
             for ep in entry_points:
-                ep.on_call(on_call_kwargs)
+                ep.on_call(on_call_kwargs.copy())
 
             try:
                 # call function
-- 
2.43.0


From 5ad9a74b8fd0bcbf1e70107dce34c035e75f401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 21/44] fix: an EntitySet whose first time column is a
 secondary time index can be built and described

---
 featuretools/entityset/entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 56c77d2..44e654e 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -433,7 +433,9 @@ class Entity(object):
             if time_type is None:
                 raise TypeError("%s time index not recognized as numeric or"
                                 " datetime" % (self.id))
-            if self.entityset.time_type != time_type:
+            if self.entityset.time_type is None:
+                self.entityset.time_type = time_type
+            elif self.entityset.time_type != time_type:
                 raise TypeError("%s time index is %s type which differs from"
                                 " other entityset time indexes" %
                                 (self.id, time_type))
-- 
2.43.0


From 1d1f135947d5f6e9c184dbc769eacf30d523340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 22/44] fix: hiding values governed by a secondary time index
 leaves the entity's data alone

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 98fc44e..4ad5f99 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -1014,6 +1014,8 @@ class EntitySet(object):
             df_empty = df.empty if isinstance(df, pd.DataFrame) else False
             if time_last is not None and not df_empty:
                 mask = df[secondary_time_index] >= time_last
+                # the dataframe may be the entity's own
+                df = df.copy()
                 if isinstance(df, dd.DataFrame):
                     for col in columns:
                         df[col] = df[col].mask(mask, np.nan)
-- 
2.43.0


From d6d4d9d99ee184616563db67b96183d7a2b046b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 23/44] fix: DFS builds the same features in the same order
 under every hash seed

---
 featuretools/synthesis/deep_feature_synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ccf8451..58e6e70 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -706,7 +706,7 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = list(self.where_clauses[child_entity.id])
+            wheres = sorted(self.where_clauses[child_entity.id], key=lambda f: f.unique_name())
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
@@ -915,7 +915,7 @@ def match(input_types, features, replace=False, commutative=False, require_direc
             matching_inputs.add(new_match)
 
     if commutative:
-        matching_inputs = {tuple(sorted(s, key=lambda x: x.get_name().lower())) for s in matching_inputs}
+        matching_inputs = {tuple(sorted(s, key=lambda x: (x.get_name().lower(), x.unique_name()))) for s in matching_inputs}
 
     return matching_inputs
 
-- 
2.43.0


From 8963fc6d41185ccc07183412da179192f32e28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 24/44] fix: naming a variable or giving it interesting values
 updates the EntitySet's metadata

---
 featuretools/variable_types/variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 6668ae1..feee39a 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -96,6 +96,8 @@ class Variable(object):
 
     @name.setter
     def name(self, name):
+        if name != self._name:
+            self.entity.entityset.reset_data_description()
         self._name = name
 
     @property
@@ -116,6 +118,7 @@ class Variable(object):
     def interesting_values(self, interesting_values):
         self._interesting_values = pd.Series(interesting_values,
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
     @property
     def series(self):
@@ -157,6 +160,7 @@ class Discrete(Variable):
         self._interesting_values = pd.Series([v for v in values if not
                                               (v in seen or seen_add(v))],
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
 
 class Boolean(Variable):
-- 
2.43.0


From 19febad6cc3a6ea9b75315db52edb5cd5ab24549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 25/44] fix: building an entity leaves the dataframe and
 arguments passed in as they were

---
 featuretools/entityset/entity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 44e654e..ee57835 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -61,6 +61,9 @@ class Entity(object):
                 Otherwise, assume index exists in dataframe.
         """
         _validate_entity_params(id, df, time_index)
+        if is_instance(df, (pd, dd), 'DataFrame'):
+            # columns get added and converted, the caller's dataframe keeps its own
+            df = df.copy(deep=False)
         created_index, index, df = _create_index(index, make_index, df)
 
         self.id = id
@@ -69,7 +72,8 @@ class Entity(object):
         self.created_index = created_index
         self._verbose = verbose
 
-        secondary_time_index = secondary_time_index or {}
+        secondary_time_index = {time: list(columns) for time, columns in
+                                (secondary_time_index or {}).items()}
         self._create_variables(variable_types, index, time_index, secondary_time_index)
 
         self.df = df[[v.id for v in self.variables]]
-- 
2.43.0


From f3a64e0f234709fb2d6b64262abd1a4efc076e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 26/44] fix: a refused conversion to numeric leaves the column
 as it was

---
 featuretools/utils/entity_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 1ef1f6a..f424468 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -154,14 +154,15 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
             df[column_id] = ks.to_numeric(df[column_id])
         else:
             orig_nonnull = df[column_id].dropna().shape[0]
-            df[column_id] = pd.to_numeric(df[column_id], errors='coerce')
+            converted = pd.to_numeric(df[column_id], errors='coerce')
             # This will convert strings to nans
             # If column contained all strings, then we should
             # just raise an error, because that shouldn't have
             # been converted to numeric
-            nonnull = df[column_id].dropna().shape[0]
+            nonnull = converted.dropna().shape[0]
             if nonnull == 0 and orig_nonnull != 0:
                 raise TypeError("Attempted to convert all string column {} to numeric".format(column_id))
+            df[column_id] = converted
     elif issubclass(new_type, vtypes.Datetime):
         format = kwargs.get("format", None)
         # TODO: if float convert to int?
-- 
2.43.0


From 8b2e1dd7d5eb11579ca4aecfc0472fc3a8edbf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 27/44] fix: normalize_entity leaves the caller's list of
 variables alone

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 4ad5f99..ad5ff47 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -616,6 +616,8 @@ class EntitySet(object):
             else:
                 transfer_types[v] = type(base_entity[v])
 
+        copy_variables = list(copy_variables)
+
         # create and add new entity
         new_entity_df = self[base_entity_id].df.copy()
 
-- 
2.43.0


From 3601aac1613da270de5d9744d4002c69c6f9c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:54 +0000
Subject: [PATCH 28/44] fix: an aggregation that another feature needs for all
 instances is not approximated

---
 featuretools/computational_backends/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index b1be8d1..4c512e0 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -117,6 +117,9 @@ def gather_approximate_features(feature_set):
                 base_feature = base_feature.base_features[0]
 
             if isinstance(base_feature, AggregationFeature):
+                if feature_set.uses_full_entity(base_feature, check_dependents=True):
+                    # another feature needs its values for all instances
+                    continue
                 node_feature_set = approximate_feature_trie.get_node(path).value
                 node_feature_set.add(base_feature.unique_name())
 
-- 
2.43.0


From ccdc4e37bdf824f22066cbba6b8d275232ae380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 29/44] fix: variables read back keep their names

---
 featuretools/entityset/deserialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 6cbfbe8..5f42b3e 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -36,6 +36,7 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
+        variable.name = description['properties'].get('name', variable.id)
         variable.interesting_values = read_interesting_values(description, variable)
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
@@ -83,6 +84,7 @@ def description_to_entity(description, entityset, path=None):
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
+        variable.name = variable_types[variable.id][1]['properties'].get('name', variable.id)
         variable.interesting_values = read_interesting_values(variable_types[variable.id][1], variable)
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
-- 
2.43.0


From 4e729820df20099055268718b00f8244f053b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 30/44] fix: a refused update or index leaves the entity's data
 as it was

---
 featuretools/entityset/entity.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index ee57835..30e9c2f 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -283,13 +283,18 @@ class Entity(object):
             if v.id not in df.columns:
                 raise ValueError("Updated dataframe is missing new {} column".format(v.id))
 
-        # Make sure column ordering matches variable ordering
-        self.df = df[[v.id for v in self.variables]]
-        self.set_index(self.index)
-        if self.time_index is not None:
-            self.set_time_index(self.time_index, already_sorted=already_sorted)
-
-        self.set_secondary_time_index(self.secondary_time_index)
+        previous_df = self.df
+        try:
+            # Make sure column ordering matches variable ordering
+            self.df = df[[v.id for v in self.variables]]
+            self.set_index(self.index)
+            if self.time_index is not None:
+                self.set_time_index(self.time_index, already_sorted=already_sorted)
+
+            self.set_secondary_time_index(self.secondary_time_index)
+        except BaseException:
+            self.df = previous_df
+            raise
         if recalculate_last_time_indexes and self.last_time_index is not None:
             self.entityset.add_last_time_indexes(updated_entities=[self.id])
         self.entityset.reset_data_description()
@@ -418,11 +423,12 @@ class Entity(object):
             unique (bool) : Whether to assert that the index is unique.
         """
         if isinstance(self.df, pd.DataFrame):
-            self.df = self.df.set_index(self.df[variable_id], drop=False)
-            self.df.index.name = None
+            df = self.df.set_index(self.df[variable_id], drop=False)
+            df.index.name = None
             if unique:
-                assert self.df.index.is_unique, "Index is not unique on dataframe " \
+                assert df.index.is_unique, "Index is not unique on dataframe " \
                     "(Entity {})".format(self.id)
+            self.df = df
 
         self.convert_variable_type(variable_id, vtypes.Index, convert_data=False)
         self.index = variable_id
-- 
2.43.0


From 4bd2cf235e1eea80c6ff0d6ef3f0c859f6ad1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 31/44] fix: updating data keeps the descriptions of the index
 and time index variables

---
 featuretools/entityset/entity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 30e9c2f..b3da2a7 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -211,8 +211,9 @@ class Entity(object):
 
         # replace the old variable with the new one, maintaining order
         variable = self._get_variable(variable_id)
-        new_variable = new_type.create_from(variable)
-        self.variables[self.variables.index(variable)] = new_variable
+        if convert_data or type(variable) != new_type:
+            new_variable = new_type.create_from(variable)
+            self.variables[self.variables.index(variable)] = new_variable
         self.entityset.reset_data_description()
 
     def _create_variables(self, variable_types, index, time_index, secondary_time_index):
-- 
2.43.0


From 9cf83dda1760f412f56e4ee3f0d5ef8921d0011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 32/44] fix: a refused relationship leaves the variables' types
 as they were

---
 featuretools/entityset/entityset.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index ad5ff47..5a416a6 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -261,15 +261,6 @@ class EntitySet(object):
             raise ValueError(msg.format(child_v, child_e.id))
         parent_e = relationship.parent_entity
         parent_v = relationship.parent_variable.id
-        if not isinstance(child_e[child_v], vtypes.Id):
-            child_e.convert_variable_type(variable_id=child_v,
-                                          new_type=vtypes.Id,
-                                          convert_data=False)
-
-        if not isinstance(parent_e[parent_v], vtypes.Index):
-            parent_e.convert_variable_type(variable_id=parent_v,
-                                           new_type=vtypes.Index,
-                                           convert_data=False)
         # Empty dataframes (as a result of accessing Entity.metadata)
         # default to object dtypes for discrete variables, but
         # indexes/ids default to ints. In this case, we convert
@@ -287,6 +278,16 @@ class EntitySet(object):
             raise ValueError(msg.format(parent_v, parent_e.id, parent_dtype,
                                         child_v, child_e.id, child_dtype))
 
+        if not isinstance(child_e[child_v], vtypes.Id):
+            child_e.convert_variable_type(variable_id=child_v,
+                                          new_type=vtypes.Id,
+                                          convert_data=False)
+
+        if not isinstance(parent_e[parent_v], vtypes.Index):
+            parent_e.convert_variable_type(variable_id=parent_v,
+                                           new_type=vtypes.Index,
+                                           convert_data=False)
+
         self.relationships.append(relationship)
         self.reset_data_description()
         return self
-- 
2.43.0


From c823d7960c2be01208cffa2c5d581d52ac0922b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 33/44] fix: an entity that cannot be built does not set the
 EntitySet's time type

---
 featuretools/entityset/entityset.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 5a416a6..33c5755 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -512,16 +512,21 @@ class EntitySet(object):
                                  "Cannot add entity of type {} to an entityset with existing entities "
                                  "of type {}".format(type(dataframe), type(self.entities[0].df)))
 
-        entity = Entity(
-            entity_id,
-            dataframe,
-            self,
-            variable_types=variable_types,
-            index=index,
-            time_index=time_index,
-            secondary_time_index=secondary_time_index,
-            already_sorted=already_sorted,
-            make_index=make_index)
+        time_type = self.time_type
+        try:
+            entity = Entity(
+                entity_id,
+                dataframe,
+                self,
+                variable_types=variable_types,
+                index=index,
+                time_index=time_index,
+                secondary_time_index=secondary_time_index,
+                already_sorted=already_sorted,
+                make_index=make_index)
+        except BaseException:
+            self.time_type = time_type
+            raise
         self.entity_dict[entity.id] = entity
         self.reset_data_description()
         return self
-- 
2.43.0


From b629b405ee10538b73822a026a3db7cc2df9833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 34/44] fix: concatenating EntitySets without last time indexes
 does not add them

---
 featuretools/entityset/entityset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 33c5755..ac0180c 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -761,7 +761,8 @@ class EntitySet(object):
             combined_es[entity.id].update_data(df=combined_df,
                                                recalculate_last_time_indexes=False)
 
-        combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
+        if has_last_time_index:
+            combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
         self.reset_data_description()
         return combined_es
 
-- 
2.43.0


From 3d555835415859019c55039d12acae8217eefb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 35/44] fix: deleting a variable that is listed twice deletes
 it instead of leaving the entity inconsistent

---
 featuretools/entityset/entity.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index b3da2a7..04825c7 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -376,9 +376,7 @@ class Entity(object):
             return
         self.df = self.df.drop(variable_ids, axis=1)
 
-        for v_id in variable_ids:
-            v = self._get_variable(v_id)
-            self.variables.remove(v)
+        self.variables = [v for v in self.variables if v.id not in variable_ids]
         self.entityset.reset_data_description()
 
     def set_time_index(self, variable_id, already_sorted=False):
-- 
2.43.0


From f791c12288b427349aa43ebbcc42bfaf01d8e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 36/44] fix: an interrupted add_relationship cannot leave
 metadata without the relationship

---
 featuretools/entityset/entityset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index ac0180c..0b4f561 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -288,8 +288,8 @@ class EntitySet(object):
                                            new_type=vtypes.Index,
                                            convert_data=False)
 
-        self.relationships.append(relationship)
         self.reset_data_description()
+        self.relationships.append(relationship)
         return self
 
     ###########################################################################
-- 
2.43.0


From 592c57a788a371081c1a2d5b716ea52a8e6d8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:10 +0000
Subject: [PATCH 37/44] fix: calculating last time indexes that fails or is
 interrupted leaves those there were

---
 featuretools/entityset/entityset.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 0b4f561..3404190 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -778,6 +778,16 @@ class EntitySet(object):
             updated_entities (list[str]): List of entity ids to update last_time_index for
                 (will update all parents of those entities as well)
         """
+        previous = {e.id: e.last_time_index for e in self.entities}
+        try:
+            self._calculate_last_time_indexes(updated_entities)
+        except BaseException:
+            for e in self.entities:
+                e.last_time_index = previous[e.id]
+            raise
+        self.reset_data_description()
+
+    def _calculate_last_time_indexes(self, updated_entities=None):
         # Generate graph of entities to find leaf entities
         children = defaultdict(list)  # parent --> child mapping
         child_vars = defaultdict(list)  # parent --> linking variable of each child
@@ -913,7 +923,6 @@ class EntitySet(object):
                     entity.last_time_index.name = 'last_time'
 
             explored.add(entity.id)
-        self.reset_data_description()
 
     ###########################################################################
     #  Other ###############################################
-- 
2.43.0


From 3d9e76435e3acf29a9472fb3ed06828abc2ae9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 38/44] fix: interesting times of variables survive
 serialization

---
 featuretools/entityset/deserialize.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 5f42b3e..6a704a4 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -6,6 +6,7 @@ import tempfile
 import dask.dataframe as dd
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_datetime64_any_dtype
 
 from featuretools.entityset.relationship import Relationship
 from featuretools.entityset.serialize import FORMATS
@@ -55,11 +56,14 @@ def read_interesting_values(description, variable):
     Returns:
         interesting_values (Series) : Values as they were in the serialized :class:`.Variable`.
     '''
-    # Only the values of datetime variables were times before they were serialized
-    return pd.read_json(description['properties']['interesting_values'],
-                        typ='series',
-                        dtype=False,
-                        convert_dates=isinstance(variable, Datetime))
+    values = pd.read_json(description['properties']['interesting_values'],
+                          typ='series',
+                          dtype=False,
+                          convert_dates=False)
+    # Only the values of variables holding times were times before they were serialized
+    if isinstance(variable, Datetime) or is_datetime64_any_dtype(variable.interesting_values):
+        values = pd.to_datetime(values, unit='ms')
+    return values
 
 
 def description_to_entity(description, entityset, path=None):
-- 
2.43.0


From 154b11633ede09329125244560d5c55c3e8a7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 39/44] fix: aggregations conditioned on their own base feature
 are aggregated like any other

_can_agg did not count a base feature that is also the where clause, so that
ALL(x.flag WHERE flag) could not be calculated for Dask entities.
---
 .../computational_backends/feature_set_calculator.py        | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 8d9be03..f30b0ef 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -776,15 +776,11 @@ class FeatureSetCalculator(object):
 
 def _can_agg(feature):
     assert isinstance(feature, AggregationFeature)
-    base_features = feature.base_features
-    if feature.where is not None:
-        base_features = [bf.get_name() for bf in base_features
-                         if bf.get_name() != feature.where.get_name()]
 
     if feature.primitive.uses_calc_time:
         return False
     single_output = feature.primitive.number_output_features == 1
-    return len(base_features) == 1 and single_output
+    return len(feature.base_features) == 1 and single_output
 
 
 def agg_wrapper(feats, time_last):
-- 
2.43.0


From a43c06cd461370eed4eaf160c7ab34f28a31252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 40/44] fix: aggregations of datetimes keep their dtype when
 there is no data

MONTH(LAST(x.date)) could not be calculated at a time before the first row of x.
---
 .../computational_backends/feature_set_calculator.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index f30b0ef..a1039b6 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -757,6 +757,14 @@ class FeatureSetCalculator(object):
                     frame[f.get_name()].isnull().all()):
                 frame[f.get_name()] = np.nan
 
+            # without any data the results would not have the dtype of a datetime
+            if (isinstance(frame, pd.DataFrame) and
+                    f.number_output_features == 1 and
+                    issubclass(f.variable_type, variable_types.Datetime) and
+                    not pdtypes.is_datetime64_any_dtype(frame[f.get_name()]) and
+                    frame[f.get_name()].isnull().all()):
+                frame[f.get_name()] = frame[f.get_name()].astype('datetime64[ns]')
+
         return frame
 
     def _necessary_columns(self, entity_id, feature_names):
-- 
2.43.0


From 92fbbdca67bffc334b7658402da2531d15837cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 41/44] fix: Mean(skipna=False) does not skip null values of
 Dask entities

---
 .../primitives/standard/aggregation_primitives.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 3a64d26..807aaf7 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -101,6 +101,21 @@ class Mean(AggregationPrimitive):
         self.skipna = skipna
 
     def get_function(self, agg_type=Library.PANDAS):
+        if agg_type == Library.DASK and not self.skipna:
+            def total(x):
+                return x.sum(skipna=False)
+
+            def chunk(s):
+                return s.agg(total), s.size()
+
+            def agg(totals, sizes):
+                return totals.agg(total), sizes.sum()
+
+            def finalize(totals, sizes):
+                return totals / sizes
+
+            return dd.Aggregation('mean_with_nulls', chunk=chunk, agg=agg, finalize=finalize)
+
         if agg_type in [Library.DASK, Library.KOALAS]:
             return 'mean'
 
-- 
2.43.0


From b02c74fbf24540f7e2b5b838584a5c586d62b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 42/44] fix: PercentTrue of columns of booleans with nulls can
 be calculated for Dask entities

---
 featuretools/primitives/standard/aggregation_primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 807aaf7..c5d748c 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -307,7 +307,7 @@ class PercentTrue(AggregationPrimitive):
         if agg_type == Library.DASK:
             def chunk(s):
                 def format_chunk(x):
-                    return x[:].fillna(0)
+                    return x[:].fillna(0).astype('bool')
 
                 chunk_sum = s.agg(lambda x: format_chunk(x).sum())
                 chunk_len = s.agg(lambda x: len(format_chunk(x)))
-- 
2.43.0


From 1498cd5a0d336f698dec29f33377df7e77a30aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 43/44] fix: the names of a feature with several outputs are
 kept only once they are complete

An interruption or another thread in between left a renamed feature with
the names it had before.
---
 featuretools/feature_base/feature_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index ce5b6cd..517f05b 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -88,9 +88,10 @@ class FeatureBase(object):
             if self.number_output_features == 1:
                 self._names = [self.get_name()]
             else:
-                self._names = self.generate_names()
+                names = self.generate_names()
                 if self.get_name() != self.generate_name():
-                    self._names = [self.get_name() + '[{}]'.format(i) for i in range(len(self._names))]
+                    names = [self.get_name() + '[{}]'.format(i) for i in range(len(names))]
+                self._names = names
         return self._names
 
     def get_function(self, **kwargs):
-- 
2.43.0


From 5997a1fb3e094b933fad42408982bbfa6022b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 44/44] fix: infer variable types from the same sample every
 time

The types of long tables were inferred from a random sample, so that the
same dataframe could get other variable types in another process, and
adding an entity advanced NumPy's global random state.
---
 featuretools/utils/entity_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index f424468..180ffb4 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -60,7 +60,7 @@ def infer_variable_types(df, link_vars, variable_types, time_index, secondary_ti
                 inferred_type = vtypes.Categorical
 
                 # heuristics to predict this some other than categorical
-                sample = df[variable].sample(min(10000, len(df[variable])))
+                sample = df[variable].sample(min(10000, len(df[variable])), random_state=0)
 
                 # catch cases where object dtype cannot be interpreted as a string
                 try:
@@ -84,7 +84,7 @@ def infer_variable_types(df, link_vars, variable_types, time_index, secondary_ti
 
         elif len(df[variable]):
             n = min(10000, len(df[variable]))
-            sample = df[variable].sample(n=n)
+            sample = df[variable].sample(n=n, random_state=0)
             n_unique = len(sample.unique())
             percent_unique = n_unique / sample.size
 
-- 
2.43.0


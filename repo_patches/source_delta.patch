From 9b20ef276df1f4d9c0e655a9af34f18cb4e0507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 01/91] fix: TimeSincePrevious reads other rows, so compute it
 on the full entity

---
 featuretools/primitives/standard/transform_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/primitives/standard/transform_primitive.py b/featuretools/primitives/standard/transform_primitive.py
index 5db373e..aca2db1 100644
--- a/featuretools/primitives/standard/transform_primitive.py
+++ b/featuretools/primitives/standard/transform_primitive.py
@@ -86,6 +86,7 @@ class TimeSincePrevious(TransformPrimitive):
     name = "time_since_previous"
     input_types = [DatetimeTimeIndex]
     return_type = Numeric
+    uses_full_entity = True
     description_template = "the time since the previous instance of {}"
 
     def __init__(self, unit="seconds"):
-- 
2.43.0


From bc9a5cc26ff78803ec2967172d5d42ef2167e07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 02/91] fix: name the link variable of a deep aggregation path
 by relationship, as the calculator does

---
 featuretools/utils/gen_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 9f35e1b..7ed11bb 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -26,7 +26,7 @@ def get_relationship_variable_id(path):
     child_link_name = r.child_variable.id
     for _, r in path[1:]:
         parent_link_name = child_link_name
-        child_link_name = '%s.%s' % (r.parent_entity.id,
+        child_link_name = '%s.%s' % (r.parent_name,
                                      parent_link_name)
     return child_link_name
 
-- 
2.43.0


From da4149642e75cdb017428f39f18e624cc2e17e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 03/91] fix: do not crash checking a Timedelta against a
 numeric time index

---
 featuretools/utils/wrangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 7166a70..d4e7c65 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -94,7 +94,7 @@ def _check_time_against_column(time, time_column):
     elif isinstance(time, Timedelta):
         return (isinstance(time_column, (variable_types.Datetime, variable_types.DatetimeTimeIndex)) or
                 (isinstance(time_column, (variable_types.Ordinal, variable_types.Numeric, variable_types.TimeIndex)) and
-                 time.unit not in Timedelta._time_units))
+                 not time.has_no_observations()))
     else:
         return False
 
-- 
2.43.0


From 2ac516a0f88a56d92aafbc28fd2a1ebcbac752be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 04/91] fix: keep the datetime dtype of an aggregated datetime
 feature without any value

---
 .../computational_backends/feature_set_calculator.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 88cd33e..e7e97ac 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -743,6 +743,14 @@ class FeatureSetCalculator(object):
                     frame[f.get_name()].dtype.name in ['object', 'bool']):
                 frame[f.get_name()] = frame[f.get_name()].astype(float)
 
+        # a datetime feature which has no values at all is still a datetime feature
+        if isinstance(frame, pd.DataFrame):
+            for f in features:
+                if issubclass(f.variable_type, variable_types.Datetime):
+                    for name in f.get_feature_names():
+                        if frame[name].isnull().all():
+                            frame[name] = pd.to_datetime(frame[name])
+
         return frame
 
     def _necessary_columns(self, entity_id, feature_names):
-- 
2.43.0


From ecd425c36b640dc64a5a320529ec99c205efa0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 05/91] fix: aggregations computed by apply need a column when
 no child row has a parent

---
 .../feature_set_calculator.py                  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index e7e97ac..6825a5f 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -685,12 +685,18 @@ class FeatureSetCalculator(object):
                 # to silence pandas warning about ambiguity we explicitly pass
                 # the column (in actuality grouping by both index and group would
                 # work)
-                to_merge = base_frame.groupby(base_frame[groupby_var],
-                                              observed=True,
-                                              sort=False).apply(wrap)
-                frame = pd.merge(left=frame, right=to_merge,
-                                 left_index=True,
-                                 right_index=True, how='left')
+                grouped = base_frame.groupby(base_frame[groupby_var],
+                                             observed=True,
+                                             sort=False)
+                if len(grouped):
+                    to_merge = grouped.apply(wrap)
+                    frame = pd.merge(left=frame, right=to_merge,
+                                     left_index=True,
+                                     right_index=True, how='left')
+                else:
+                    # no rows are linked to an instance, so there is nothing to apply to
+                    frame = update_feature_columns([(f, np.full(f.number_output_features, np.nan))
+                                                    for f in to_apply], frame)
 
                 progress_callback(len(to_apply) / float(self.num_features))
 
-- 
2.43.0


From 6e76831e9cd3848573256656313ffaafc5470532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 06/91] fix: last time index must use every relationship to a
 child entity

---
 featuretools/entityset/entityset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 18ad9a4..3f3062f 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -771,10 +771,10 @@ class EntitySet(object):
         """
         # Generate graph of entities to find leaf entities
         children = defaultdict(list)  # parent --> child mapping
-        child_vars = defaultdict(dict)
+        child_vars = defaultdict(list)  # parent --> variables linking to each of its children
         for r in self.relationships:
             children[r.parent_entity.id].append(r.child_entity)
-            child_vars[r.parent_entity.id][r.child_entity.id] = r.child_variable
+            child_vars[r.parent_entity.id].append(r.child_variable)
 
         updated_entities = updated_entities or []
         if updated_entities:
@@ -843,11 +843,11 @@ class EntitySet(object):
                     continue
 
                 # updated last time from all children
-                for child_e in child_entities:
+                for child_e, child_var in zip(child_entities, child_vars[entity.id]):
                     # TODO: Figure out if Dask code related to indexes is important for Koalas
                     if child_e.last_time_index is None:
                         continue
-                    link_var = child_vars[entity.id][child_e.id].id
+                    link_var = child_var.id
 
                     lti_is_dask = isinstance(child_e.last_time_index, dd.Series)
                     lti_is_koalas = is_instance(child_e.last_time_index, ks, 'Series')
-- 
2.43.0


From 15b70ae41275c598c8b9da7b4a44dd4ebb5972b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 07/91] fix: a missing last time of one child row must not hide
 another's

---
 featuretools/entityset/entityset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 3f3062f..e7d11b0 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -874,7 +874,7 @@ class EntitySet(object):
 
                         # sort by time and keep only the most recent
                         lti_df.sort_values(['last_time', entity.index],
-                                           kind="mergesort", inplace=True)
+                                           kind="mergesort", na_position='first', inplace=True)
 
                         lti_df.drop_duplicates(entity.index,
                                                keep='last',
-- 
2.43.0


From b8771f6628a76ba2b16d195c7cd71c0274753ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 08/91] fix: compute a multi-output aggregation before the
 features built on its output slices

---
 featuretools/computational_backends/feature_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 776c5d6..bac3a48 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -179,8 +179,9 @@ class FeatureSet(object):
 
             depths[f.unique_name()] = order[f.unique_name()]
 
-            # Only look at dependencies if they are on the same entity.
-            if not f.relationship_path:
+            # Only look at dependencies if they are on the same entity (as the
+            # base of an output slice always is).
+            if not f.relationship_path or isinstance(f, FeatureOutputSlice):
                 dependencies = f.get_dependencies()
                 for dep in dependencies:
                     order[dep.unique_name()] = \
-- 
2.43.0


From 9466b029c4975dc4efa639299973b44e0634c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 09/91] fix: group features by every unit of their use_previous
 window

---
 featuretools/computational_backends/feature_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index bac3a48..5e05a11 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -204,10 +204,10 @@ class FeatureSet(object):
 # These functions are used for sorting and grouping features
 
 
-def _get_use_previous(f):  # TODO Sort and group features for DateOffset with two different temporal values
+def _get_use_previous(f):
     if isinstance(f, AggregationFeature) and f.use_previous is not None:
         if len(f.use_previous.times.keys()) > 1:
-            return ("", -1)
+            return (f.use_previous.get_name(), -1)
         else:
             unit = list(f.use_previous.times.keys())[0]
             value = f.use_previous.times[unit]
-- 
2.43.0


From fd39bece726f056c23e15f9bc70d7d35f40a5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 10/91] fix: aggregate the same variable by the same function
 once, and copy it for further features

---
 .../feature_set_calculator.py                 | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 6825a5f..afd65ae 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -1,5 +1,4 @@
 from datetime import datetime
-from functools import partial
 
 import dask.dataframe as dd
 import numpy as np
@@ -631,6 +630,7 @@ class FeatureSetCalculator(object):
 
             to_agg = {}
             agg_rename = {}
+            agg_copies = {}
             to_apply = set()
             # apply multivariable and time-dependent features as we find them, and
             # save aggregable features for later
@@ -655,19 +655,20 @@ class FeatureSetCalculator(object):
 
                     funcname = func
                     if callable(func):
-                        # if the same function is being applied to the same
-                        # variable twice, wrap it in a partial to avoid
-                        # duplicate functions
                         funcname = str(id(func))
-                        if u"{}-{}".format(variable_id, funcname) in agg_rename:
-                            func = partial(func)
-                            funcname = str(id(func))
 
+                    # if the same function is being applied to the same
+                    # variable twice, compute it once and copy the result
+                    agg_key = u"{}-{}".format(variable_id, funcname)
+                    if agg_key in agg_rename:
+                        agg_copies[f.get_name()] = agg_rename[agg_key]
+                        continue
+
+                    if callable(func):
                         func.__name__ = funcname
 
                     if isinstance(func, dd.Aggregation):
                         # TODO: handle aggregation being applied to same variable twice
-                        # (see above partial wrapping of functions)
                         funcname = func.__name__
 
                     to_agg[variable_id].append(func)
@@ -729,8 +730,11 @@ class FeatureSetCalculator(object):
                     frame = pd.merge(left=frame, right=to_merge,
                                      left_index=True, right_index=True, how='left')
 
+                for name, computed_name in agg_copies.items():
+                    frame[name] = frame[computed_name]
+
                 # determine number of features that were just merged
-                progress_callback(len(to_merge.columns) / float(self.num_features))
+                progress_callback((len(to_merge.columns) + len(agg_copies)) / float(self.num_features))
 
         # Handle default values
         fillna_dict = {}
-- 
2.43.0


From f3094c811f49d29c9c4fec15803ad1348b8b8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 11/91] fix: a use_previous window without any child row
 aggregates like no child rows at all

---
 .../feature_set_calculator.py                 | 66 +++++++++----------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index afd65ae..14784d8 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -596,8 +596,33 @@ class FeatureSetCalculator(object):
         if where is not None and not base_frame_empty:
             base_frame = base_frame.loc[base_frame[where.get_name()]]
 
+        groupby_var = get_relationship_variable_id(test_feature.relationship_path)
+
+        # if the use_previous property exists on this feature, include only the
+        # instances from the child entity included in that Timedelta
+        use_previous = test_feature.use_previous
+        base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
+        if use_previous and not base_frame_empty:
+            # Filter by use_previous values
+            time_last = self.time_last
+            if use_previous.has_no_observations():
+                time_first = time_last - use_previous
+                ti = child_entity.time_index
+                if ti is not None:
+                    base_frame = base_frame[base_frame[ti] >= time_first]
+            else:
+                n = use_previous.get_value('o')
+
+                def last_n(df):
+                    return df.iloc[-n:]
+
+                base_frame = base_frame.groupby(groupby_var, observed=True, sort=False).apply(last_n)
+
         # when no child data, just add all the features to frame with nan
         base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
+        if not base_frame_empty and isinstance(base_frame, pd.DataFrame):
+            # child data which is not linked to any instance is no data either
+            base_frame_empty = base_frame[groupby_var].isnull().all()
         if base_frame_empty:
             feature_values = []
             for f in features:
@@ -605,29 +630,6 @@ class FeatureSetCalculator(object):
                 progress_callback(1 / float(self.num_features))
             frame = update_feature_columns(feature_values, frame)
         else:
-            relationship_path = test_feature.relationship_path
-
-            groupby_var = get_relationship_variable_id(relationship_path)
-
-            # if the use_previous property exists on this feature, include only the
-            # instances from the child entity included in that Timedelta
-            use_previous = test_feature.use_previous
-            if use_previous:
-                # Filter by use_previous values
-                time_last = self.time_last
-                if use_previous.has_no_observations():
-                    time_first = time_last - use_previous
-                    ti = child_entity.time_index
-                    if ti is not None:
-                        base_frame = base_frame[base_frame[ti] >= time_first]
-                else:
-                    n = use_previous.get_value('o')
-
-                    def last_n(df):
-                        return df.iloc[-n:]
-
-                    base_frame = base_frame.groupby(groupby_var, observed=True, sort=False).apply(last_n)
-
             to_agg = {}
             agg_rename = {}
             agg_copies = {}
@@ -686,18 +688,12 @@ class FeatureSetCalculator(object):
                 # to silence pandas warning about ambiguity we explicitly pass
                 # the column (in actuality grouping by both index and group would
                 # work)
-                grouped = base_frame.groupby(base_frame[groupby_var],
-                                             observed=True,
-                                             sort=False)
-                if len(grouped):
-                    to_merge = grouped.apply(wrap)
-                    frame = pd.merge(left=frame, right=to_merge,
-                                     left_index=True,
-                                     right_index=True, how='left')
-                else:
-                    # no rows are linked to an instance, so there is nothing to apply to
-                    frame = update_feature_columns([(f, np.full(f.number_output_features, np.nan))
-                                                    for f in to_apply], frame)
+                to_merge = base_frame.groupby(base_frame[groupby_var],
+                                              observed=True,
+                                              sort=False).apply(wrap)
+                frame = pd.merge(left=frame, right=to_merge,
+                                 left_index=True,
+                                 right_index=True, how='left')
 
                 progress_callback(len(to_apply) / float(self.num_features))
 
-- 
2.43.0


From 0916db5893050e8335bd1d7cc0d273ed3531a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 12/91] fix: compute every direct feature when two share a base
 feature

---
 .../computational_backends/feature_set_calculator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 14784d8..ae3896d 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -537,18 +537,23 @@ class FeatureSetCalculator(object):
         # new column names (in the child entity) for the merge
         col_map = {relationship.parent_variable.id: merge_var}
         index_as_feature = None
+        # features (by name) with the same base feature as another one
+        copies = {}
 
         fillna_dict = {}
         for f in features:
             feature_defaults = {name: f.default_value
                                 for name in f.get_feature_names() if not pd.isna(f.default_value)}
             fillna_dict.update(feature_defaults)
-            if f.base_features[0].get_name() == relationship.parent_variable.id:
-                index_as_feature = f
             base_names = f.base_features[0].get_feature_names()
             for name, base_name in zip(f.get_feature_names(), base_names):
                 if name in child_df.columns:
                     continue
+                if col_map.get(base_name, merge_var) != merge_var:
+                    copies[name] = col_map[base_name]
+                    continue
+                if base_name == relationship.parent_variable.id:
+                    index_as_feature = f
                 col_map[base_name] = name
 
         # merge the identity feature from the parent entity into the child
@@ -567,6 +572,9 @@ class FeatureSetCalculator(object):
             new_df = child_df.merge(merge_df, left_on=merge_var, right_index=True,
                                     how='left')
 
+        for name, merged_name in copies.items():
+            new_df[name] = new_df[merged_name]
+
         progress_callback(len(features) / float(self.num_features))
 
         return new_df.fillna(fillna_dict)
-- 
2.43.0


From fe705931afedc437233ebebe7e997f7bdb51b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 13/91] fix: an EntitySet persisted on a dask cluster must not
 be reused for other data

---
 .../computational_backends/calculate_feature_matrix.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index d690bb2..836d042 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -600,13 +600,15 @@ def parallel_calculate_chunks(cutoff_time, chunk_size, feature_set, approximate,
         # scatter the entityset
         # denote future with leading underscore
         start = time.time()
-        es_token = "EntitySet-{}".format(tokenize(entityset))
+        # the token of an EntitySet only covers its metadata, so add its data
+        data = [(entity.df, entity.last_time_index) for entity in entityset.entities]
+        es_token = "EntitySet-{}".format(tokenize(entityset, data))
         if es_token in client.list_datasets():
             msg = "Using EntitySet persisted on the cluster as dataset {}"
             progress_bar.write(msg.format(es_token))
             _es = client.get_dataset(es_token)
         else:
-            _es = client.scatter([entityset])[0]
+            _es = client.scatter({es_token: entityset})[es_token]
             client.publish_dataset(**{_es.key: _es})
 
         # save features to a tempfile and scatter it
-- 
2.43.0


From bb824b0e835ba5becf9f2155e0c18b4569e6facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 14/91] fix: save_progress file names use the 24-hour clock, so
 morning and evening do not collide

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0fc4d59..211e6e2 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -38,7 +38,7 @@ def save_csv_decorator(save_progress=None):
                 r = method(*args, **kwargs)
             else:
                 time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%I-%M-%S-%f") + '.csv'
+                file_name = 'ft_' + time.strftime("%Y_%m_%d_%H-%M-%S-%f") + '.csv'
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
                 if not os.path.exists(temp_dir):
-- 
2.43.0


From 9780e7ab530907b61ae8e2766ad5cfaa13933c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 15/91] fix: save_progress with numeric cutoff times and with
 approximate

---
 featuretools/computational_backends/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 211e6e2..4818998 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -37,8 +37,11 @@ def save_csv_decorator(save_progress=None):
             if save_progress is None:
                 r = method(*args, **kwargs)
             else:
-                time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%H-%M-%S-%f") + '.csv'
+                time = args[0]
+                # cutoff times of a numeric time index have no strftime
+                if hasattr(time, 'strftime'):
+                    time = time.strftime("%Y_%m_%d_%H-%M-%S-%f")
+                file_name = 'ft_{}.csv'.format(time)
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
                 if not os.path.exists(temp_dir):
-- 
2.43.0


From 687c03a01804aa4767528d11db08307e60465abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 16/91] fix: save_progress keeps every chunk of a cutoff time
 instead of overwriting the previous one

---
 featuretools/computational_backends/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 4818998..4ede435 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -1,3 +1,4 @@
+import hashlib
 import logging
 import os
 import warnings
@@ -41,7 +42,9 @@ def save_csv_decorator(save_progress=None):
                 # cutoff times of a numeric time index have no strftime
                 if hasattr(time, 'strftime'):
                     time = time.strftime("%Y_%m_%d_%H-%M-%S-%f")
-                file_name = 'ft_{}.csv'.format(time)
+                # chunks of the same cutoff time are told apart by their instances
+                digest = hashlib.md5(repr(list(args[1])).encode()).hexdigest()[:8]
+                file_name = 'ft_{}_{}.csv'.format(time, digest)
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
                 if not os.path.exists(temp_dir):
-- 
2.43.0


From 673978cd2245867ed0087ecd18ba8b96e117c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 17/91] fix: parallel workers must not race to create the
 save_progress temp folder

---
 featuretools/computational_backends/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 4ede435..88b755a 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -47,8 +47,8 @@ def save_csv_decorator(save_progress=None):
                 file_name = 'ft_{}_{}.csv'.format(time, digest)
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
-                if not os.path.exists(temp_dir):
-                    os.makedirs(temp_dir)
+                # several workers may get here at once
+                os.makedirs(temp_dir, exist_ok=True)
                 temp_file_path = os.path.join(temp_dir, file_name)
                 r = method(*args, **kwargs)
                 r.to_csv(temp_file_path)
-- 
2.43.0


From f01a6cab34dc97c7a4ec8af60eb4055ca20aa43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 18/91] fix: binning numeric cutoff times must round down to
 the bin

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 88b755a..a7e48f1 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -24,7 +24,7 @@ logger = logging.getLogger('featuretools.computational_backend')
 def bin_cutoff_times(cutoff_time, bin_size):
     binned_cutoff_time = cutoff_time.copy()
     if type(bin_size) == int:
-        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x / bin_size * bin_size)
+        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x // bin_size * bin_size)
     else:
         bin_size = _check_timedelta(bin_size)
         binned_cutoff_time['time'] = datetime_round(binned_cutoff_time['time'], bin_size)
-- 
2.43.0


From 3f95060fd54858ad1d08f78a89a4fed41f8b24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 19/91] fix: creating an entity must not add or convert columns
 of the user's dataframe

---
 featuretools/entityset/entity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1683379..3f6cb4d 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -61,6 +61,9 @@ class Entity(object):
                 Otherwise, assume index exists in dataframe.
         """
         _validate_entity_params(id, df, time_index)
+        # a created index and converted columns must not show up in the user's dataframe
+        if isinstance(df, pd.DataFrame):
+            df = df.copy(deep=False)
         created_index, index, df = _create_index(index, make_index, df)
 
         self.id = id
-- 
2.43.0


From d6dddf91a853a694b42f8f3f84409a077b498de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 20/91] fix: setting a secondary time index must not change the
 user's lists

---
 featuretools/entityset/entity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 3f6cb4d..b3e3b3a 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -425,6 +425,7 @@ class Entity(object):
         self.index = variable_id
 
     def set_secondary_time_index(self, secondary_time_index):
+        checked = {}
         for time_index, columns in secondary_time_index.items():
             if is_instance(self.df, (dd, ks), 'DataFrame') or self.df.empty:
                 time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[time_index]._default_pandas_dtype]
@@ -439,9 +440,10 @@ class Entity(object):
                                 " other entityset time indexes" %
                                 (self.id, time_type))
             if time_index not in columns:
-                columns.append(time_index)
+                columns = columns + [time_index]
+            checked[time_index] = columns
 
-        self.secondary_time_index = secondary_time_index
+        self.secondary_time_index = checked
 
 
 def _create_index(index, make_index, df):
-- 
2.43.0


From 995a57f8973d3ec5e7ac45222edcbd1c74f2b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 21/91] fix: normalize_entity must not append to the user's
 copy_variables

---
 featuretools/entityset/entityset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index e7d11b0..f7f0436 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -639,7 +639,7 @@ class EntitySet(object):
                 "Base entity doesn't have time_index defined"
 
             if base_time_index not in [v for v in additional_variables]:
-                copy_variables.append(base_time_index)
+                copy_variables = copy_variables + [base_time_index]
 
             transfer_types[new_entity_time_index] = type(base_entity[base_entity.time_index])
         else:
-- 
2.43.0


From 0056cbdf35c80db7263c4cfa8c6787eda5a95a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 22/91] fix: a groupby feature must not append to the list of
 base features it is given

---
 featuretools/feature_base/feature_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4899143..8170963 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -689,7 +689,7 @@ class GroupByTransformFeature(TransformFeature):
         self.groupby = groupby
 
         if hasattr(base_features, '__iter__'):
-            base_features.append(groupby)
+            base_features = list(base_features) + [groupby]
         else:
             base_features = [base_features, groupby]
 
-- 
2.43.0


From cf942bb5374dafe3c9fe936eda52d97fc0cfe4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 23/91] fix: hiding values after a secondary time must not
 overwrite the entity's own dataframe

---
 featuretools/entityset/entityset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index f7f0436..827e7b0 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -1019,6 +1019,7 @@ class EntitySet(object):
                 elif is_instance(df, ks, 'DataFrame'):
                     df.loc[mask, columns] = None
                 else:
+                    df = df.copy()
                     df.loc[mask, columns] = np.nan
 
         return df
-- 
2.43.0


From cdce0838c5844a92ae54fdd477168b99a43459e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:24 +0000
Subject: [PATCH 24/91] fix: describe where clauses which do not compare with a
 value

---
 featuretools/feature_base/feature_descriptions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index e2dbe46..05a7da9 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -100,10 +100,14 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     # Generate where phrase
     where = ''
     if hasattr(feature, 'where') and feature.where:
-        where_col = generate_description(feature.where.base_features[0],
+        where_feature, where_value = feature.where, True
+        # a comparison with a value is described by what is compared
+        if hasattr(feature.where.primitive, 'value'):
+            where_feature, where_value = feature.where.base_features[0], feature.where.primitive.value
+        where_col = generate_description(where_feature,
                                          feature_descriptions,
                                          primitive_templates)
-        where = 'where {} is {}'.format(where_col, feature.where.primitive.value)
+        where = 'where {} is {}'.format(where_col, where_value)
 
     # Join all parts of template
     description_template = [primitive_description, entity_description, where, groupby]
-- 
2.43.0


From 5e82d74ae7b684ba7aeaa7cba587ac9d632ee927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 25/91] fix: a secondary time index may be the first to decide
 the EntitySet's time type

---
 featuretools/entityset/entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index b3e3b3a..15ed769 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -435,7 +435,9 @@ class Entity(object):
             if time_type is None:
                 raise TypeError("%s time index not recognized as numeric or"
                                 " datetime" % (self.id))
-            if self.entityset.time_type != time_type:
+            if self.entityset.time_type is None:
+                self.entityset.time_type = time_type
+            elif self.entityset.time_type != time_type:
                 raise TypeError("%s time index is %s type which differs from"
                                 " other entityset time indexes" %
                                 (self.id, time_type))
-- 
2.43.0


From 97103378c60c526600727bb15ed51682d4b3ce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 26/91] fix: computing on a cluster must not remove entries of
 the user's dask_kwargs

---
 featuretools/computational_backends/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index a7e48f1..a9ed281 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -142,6 +142,7 @@ def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
     Client, LocalCluster = get_client_cluster()
 
     cluster = None
+    dask_kwargs = dict(dask_kwargs)
     if 'cluster' in dask_kwargs:
         cluster = dask_kwargs['cluster']
     else:
-- 
2.43.0


From 6e726a88c45921727f824c12e0624713d8a03ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 27/91] fix: a numpy datetime64 cutoff time works with windows
 too

---
 featuretools/computational_backends/utils.py | 3 +++
 featuretools/entityset/entityset.py          | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index a9ed281..8ed5203 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -5,6 +5,7 @@ import warnings
 from functools import wraps
 
 import dask.dataframe as dd
+import numpy as np
 import pandas as pd
 import psutil
 
@@ -256,6 +257,8 @@ def _validate_cutoff_time(cutoff_time, target_entity):
     else:
         if isinstance(cutoff_time, list):
             raise TypeError("cutoff_time must be a single value or DataFrame")
+        if isinstance(cutoff_time, np.datetime64):
+            cutoff_time = pd.Timestamp(cutoff_time)
 
     return cutoff_time
 
diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 827e7b0..facae96 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -978,7 +978,7 @@ class EntitySet(object):
         dataframe.
         """
         dt = self[entity_id]
-        if is_instance(df, ks, 'DataFrame') and isinstance(time_last, np.datetime64):
+        if isinstance(time_last, np.datetime64):
             time_last = pd.to_datetime(time_last)
         if dt.time_index:
             df_empty = df.empty if isinstance(df, pd.DataFrame) else False
-- 
2.43.0


From 29c068411e47142d5f677a787fb694cdab03bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 28/91] fix: instance ids given as a series beside a cutoff
 time dataframe are ignored, not ambiguous

---
 featuretools/computational_backends/calculate_feature_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 836d042..894d87e 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -160,7 +160,7 @@ def calculate_feature_matrix(features, entityset=None, cutoff_time=None, instanc
     cutoff_time = _validate_cutoff_time(cutoff_time, target_entity)
 
     if isinstance(cutoff_time, pd.DataFrame):
-        if instance_ids:
+        if instance_ids is not None and len(instance_ids) > 0:
             msg = "Passing 'instance_ids' is valid only if 'cutoff_time' is a single value or None - ignoring"
             warnings.warn(msg)
         pass_columns = [col for col in cutoff_time.columns if col not in ['instance_id', 'time']]
-- 
2.43.0


From edeb555608fec0b5f9e3579d340c7a520fed4b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 29/91] fix: base_of_exclude of a primitive crashed dfs instead
 of being respected

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ccf8451..820893c 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -852,7 +852,7 @@ def check_stacking(primitive, inputs):
 
     for f in inputs:
         if f.primitive.base_of_exclude is not None:
-            if primitive in f.base_of_exclude:
+            if primitive.__class__ in f.primitive.base_of_exclude:
                 return False
 
     for f in inputs:
-- 
2.43.0


From 5e27696b015709ac7d8325101a136c2a20c1b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 30/91] fix: the order of where features must not depend on the
 string hash seed

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 820893c..d0d8377 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -706,7 +706,7 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = list(self.where_clauses[child_entity.id])
+            wheres = sorted(self.where_clauses[child_entity.id], key=lambda f: f.unique_name())
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
-- 
2.43.0


From bfc1d6b7fe7d8bab0997b8cb6960177ac79ef22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 31/91] fix: the order of the inputs of commutative primitives
 must not depend on the string hash seed

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index d0d8377..89c19bb 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -915,7 +915,7 @@ def match(input_types, features, replace=False, commutative=False, require_direc
             matching_inputs.add(new_match)
 
     if commutative:
-        matching_inputs = {tuple(sorted(s, key=lambda x: x.get_name().lower())) for s in matching_inputs}
+        matching_inputs = {tuple(sorted(s, key=lambda x: (x.get_name().lower(), x.get_name()))) for s in matching_inputs}
 
     return matching_inputs
 
-- 
2.43.0


From a8d0621a059706041a206d4c1990ae8d44997454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 32/91] fix: filling missing LatLong values must use the index
 of the values

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 1ef1f6a..d8a846a 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -225,4 +225,4 @@ def col_is_datetime(col):
 
 def replace_latlong_nan(values):
     """replace a single `NaN` value with a tuple: `(np.nan, np.nan)`"""
-    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values)))
+    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values), index=values.index))
-- 
2.43.0


From e47b76bc146bf76460380e3f32da6cc4d1bd5ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 33/91] fix: a direct feature as groupby counts as direct input
 of a groupby feature

---
 featuretools/synthesis/deep_feature_synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 89c19bb..e810c80 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -633,7 +633,7 @@ class DeepFeatureSynthesis(object):
             for matching_input in matching_inputs:
                 if (all(bf.number_output_features == 1 for bf in matching_input) and
                         check_transform_stacking(matching_input)):
-                    for groupby in groupby_matches:
+                    for groupby, in groupby_matches:
                         if require_direct_input and (
                             _all_direct_and_same_path(matching_input + (groupby,)) or
                             not any([isinstance(feature, DirectFeature) for
@@ -641,7 +641,7 @@ class DeepFeatureSynthesis(object):
                         ):
                             continue
                         new_f = GroupByTransformFeature(list(matching_input),
-                                                        groupby=groupby[0],
+                                                        groupby=groupby,
                                                         primitive=groupby_prim)
                         features_to_add.append(new_f)
         for new_f in features_to_add:
-- 
2.43.0


From 88f0dcc3ddc22e9a0f250826595df338d75d6064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 34/91] fix: an included entity takes priority over an ignored
 one in primitive options

---
 featuretools/primitives/options_utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/featuretools/primitives/options_utils.py b/featuretools/primitives/options_utils.py
index 7c465f8..cd42d56 100644
--- a/featuretools/primitives/options_utils.py
+++ b/featuretools/primitives/options_utils.py
@@ -178,9 +178,9 @@ def variable_filter(f, options, groupby=False):
             if ignore_vars in options and base_f.entity.id in options[ignore_vars]:
                 if base_f.get_name() in options[ignore_vars][base_f.entity.id]:
                     return False  # ignore this feature
-        if include_entities in options and \
-                base_f.entity.id not in options[include_entities]:
-            return False  # not an included entity
+        if include_entities in options:
+            if base_f.entity.id not in options[include_entities]:
+                return False  # not an included entity
         elif ignore_entities in options and \
                 base_f.entity.id in options[ignore_entities]:
             return False  # ignore the entity
@@ -192,14 +192,15 @@ def ignore_entity_for_primitive(options, entity, groupby=False):
     def should_ignore_entity(option):
         if groupby:
             if 'include_groupby_variables' not in option or entity.id not in option['include_groupby_variables']:
-                if 'include_groupby_entities' in option and entity.id not in option['include_groupby_entities']:
-                    return True
+                if 'include_groupby_entities' in option:
+                    if entity.id not in option['include_groupby_entities']:
+                        return True
                 elif 'ignore_groupby_entities' in option and entity.id in option['ignore_groupby_entities']:
                     return True
         if 'include_variables' in option and entity.id in option['include_variables']:
             return False
-        elif 'include_entities' in option and entity.id not in option['include_entities']:
-            return True
+        elif 'include_entities' in option:
+            return entity.id not in option['include_entities']
         elif entity.id in option['ignore_entities']:
             return True
         else:
-- 
2.43.0


From 13568c84a860a59d0828929a3eced3c5fe8af7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 35/91] fix: a groupby feature on the column it is grouped by
 is saved with its input

---
 featuretools/feature_base/feature_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 8170963..21ca307 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -726,8 +726,7 @@ class GroupByTransformFeature(TransformFeature):
 
     def get_arguments(self):
         # Do not include groupby in base_features.
-        feature_names = [feat.unique_name() for feat in self.base_features
-                         if feat.unique_name() != self.groupby.unique_name()]
+        feature_names = [feat.unique_name() for feat in self.base_features[:-1]]
         return {
             'name': self._name,
             'base_features': feature_names,
-- 
2.43.0


From 472c5cd645d80b1f8ea185f6739429288b3bf9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 36/91] fix: renamed identity features can be calculated

---
 .../computational_backends/feature_set_calculator.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index ae3896d..9c24007 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -423,8 +423,11 @@ class FeatureSetCalculator(object):
 
     def _calculate_identity_features(self, features, df, _df_trie, progress_callback):
         for f in features:
-            assert f.get_name() in df.columns, (
-                'Column "%s" missing frome dataframe' % f.get_name())
+            assert f.variable.id in df.columns, (
+                'Column "%s" missing frome dataframe' % f.variable.id)
+            # the feature may have been renamed
+            if f.get_name() not in df.columns:
+                df[f.get_name()] = df[f.variable.id]
 
         progress_callback(len(features) / float(self.num_features))
 
-- 
2.43.0


From c2c4431f2357c06d88659c766c2e1c820fd93dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 37/91] fix: single outputs of multi-output features can be
 calculated

---
 featuretools/computational_backends/feature_set.py  | 13 ++++++++-----
 .../feature_set_calculator.py                       | 13 +++++++++++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 5e05a11..f927ea1 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -107,6 +107,11 @@ class FeatureSet(object):
 
         name = feature.unique_name()
 
+        # The base of an output slice is on the same entity.
+        relationship_path = feature.relationship_path
+        if isinstance(feature, FeatureOutputSlice):
+            relationship_path = []
+
         # If this feature is ignored then don't add it or any of its dependencies.
         if name in approximate_feature_trie.value:
             return
@@ -122,7 +127,7 @@ class FeatureSet(object):
 
             # Set every node in relationship path to needs_full_entity.
             sub_trie = trie
-            for edge in feature.relationship_path:
+            for edge in relationship_path:
                 sub_trie = sub_trie.get_node([edge])
                 (_, f1, f2) = sub_trie.value
                 sub_trie.value = (True, f1, f2)
@@ -130,13 +135,11 @@ class FeatureSet(object):
             if name not in full_features:
                 not_full_features.add(name)
 
-            sub_trie = trie.get_node(feature.relationship_path)
+            sub_trie = trie.get_node(relationship_path)
 
-        sub_ignored_trie = approximate_feature_trie.get_node(feature.relationship_path)
+        sub_ignored_trie = approximate_feature_trie.get_node(relationship_path)
 
         for dep_feat in feature.get_dependencies():
-            if isinstance(dep_feat, FeatureOutputSlice):
-                dep_feat = dep_feat.base_feature
             self._add_feature_to_trie(sub_trie, dep_feat, sub_ignored_trie,
                                       ancestor_needs_full_entity=needs_full_entity)
 
diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 9c24007..2d15f0d 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -11,6 +11,7 @@ from featuretools.exceptions import UnknownFeature
 from featuretools.feature_base import (
     AggregationFeature,
     DirectFeature,
+    FeatureOutputSlice,
     GroupByTransformFeature,
     IdentityFeature,
     TransformFeature
@@ -418,6 +419,8 @@ class FeatureSetCalculator(object):
             return self._calculate_agg_features
         elif type(f) == IdentityFeature:
             return self._calculate_identity_features
+        elif type(f) == FeatureOutputSlice:
+            return self._calculate_output_slices
         else:
             raise UnknownFeature(u"{} feature unknown".format(f.__class__))
 
@@ -433,6 +436,16 @@ class FeatureSetCalculator(object):
 
         return df
 
+    def _calculate_output_slices(self, features, df, _df_trie, progress_callback):
+        for f in features:
+            # the feature may have been renamed
+            if f.get_name() not in df.columns:
+                df[f.get_name()] = df[f.base_feature.get_feature_names()[f.n]]
+
+        progress_callback(len(features) / float(self.num_features))
+
+        return df
+
     def _calculate_transform_features(self, features, frame, _df_trie, progress_callback):
         frame_empty = frame.empty if isinstance(frame, pd.DataFrame) else False
         feature_values = []
-- 
2.43.0


From 391ec09c9446f3ec6038ab0c6702b81acec9e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 38/91] fix: NMostCommon with n=1 gives a single value

---
 featuretools/primitives/standard/aggregation_primitives.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 3a64d26..f8ea268 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -354,6 +354,9 @@ class NMostCommon(AggregationPrimitive):
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
+            if self.n == 1:
+                # a feature with one output has a value, not an array of them
+                return array[0]
             return array
 
         return n_most_common
-- 
2.43.0


From c4d7ae98c71872da987c965e23b2d01ef4214d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 39/91] fix: NMostCommon does not return categories which do
 not occur

---
 featuretools/primitives/standard/aggregation_primitives.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index f8ea268..ac5e5f4 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -350,7 +350,10 @@ class NMostCommon(AggregationPrimitive):
 
     def get_function(self, agg_type=Library.PANDAS):
         def n_most_common(x):
-            array = np.array(x.value_counts().index[:self.n])
+            counts = x.value_counts()
+            # categories which do not occur are counted too
+            counts = counts[counts > 0]
+            array = np.array(counts.index[:self.n])
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
-- 
2.43.0


From eb793448aaec01cfdb7d1563178933aa97121e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 40/91] fix: interesting values are read back as they were set

---
 featuretools/entityset/deserialize.py   | 31 +++++++++++++++++++++----
 featuretools/variable_types/variable.py | 14 ++++++++++-
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 901c739..3688102 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -32,8 +32,7 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
-        interesting_values = pd.read_json(description['properties']['interesting_values'], typ='series')
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(description, variable)
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
@@ -41,6 +40,30 @@ def description_to_variable(description, entity=None):
     return variable
 
 
+def read_interesting_values(description, variable):
+    '''Deserialize interesting values from variable description.
+
+    The values are taken as they were written: only what JSON cannot express
+    (datetimes and timedeltas) is converted.
+
+    Args:
+        description (dict) : Description of :class:`.Variable`.
+        variable (Variable) : Instance of :class:`.Variable` the values are for.
+
+    Returns:
+        interesting_values (list) : Interesting values.
+    '''
+    values = list(json.loads(description['properties']['interesting_values']).values())
+    dtype = variable.interesting_values.dtype
+    # numbers are in milliseconds
+    unit = 'ms' if all(isinstance(value, (int, float)) or value is None for value in values) else None
+    if pd.api.types.is_datetime64_any_dtype(dtype):
+        values = list(pd.to_datetime(values, unit=unit))
+    elif pd.api.types.is_timedelta64_dtype(dtype):
+        values = list(pd.to_timedelta(values, unit=unit))
+    return values
+
+
 def description_to_entity(description, entityset, path=None):
     '''Deserialize entity from entity description and add to entityset.
 
@@ -63,9 +86,7 @@ def description_to_entity(description, entityset, path=None):
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
-        interesting_values = variable_types[variable.id][1]['properties']['interesting_values']
-        interesting_values = pd.read_json(interesting_values, typ="series")
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(variable_types[variable.id][1], variable)
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 6668ae1..c456b85 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -1,3 +1,4 @@
+import json
 import warnings
 
 import numpy as np
@@ -49,6 +50,9 @@ class Variable(object):
             default_dtype = 'datetime64[ns]'
         if default_dtype == np.timedelta64:
             default_dtype = 'timedelta64[ns]'
+        if default_dtype == 'category':
+            # any value can be interesting, not only the current categories
+            default_dtype = object
 
         self._interesting_values = pd.Series(dtype=default_dtype)
 
@@ -122,6 +126,14 @@ class Variable(object):
         return self.entity.df[self.id]
 
     def to_data_description(self):
+        # keep all digits of what was set
+        if pd.api.types.is_float_dtype(self._interesting_values.dtype):
+            interesting_values = json.dumps({str(i): None if pd.isnull(v) else float(v)
+                                             for i, v in self._interesting_values.items()})
+        elif pd.api.types.is_datetime64_any_dtype(self._interesting_values.dtype):
+            interesting_values = self._interesting_values.to_json(date_format='iso', date_unit='ns')
+        else:
+            interesting_values = self._interesting_values.to_json(double_precision=15)
         return {
             'id': self.id,
             'type': {
@@ -131,7 +143,7 @@ class Variable(object):
                 'name': self.name,
                 'description': self.description,
                 'entity': self.entity.id,
-                'interesting_values': self._interesting_values.to_json()
+                'interesting_values': interesting_values
             },
         }
 
-- 
2.43.0


From 830c5904e1fb12f96c33140dc0b69ca54d5cd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 41/91] fix: arguments of variable types are read back

---
 featuretools/entityset/deserialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 3688102..ae15850 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -86,6 +86,10 @@ def description_to_entity(description, entityset, path=None):
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
+        if isinstance(variable_types[variable.id][1]['type'], dict):
+            # arguments of the variable type
+            for argument, value in variable_types[variable.id][1]['type'].items():
+                setattr(variable, argument, value)
         variable.interesting_values = read_interesting_values(variable_types[variable.id][1], variable)
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
-- 
2.43.0


From 6d251c47bb12c1e01bccf48209d90aaeb7808903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 42/91] fix: missing values of text columns are missing after a
 parquet round trip

---
 featuretools/entityset/serialize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index dc85e78..4da122c 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -115,7 +115,12 @@ def write_entity_data(entity, path, format='csv', **kwargs):
         # Issue is resolved by casting columns of dtype object to string.
         df = df.copy()
         columns = list(df.select_dtypes('object').columns)
-        df[columns] = df[columns].astype(str)
+        if is_instance(df, ks, 'DataFrame'):
+            df[columns] = df[columns].astype(str)
+        else:
+            for column in columns:
+                # Missing values stay missing.
+                df[column] = df[column].where(df[column].isnull(), df[column].astype(str))
         df.to_parquet(file, **kwargs)
     elif format == 'pickle':
         # Dask currently does not support to_pickle
-- 
2.43.0


From 5dca7fd725c82f0b9fd751369a2cccbc760a06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 43/91] fix: booleans and numbers in object columns stay what
 they are in parquet files

---
 featuretools/entityset/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index 4da122c..2b8bd59 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -5,6 +5,7 @@ import tarfile
 import tempfile
 
 import dask.dataframe as dd
+import pandas as pd
 
 from featuretools.utils.gen_utils import import_or_none, is_instance
 from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
@@ -119,6 +120,9 @@ def write_entity_data(entity, path, format='csv', **kwargs):
             df[columns] = df[columns].astype(str)
         else:
             for column in columns:
+                if isinstance(df, pd.DataFrame) and \
+                        pd.api.types.infer_dtype(df[column], skipna=True) in ('boolean', 'integer', 'floating'):
+                    continue
                 # Missing values stay missing.
                 df[column] = df[column].where(df[column].isnull(), df[column].astype(str))
         df.to_parquet(file, **kwargs)
-- 
2.43.0


From cb6c4459f7bead912d9389d12350d6e9368ace0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 44/91] fix: csv files are read with the separator they were
 written with

---
 featuretools/entityset/deserialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index ae15850..e9bea0b 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -176,6 +176,7 @@ def read_entity_data(description, path):
     if load_format == 'csv':
         dataframe = lib.read_csv(
             file,
+            sep=kwargs.get('sep', ','),
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
-- 
2.43.0


From c58353832e90b5d5e9a1600cc6afa4bda273b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 45/91] fix: strings in csv files are read as they were written

---
 featuretools/entityset/deserialize.py |  6 ++++++
 featuretools/entityset/serialize.py   | 18 +++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index e9bea0b..820bf85 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -174,6 +174,12 @@ def read_entity_data(description, path):
     else:
         lib = pd
     if load_format == 'csv':
+        string_columns = description['loading_info'].get('string_columns')
+        if string_columns is not None:
+            # A string is read as it was written.
+            read_kwargs['dtype'] = {column: str for column in string_columns}
+            read_kwargs['keep_default_na'] = False
+            read_kwargs['na_values'] = ['']
         dataframe = lib.read_csv(
             file,
             sep=kwargs.get('sep', ','),
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index 2b8bd59..a6c408d 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -97,8 +97,12 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     location = os.path.join('data', basename)
     file = os.path.join(path, location)
     df = entity.df
+    loading_info = {'location': location, 'type': format, 'params': kwargs}
 
     if format == 'csv':
+        if isinstance(df, pd.DataFrame):
+            # Values which look like numbers or missing values but are strings.
+            loading_info['string_columns'] = _string_columns(df)
         if is_instance(df, ks, 'DataFrame'):
             df = df.copy()
             columns = list(df.select_dtypes('object').columns)
@@ -136,7 +140,19 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     else:
         error = 'must be one of the following formats: {}'
         raise ValueError(error.format(', '.join(FORMATS)))
-    return {'location': location, 'type': format, 'params': kwargs}
+    return loading_info
+
+
+def _string_columns(df):
+    '''Columns which hold strings (and missing values) only.'''
+    columns = []
+    for column in df.columns:
+        values = df[column]
+        if pd.api.types.is_categorical_dtype(values.dtype):
+            values = values.cat.categories
+        if values.dtype == object and pd.api.types.infer_dtype(values, skipna=True) == 'string':
+            columns.append(column)
+    return columns
 
 
 def write_data_description(entityset, path, profile_name=None, **kwargs):
-- 
2.43.0


From 6d5e6295bd419b5e89a09e4b0b41e5094fdeb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 46/91] fix: features scattered again to a cluster are not lost
 with those of an earlier computation

---
 .../computational_backends/calculate_feature_matrix.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 894d87e..27fc711 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -613,7 +613,9 @@ def parallel_calculate_chunks(cutoff_time, chunk_size, feature_set, approximate,
 
         # save features to a tempfile and scatter it
         pickled_feats = cloudpickle.dumps(feature_set)
-        _saved_features = client.scatter(pickled_feats)
+        # a key of its own: the cluster may be about to forget the key of equal
+        # features of an earlier computation
+        _saved_features = client.scatter(pickled_feats, hash=False)
         client.replicate([_es, _saved_features])
         num_scattered_workers = len(client.who_has([Future(es_token)]).get(es_token, []))
         num_workers = len(client.scheduler_info()['workers'].values())
-- 
2.43.0


From 5e9bd20be33b9877bcd09dfd06a1e149953ea288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 47/91] fix: an EntitySet is read with the last time indexes it
 was written with

---
 featuretools/entityset/deserialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 820bf85..aa239d1 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -128,6 +128,9 @@ def description_to_entityset(description, **kwargs):
 
     if len(last_time_index):
         entityset.add_last_time_indexes(updated_entities=last_time_index)
+        for entity in entityset.entities:
+            if entity.id not in last_time_index:
+                entity.last_time_index = None
 
     return entityset
 
-- 
2.43.0


From 7af43c0e992cd8e5c66c6e4929359448fb9020b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 48/91] fix: nullable strings (csv) and booleans with missing
 values (parquet) are read as they were written

---
 featuretools/entityset/deserialize.py |  5 +++++
 featuretools/entityset/serialize.py   | 11 +++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index aa239d1..aa608da 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -193,6 +193,11 @@ def read_entity_data(description, path):
         )
     elif load_format == 'parquet':
         dataframe = lib.read_parquet(file, engine=kwargs['engine'])
+        if entity_type == 'pandas':
+            for column in dataframe.select_dtypes('boolean'):
+                if dtypes[column] == 'object':
+                    # the missing values of an object column
+                    dataframe[column] = dataframe[column].astype(object).where(dataframe[column].notnull(), None)
     elif load_format == 'pickle':
         dataframe = pd.read_pickle(file, **kwargs)
     else:
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index a6c408d..e9822f2 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -124,9 +124,12 @@ def write_entity_data(entity, path, format='csv', **kwargs):
             df[columns] = df[columns].astype(str)
         else:
             for column in columns:
-                if isinstance(df, pd.DataFrame) and \
-                        pd.api.types.infer_dtype(df[column], skipna=True) in ('boolean', 'integer', 'floating'):
-                    continue
+                if isinstance(df, pd.DataFrame):
+                    inferred_dtype = pd.api.types.infer_dtype(df[column], skipna=True)
+                    if inferred_dtype == 'boolean':
+                        df[column] = df[column].astype('boolean')
+                    if inferred_dtype in ('boolean', 'integer', 'floating'):
+                        continue
                 # Missing values stay missing.
                 df[column] = df[column].where(df[column].isnull(), df[column].astype(str))
         df.to_parquet(file, **kwargs)
@@ -150,7 +153,7 @@ def _string_columns(df):
         values = df[column]
         if pd.api.types.is_categorical_dtype(values.dtype):
             values = values.cat.categories
-        if values.dtype == object and pd.api.types.infer_dtype(values, skipna=True) == 'string':
+        if (values.dtype == object or values.dtype.name == 'string') and pd.api.types.infer_dtype(values, skipna=True) == 'string':
             columns.append(column)
     return columns
 
-- 
2.43.0


From 03b831a0765953e89fba2b4b1db400e27d5b8fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 49/91] fix: last time indexes of entities with a category
 index or numeric times

A timeless leaf with a category index crashed (no None category), and numeric
last times were turned into dates since 1970 nanoseconds.
---
 featuretools/entityset/entityset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index facae96..eb38d05 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -797,6 +797,7 @@ class EntitySet(object):
             queue = self.entities[:]
 
         explored = set()
+        numeric_time = self.time_type == vtypes.NumericTimeIndex
 
         for e in queue:
             e.last_time_index = None
@@ -823,7 +824,7 @@ class EntitySet(object):
                     elif is_instance(entity.df, ks, 'DataFrame'):
                         lti = ks.Series(pd.Series(index=lti.to_list(), name=lti.name))
                     else:
-                        lti[:] = None
+                        lti = pd.Series(np.nan if numeric_time else pd.NaT, index=lti.index, name=lti.name)
                 entity.last_time_index = lti
 
             if entity.id in children:
@@ -892,6 +893,8 @@ class EntitySet(object):
                             lti_df['last_time_old'] = ks.to_datetime(lti_df['last_time_old'])
                             # TODO: Figure out a workaround for fillna and replace
                             lti_df = lti_df.max(axis=1)
+                        elif numeric_time:
+                            lti_df = lti_df[['last_time', 'last_time_old']].max(axis=1)
                         else:
                             lti_df['last_time'] = lti_df['last_time'].astype('datetime64[ns]')
                             lti_df['last_time_old'] = lti_df['last_time_old'].astype('datetime64[ns]')
-- 
2.43.0


From d83367dfa18aa9fdba17bbfc8aa4409fac9eaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 50/91] fix: rejected conversion to Numeric no longer destroys
 the column

---
 featuretools/utils/entity_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index d8a846a..f2cf595 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -154,14 +154,15 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
             df[column_id] = ks.to_numeric(df[column_id])
         else:
             orig_nonnull = df[column_id].dropna().shape[0]
-            df[column_id] = pd.to_numeric(df[column_id], errors='coerce')
+            converted = pd.to_numeric(df[column_id], errors='coerce')
             # This will convert strings to nans
             # If column contained all strings, then we should
             # just raise an error, because that shouldn't have
             # been converted to numeric
-            nonnull = df[column_id].dropna().shape[0]
+            nonnull = converted.dropna().shape[0]
             if nonnull == 0 and orig_nonnull != 0:
                 raise TypeError("Attempted to convert all string column {} to numeric".format(column_id))
+            df[column_id] = converted
     elif issubclass(new_type, vtypes.Datetime):
         format = kwargs.get("format", None)
         # TODO: if float convert to int?
-- 
2.43.0


From bad99f773ab65b9a17fecbcd4e6c64f8d5c1ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 51/91] fix: conversion to Boolean failed (np.bool is gone)

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index f2cf595..a7abca6 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -181,7 +181,7 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
                     True: True,
                     False: False}
         # TODO: what happens to nans?
-        df[column_id] = df[column_id].map(map_dict).astype(np.bool)
+        df[column_id] = df[column_id].map(map_dict).astype(bool)
     elif not issubclass(new_type, vtypes.Discrete):
         raise Exception("Cannot convert column %s to %s" %
                         (column_id, new_type))
-- 
2.43.0


From f437be4e9403f882e824d91c0d9c6ee5ded6ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 52/91] fix: converting a variable lost its description

---
 featuretools/variable_types/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index c456b85..65f86da 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -87,6 +87,7 @@ class Variable(object):
 
         """
         v = cls(id=variable.id, name=variable.name, entity=variable.entity)
+        v._description = variable._description
         return v
 
     @property
-- 
2.43.0


From 454c073cb7fee73290ebfad38d1786a1acd9486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 53/91] fix: range and categories given to a variable were
 ignored

---
 featuretools/variable_types/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 65f86da..a7a32c1 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -210,7 +210,7 @@ class Categorical(Discrete):
     """
 
     def __init__(self, id, entity, name=None, categories=None):
-        self.categories = None or []
+        self.categories = categories or []
         super(Categorical, self).__init__(id, entity, name=name)
 
     def to_data_description(self):
@@ -252,7 +252,7 @@ class Numeric(Variable):
                  range=None,
                  start_inclusive=True,
                  end_inclusive=False):
-        self.range = None or []
+        self.range = range or []
         self.start_inclusive = start_inclusive
         self.end_inclusive = end_inclusive
         super(Numeric, self).__init__(id, entity, name=name)
-- 
2.43.0


From dee1a6c0724df13f6821530f86ec8ed55a1aa284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 54/91] fix: deleted (or moved) variables stayed in the
 secondary time index

---
 featuretools/entityset/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 15ed769..aa36175 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -372,6 +372,11 @@ class Entity(object):
             v = self._get_variable(v_id)
             self.variables.remove(v)
 
+        self.secondary_time_index = {time_index: [c for c in columns if c not in variable_ids]
+                                     for time_index, columns in self.secondary_time_index.items()
+                                     if time_index not in variable_ids}
+        self.entityset.reset_data_description()
+
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
         if not isinstance(self.df, pd.DataFrame) or self.df.empty:
-- 
2.43.0


From 3156aed85d13948dbbcf3d584efa7a19da8d0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 55/91] fix: update_data that is rejected leaves the entity as
 it was

---
 featuretools/entityset/entity.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index aa36175..4d47252 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -281,13 +281,19 @@ class Entity(object):
             if v.id not in df.columns:
                 raise ValueError("Updated dataframe is missing new {} column".format(v.id))
 
-        # Make sure column ordering matches variable ordering
-        self.df = df[[v.id for v in self.variables]]
-        self.set_index(self.index)
-        if self.time_index is not None:
-            self.set_time_index(self.time_index, already_sorted=already_sorted)
+        previous_df = self.df
+        try:
+            # Make sure column ordering matches variable ordering
+            self.df = df[[v.id for v in self.variables]]
+            self.set_index(self.index)
+            if self.time_index is not None:
+                self.set_time_index(self.time_index, already_sorted=already_sorted)
+
+            self.set_secondary_time_index(self.secondary_time_index)
+        except Exception:
+            self.df = previous_df
+            raise
 
-        self.set_secondary_time_index(self.secondary_time_index)
         if recalculate_last_time_indexes and self.last_time_index is not None:
             self.entityset.add_last_time_indexes(updated_entities=[self.id])
         self.entityset.reset_data_description()
-- 
2.43.0


From f688d5339d469ca0ec8638f34001a49a747fccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 56/91] fix: metadata stale after changing variable types, time
 indexes or interesting values

---
 featuretools/entityset/entity.py        | 3 +++
 featuretools/variable_types/variable.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 4d47252..b2564d5 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -212,6 +212,7 @@ class Entity(object):
         variable = self._get_variable(variable_id)
         new_variable = new_type.create_from(variable)
         self.variables[self.variables.index(variable)] = new_variable
+        self.entityset.reset_data_description()
 
     def _create_variables(self, variable_types, index, time_index, secondary_time_index):
         """Extracts the variables from a dataframe
@@ -418,6 +419,7 @@ class Entity(object):
         self.convert_variable_type(variable_id, t, convert_data=False)
 
         self.time_index = variable_id
+        self.entityset.reset_data_description()
 
     def set_index(self, variable_id, unique=True):
         """
@@ -457,6 +459,7 @@ class Entity(object):
             checked[time_index] = columns
 
         self.secondary_time_index = checked
+        self.entityset.reset_data_description()
 
 
 def _create_index(index, make_index, df):
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index a7a32c1..63fbb2d 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -121,6 +121,7 @@ class Variable(object):
     def interesting_values(self, interesting_values):
         self._interesting_values = pd.Series(interesting_values,
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
     @property
     def series(self):
@@ -170,6 +171,7 @@ class Discrete(Variable):
         self._interesting_values = pd.Series([v for v in values if not
                                               (v in seen or seen_add(v))],
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
 
 class Boolean(Variable):
-- 
2.43.0


From dc72c1ed10b1468545ead40aedaa426098aa65ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 57/91] fix: a rejected relationship no longer changes variable
 types

---
 featuretools/entityset/entityset.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index eb38d05..f70c29c 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -261,15 +261,6 @@ class EntitySet(object):
             raise ValueError(msg.format(child_v, child_e.id))
         parent_e = relationship.parent_entity
         parent_v = relationship.parent_variable.id
-        if not isinstance(child_e[child_v], vtypes.Id):
-            child_e.convert_variable_type(variable_id=child_v,
-                                          new_type=vtypes.Id,
-                                          convert_data=False)
-
-        if not isinstance(parent_e[parent_v], vtypes.Index):
-            parent_e.convert_variable_type(variable_id=parent_v,
-                                           new_type=vtypes.Index,
-                                           convert_data=False)
         # Empty dataframes (as a result of accessing Entity.metadata)
         # default to object dtypes for discrete variables, but
         # indexes/ids default to ints. In this case, we convert
@@ -287,6 +278,16 @@ class EntitySet(object):
             raise ValueError(msg.format(parent_v, parent_e.id, parent_dtype,
                                         child_v, child_e.id, child_dtype))
 
+        if not isinstance(child_e[child_v], vtypes.Id):
+            child_e.convert_variable_type(variable_id=child_v,
+                                          new_type=vtypes.Id,
+                                          convert_data=False)
+
+        if not isinstance(parent_e[parent_v], vtypes.Index):
+            parent_e.convert_variable_type(variable_id=parent_v,
+                                           new_type=vtypes.Index,
+                                           convert_data=False)
+
         self.relationships.append(relationship)
         self.reset_data_description()
         return self
-- 
2.43.0


From cb9bb4f95470d3738bb21b9547e4d40f35ec19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 58/91] fix: a rejected entity no longer sets the EntitySet's
 time type

---
 featuretools/entityset/entityset.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index f70c29c..2451e59 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -512,16 +512,21 @@ class EntitySet(object):
                                  "Cannot add entity of type {} to an entityset with existing entities "
                                  "of type {}".format(type(dataframe), type(self.entities[0].df)))
 
-        entity = Entity(
-            entity_id,
-            dataframe,
-            self,
-            variable_types=variable_types,
-            index=index,
-            time_index=time_index,
-            secondary_time_index=secondary_time_index,
-            already_sorted=already_sorted,
-            make_index=make_index)
+        time_type = self.time_type
+        try:
+            entity = Entity(
+                entity_id,
+                dataframe,
+                self,
+                variable_types=variable_types,
+                index=index,
+                time_index=time_index,
+                secondary_time_index=secondary_time_index,
+                already_sorted=already_sorted,
+                make_index=make_index)
+        except Exception:
+            self.time_type = time_type
+            raise
         self.entity_dict[entity.id] = entity
         self.reset_data_description()
         return self
-- 
2.43.0


From c590d5d1e469b13015d51952b9901daa89d0f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 59/91] fix: concat of EntitySets without last time indexes
 made them up

---
 featuretools/entityset/entityset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 2451e59..66564a2 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -759,7 +759,8 @@ class EntitySet(object):
             combined_es[entity.id].update_data(df=combined_df,
                                                recalculate_last_time_indexes=False)
 
-        combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
+        if has_last_time_index:
+            combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
         self.reset_data_description()
         return combined_es
 
-- 
2.43.0


From 1c5118f41595a1dad2dd15f0fcd40c2dbc49689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 60/91] fix: last time indexes of dask entities were joined by
 the wrong divisions; timeless dask entities failed

---
 featuretools/entityset/entityset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 66564a2..69dad67 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -822,12 +822,14 @@ class EntitySet(object):
                     if isinstance(entity.df, dd.DataFrame):
                         # The current Dask implementation doesn't set the index of the dataframe
                         # to the entity's index, so we have to do it manually here
-                        lti.index = entity.df[entity.index].copy()
+                        # (the partitions are not divided by it)
+                        lti.index = entity.df[entity.index].clear_divisions()
                 else:
                     lti = entity.df[entity.index].copy()
                     if isinstance(entity.df, dd.DataFrame):
-                        lti.index = entity.df[entity.index].copy()
-                        lti = lti.apply(lambda x: None)
+                        lti.index = entity.df[entity.index].clear_divisions()
+                        lti = lti.map_partitions(lambda s: pd.Series(pd.NaT, index=s.index, name=s.name, dtype='datetime64[ns]'),
+                                                 meta=(lti.name, 'datetime64[ns]'))
                     elif is_instance(entity.df, ks, 'DataFrame'):
                         lti = ks.Series(pd.Series(index=lti.to_list(), name=lti.name))
                     else:
@@ -862,7 +864,7 @@ class EntitySet(object):
                     if lti_is_dask or lti_is_koalas:
                         to_join = child_e.df[link_var]
                         if lti_is_dask:
-                            to_join.index = child_e.df[child_e.index]
+                            to_join.index = child_e.df[child_e.index].clear_divisions()
 
                         lti_df = child_e.last_time_index.to_frame(name='last_time').join(
                             to_join.to_frame(name=entity.index)
-- 
2.43.0


From 670616088c065df72f35860454419ec4f50e8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 61/91] fix: encode_features failed for drop_first with a
 dictionary of top_n

---
 featuretools/synthesis/encode_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index 1732978..b4aee78 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -136,7 +136,7 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
         if isinstance(top_n, dict):
             select_n = top_n.get(f.get_name(), DEFAULT_TOP_N)
         if drop_first:
-            select_n = min(len(val_counts), top_n)
+            select_n = min(len(val_counts), select_n)
             select_n = max(select_n - 1, 1)
         unique = val_counts.head(select_n).index.tolist()
         for label in unique:
-- 
2.43.0


From 53a618f190436809e8411350904cbccf99d2e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 62/91] fix: remove_low_information_features dropped the
 definitions of multi-output features it kept

---
 featuretools/selection/selection.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 0f287e7..6f4265b 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -15,12 +15,7 @@ def remove_low_information_features(feature_matrix, features=None):
     keep = [c for c in feature_matrix
             if (feature_matrix[c].nunique(dropna=False) > 1 and
                 feature_matrix[c].dropna().shape[0] > 0)]
-    feature_matrix = feature_matrix[keep]
-    if features is not None:
-        features = [f for f in features
-                    if f.get_name() in feature_matrix.columns]
-        return feature_matrix, features
-    return feature_matrix
+    return _apply_feature_selection(keep, feature_matrix, features)
 
 
 def remove_highly_null_features(feature_matrix, features=None, pct_null_threshold=0.95):
-- 
2.43.0


From aa41b9d50632991ccf6da184635099054956d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 63/91] fix: remove_highly_correlated_features removed the
 simpler feature when features_to_check was in another order

---
 featuretools/selection/selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 6f4265b..b168bed 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -112,6 +112,8 @@ def remove_highly_correlated_features(feature_matrix, features=None, pct_corr_th
     else:
         for f_name in features_to_check:
             assert f_name in feature_matrix.columns, "feature named {} is not in feature matrix".format(f_name)
+        # the order of the feature matrix tells which feature is more complex
+        features_to_check = [f_name for f_name in feature_matrix.columns if f_name in features_to_check]
 
     if features_to_keep is None:
         features_to_keep = []
-- 
2.43.0


From 082cedb3728d7d335f0c812f5c09206451e43f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 64/91] fix: remove_single_value_features counted None and NaN
 as two values

---
 featuretools/selection/selection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index b168bed..e55274f 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -65,7 +65,11 @@ def remove_single_value_features(feature_matrix, features=None, count_nan_as_val
                 Matches dfs output.
                 If no feature list is provided as input, the feature list will not be returned.
     """
-    unique_counts_by_col = feature_matrix.nunique(dropna=not count_nan_as_value).to_dict()
+    unique_counts_by_col = feature_matrix.nunique()
+    if count_nan_as_value:
+        # None and NaN are the same missing value
+        unique_counts_by_col += feature_matrix.isnull().any()
+    unique_counts_by_col = unique_counts_by_col.to_dict()
 
     keep = [f_name for f_name, unique_count
             in unique_counts_by_col.items() if unique_count > 1]
-- 
2.43.0


From 763f1a9396b043afd1e2d75f0a0f38e3d395c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 65/91] fix: arguments of primitives made from functions were
 lost in names and saved features

---
 .../primitives/base/aggregation_primitive_base.py  |  6 +++++-
 .../primitives/base/transform_primitive_base.py    |  6 +++++-
 featuretools/primitives/base/utils.py              | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/featuretools/primitives/base/aggregation_primitive_base.py b/featuretools/primitives/base/aggregation_primitive_base.py
index 07e76f7..44de9d8 100755
--- a/featuretools/primitives/base/aggregation_primitive_base.py
+++ b/featuretools/primitives/base/aggregation_primitive_base.py
@@ -3,7 +3,10 @@ import functools
 import inspect
 
 from featuretools.primitives.base.primitive_base import PrimitiveBase
-from featuretools.primitives.base.utils import inspect_function_args
+from featuretools.primitives.base.utils import (
+    get_keyword_arguments,
+    inspect_function_args
+)
 
 
 class AggregationPrimitive(PrimitiveBase):
@@ -142,6 +145,7 @@ def make_agg_primitive(function, input_types, return_type, name=None,
 
         new_class.__init__ = new_class_init
         new_class.get_function = lambda self: self.partial
+        new_class.get_arguments = get_keyword_arguments
     else:
         # creates a lambda function that returns function every time
         new_class.get_function = lambda self, f=function: f
diff --git a/featuretools/primitives/base/transform_primitive_base.py b/featuretools/primitives/base/transform_primitive_base.py
index 4472581..f36577d 100755
--- a/featuretools/primitives/base/transform_primitive_base.py
+++ b/featuretools/primitives/base/transform_primitive_base.py
@@ -3,7 +3,10 @@ import functools
 import inspect
 
 from featuretools.primitives.base.primitive_base import PrimitiveBase
-from featuretools.primitives.base.utils import inspect_function_args
+from featuretools.primitives.base.utils import (
+    get_keyword_arguments,
+    inspect_function_args
+)
 
 
 class TransformPrimitive(PrimitiveBase):
@@ -114,6 +117,7 @@ def make_trans_primitive(function, input_types, return_type, name=None,
 
         new_class.__init__ = new_class_init
         new_class.get_function = lambda self: self.partial
+        new_class.get_arguments = get_keyword_arguments
     else:
         # creates a lambda function that returns function every time
         new_class.get_function = lambda self, f=function: f
diff --git a/featuretools/primitives/base/utils.py b/featuretools/primitives/base/utils.py
index 932743b..b3bd339 100644
--- a/featuretools/primitives/base/utils.py
+++ b/featuretools/primitives/base/utils.py
@@ -15,3 +15,17 @@ def inspect_function_args(new_class, function, uses_calc_time):
         if arg.default is not arg.empty:
             kwargs[arg.name] = arg.default
     return new_class, kwargs
+
+
+def get_keyword_arguments(primitive):
+    """arguments, other than the defaults, of a primitive made from a function"""
+    values = []
+    for name, value in primitive.kwargs.items():
+        # the calculation time is provided by the computational backend
+        if name == 'time':
+            continue
+        default = primitive.default_kwargs.get(name)
+        if isinstance(value, type(default)) and value == default:
+            continue
+        values.append((name, value))
+    return values
-- 
2.43.0


From 18fe40f0ef9137c2d7603af5bdc749b4a1e7ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 66/91] fix: Entropy counted None and NaN as two values

---
 featuretools/primitives/standard/aggregation_primitives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index ac5e5f4..58995be 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -817,6 +817,8 @@ class Entropy(AggregationPrimitive):
 
     def get_function(self, agg_type=Library.PANDAS):
         def pd_entropy(s):
+            # None and NaN are the same missing value
+            s = s.where(s.notnull(), np.nan)
             distribution = s.value_counts(normalize=True, dropna=self.dropna)
             return stats.entropy(distribution, base=self.base)
 
-- 
2.43.0


From 5b65043c97eb0604694c2579549032e8acd61c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 67/91] fix: equality of EntitySets ignored values and
 relationships and was asymmetric

_dataframes_equal compared nothing (the mask of missing values covered every
row) and failed for different lengths; relationships of the other EntitySet
and types of variables were compared one way only; comparison with anything
but an EntitySet failed, as did deep comparison of dask last time indexes.
---
 featuretools/entityset/entity.py        |  6 +-
 featuretools/entityset/entityset.py     |  4 ++
 featuretools/utils/wrangle.py           | 88 +++++++++++++++----------
 featuretools/variable_types/variable.py |  2 +-
 4 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index b2564d5..58d721e 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -14,7 +14,7 @@ from featuretools.utils.entity_utils import (
     infer_variable_types
 )
 from featuretools.utils.gen_utils import import_or_none, is_instance
-from featuretools.utils.wrangle import _check_time_type, _dataframes_equal
+from featuretools.utils.wrangle import _check_time_type, _dataframes_equal, _series_equal
 from featuretools.variable_types import Text, find_variable_types
 
 ks = import_or_none('databricks.koalas')
@@ -102,6 +102,8 @@ class Entity(object):
         return self.df.shape
 
     def __eq__(self, other, deep=False):
+        if not isinstance(other, Entity):
+            return False
         if self.index != other.index:
             return False
         if self.time_index != other.time_index:
@@ -118,7 +120,7 @@ class Entity(object):
             elif self.last_time_index is not None and other.last_time_index is None:
                 return False
             elif self.last_time_index is not None and other.last_time_index is not None:
-                if not self.last_time_index.equals(other.last_time_index):
+                if not _series_equal(self.last_time_index, other.last_time_index):
                     return False
             if not _dataframes_equal(self.df, other.df):
                 return False
diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 69dad67..1b66f84 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -110,6 +110,8 @@ class EntitySet(object):
         return (EntitySet, serialize.entityset_to_description(self.metadata))
 
     def __eq__(self, other, deep=False):
+        if not isinstance(other, EntitySet):
+            return False
         if len(self.entity_dict) != len(other.entity_dict):
             return False
         for eid, e in self.entity_dict.items():
@@ -117,6 +119,8 @@ class EntitySet(object):
                 return False
             if not e.__eq__(other[eid], deep=deep):
                 return False
+        if len(self.relationships) != len(other.relationships):
+            return False
         for r in self.relationships:
             if r not in other.relationships:
                 return False
diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index d4e7c65..1e8c3b2 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -2,11 +2,15 @@ import re
 import tarfile
 from datetime import datetime
 
+import dask.dataframe as dd
 import numpy as np
 import pandas as pd
 
 from featuretools import variable_types
 from featuretools.entityset.timedelta import Timedelta
+from featuretools.utils.gen_utils import import_or_none, is_instance
+
+ks = import_or_none('databricks.koalas')
 
 
 def _check_timedelta(td):
@@ -113,48 +117,60 @@ def _check_time_type(time):
 
 
 def _dataframes_equal(df1, df2):
-    # ^ means XOR
-    df1_empty = bool(len(df1))
-    df2_empty = bool(len(df2))
-    if df1_empty ^ df2_empty:
+    df1, df2 = _to_pandas(df1), _to_pandas(df2)
+    if len(df1) != len(df2) or set(df1.columns) != set(df2.columns):
         return False
-    elif not df1_empty and not df2_empty:
-        if not set(df1.columns) == set(df2.columns):
+
+    for c in df1:
+        df1c = _without_categories(df1[c]).reset_index(drop=True)
+        df2c = _without_categories(df2[c]).reset_index(drop=True)
+
+        # handle nan equality correctly
+        missing = pd.isnull(df1c)
+        if not missing.equals(pd.isnull(df2c)):
             return False
+        df1c, df2c = df1c[~missing], df2c[~missing]
+
+        if isinstance(df1[c].dtype, pd.CategoricalDtype) and isinstance(df2[c].dtype, pd.CategoricalDtype):
+            # Dask reads the categories of csv files as strings.
+            df1c, df2c = df1c.astype('unicode'), df2c.astype('unicode')
 
-        for c in df1:
-            df1c = df1[c]
-            df2c = df2[c]
-            if df1c.dtype == object:
-                df1c = df1c.astype('unicode')
-            if df2c.dtype == object:
-                df2c = df2c.astype('unicode')
-
-            normal_compare = True
-            if df1c.dtype == object:
-                dropped = df1c.dropna()
-                if not dropped.empty:
-                    if isinstance(dropped.iloc[0], tuple):
-                        dropped2 = df2[c].dropna()
-                        normal_compare = False
-                        for i in range(len(dropped.iloc[0])):
-                            try:
-                                equal = dropped.apply(lambda x: x[i]).equals(
-                                    dropped2.apply(lambda x: x[i]))
-                            except IndexError:
-                                raise IndexError("If column data are tuples, they must all be the same length")
-                            if not equal:
-                                return False
-            if normal_compare:
-                # handle nan equality correctly
-                # This way is much faster than df1.equals(df2)
-                result = df1c == df2c
-                result[pd.isnull(df1c) == pd.isnull(df2c)] = True
-                if not result.all():
-                    return False
+        if df1c.dtype == object or df2c.dtype == object:
+            if not all(_values_equal(x, y) for x, y in zip(df1c, df2c)):
+                return False
+        elif not (df1c == df2c).all():
+            return False
     return True
 
 
+def _series_equal(series1, series2):
+    return _to_pandas(series1).equals(_to_pandas(series2))
+
+
+def _to_pandas(data):
+    if isinstance(data, (dd.DataFrame, dd.Series)):
+        return data.compute()
+    elif is_instance(data, (ks, ks), ('DataFrame', 'Series')):
+        return data.to_pandas()
+    return data
+
+
+def _without_categories(series):
+    if isinstance(series.dtype, pd.CategoricalDtype):
+        return series.astype(object)
+    return series
+
+
+def _values_equal(value, other):
+    sequences = (tuple, list)
+    if isinstance(value, sequences) or isinstance(other, sequences):
+        return isinstance(value, sequences) and isinstance(other, sequences) and \
+            len(value) == len(other) and all(_values_equal(x, y) for x, y in zip(value, other))
+    if pd.isnull(value) or pd.isnull(other):
+        return pd.isnull(value) and pd.isnull(other)
+    return value == other
+
+
 def _is_s3(string):
     '''
     Checks if the given string is a s3 path.
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 63fbb2d..42df9ea 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -61,7 +61,7 @@ class Variable(object):
         return self.entity.entityset
 
     def __eq__(self, other, deep=False):
-        shallow_eq = isinstance(other, self.__class__) and \
+        shallow_eq = type(other) == type(self) and \
             self.id == other.id and \
             self.entity_id == other.entity_id
         if not deep:
-- 
2.43.0


From 8cb15c4839f8633927d6eb8f8130e5263d932492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 68/91] fix: deep equality of dask last time indexes depended
 on the order of a shuffle

---
 featuretools/utils/wrangle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 1e8c3b2..b6ef093 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -144,6 +144,9 @@ def _dataframes_equal(df1, df2):
 
 
 def _series_equal(series1, series2):
+    if isinstance(series1, dd.Series) or isinstance(series2, dd.Series):
+        # The order of what Dask joined is not defined.
+        return _to_pandas(series1).sort_index().equals(_to_pandas(series2).sort_index())
     return _to_pandas(series1).equals(_to_pandas(series2))
 
 
-- 
2.43.0


From a50113a6b4849696bbeaed08fb73b0ca11ff90a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 69/91] fix: approximate by several units computed approximated
 features without a time

datetime_round returned None, so their cutoff was the present.
---
 featuretools/computational_backends/utils.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 8ed5203..687798b 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -66,21 +66,8 @@ def datetime_round(dt, freq):
     if not freq.is_absolute():
         raise ValueError("Unit is relative")
 
-    # TODO: multitemporal units
-    all_units = list(freq.times.keys())
-    if len(all_units) == 1:
-        unit = all_units[0]
-        value = freq.times[unit]
-        if unit == 'm':
-            unit = 't'
-        # No support for weeks in datetime.datetime
-        if unit == 'w':
-            unit = 'd'
-            value = value * 7
-        freq = str(value) + unit
-        return dt.dt.floor(freq)
-    else:
-        assert "Frequency cannot have multiple temporal parameters"
+    freq = sum((pd.Timedelta(value, unit) for unit, value in freq.times.items()), pd.Timedelta(0))
+    return dt.dt.floor(freq)
 
 
 def gather_approximate_features(feature_set):
-- 
2.43.0


From ae780f401b38cabfc62c68237c8a5518336583f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 70/91] fix: spellings of Timedelta which are documented but
 failed or were misread

Any capitalization, fractions, milliseconds among several units, multiples of a
DateOffset; singular names of milliseconds read as minutes; strings which are no
timedelta are a ValueError.
---
 featuretools/entityset/timedelta.py | 14 +++++++++++---
 featuretools/utils/wrangle.py       |  8 +++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index 5b6f4da..39e25f2 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -83,10 +83,14 @@ class Timedelta(object):
 
     @classmethod
     def _check_unit_plural(cls, s):
-        if len(s) > 2 and not s.endswith('s'):
+        if len(s) > 2 and not s.lower().endswith('s'):
             return (s + 's').lower()
         elif len(s) > 1:
             return s.lower()
+        for unit in (s.lower(), s.upper()):
+            # "M" is months elsewhere: not taken for minutes
+            if unit in cls._readable_units and s != 'M':
+                return unit
         return s
 
     def get_value(self, unit=None):
@@ -133,6 +137,9 @@ class Timedelta(object):
         readable_times = dict()
         for unit, value in self.times.items():
             readable_unit = self._readable_units[unit].lower()
+            if unit == 'ms':
+                # relativedelta has no milliseconds
+                readable_unit, value = 'microseconds', value * 1000
             readable_times[readable_unit] = value
         return readable_times
 
@@ -142,9 +149,10 @@ class Timedelta(object):
             return "{} {}".format(self.times[all_units[0]], self._readable_units[all_units[0]])
         final_str = ""
         for unit, value in self.times.items():
+            readable_unit = self._readable_units[unit]
             if value == 1:
-                unit = self.make_singular(unit)
-            final_str += "{} {} ".format(value, self._readable_units[unit])
+                readable_unit = self.make_singular(readable_unit)
+            final_str += "{} {} ".format(value, readable_unit)
         return final_str[:-1]
 
     def get_arguments(self):
diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index b6ef093..c5327c2 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -59,11 +59,13 @@ def _check_timedelta(td):
         else:
             times = dict()
             for td_unit, td_value in td.kwds.items():
-                times[td_unit] = td_value
+                times[td_unit] = td_value * td.n
         return Timedelta(times, delta_obj=td)
     else:
-        pattern = '([0-9]+) *([a-zA-Z]+)$'
-        match = re.match(pattern, td)
+        pattern = '(-?[0-9]+(?:[.][0-9]+)?) *([a-zA-Z]+)$'
+        match = re.match(pattern, td) if isinstance(td, str) else None
+        if match is None:
+            raise ValueError("Unable to parse timedelta: {}".format(td))
         value, unit = match.groups()
         try:
             value = int(value)
-- 
2.43.0


From f68698c8152e29a674bdb3b4fae803e025a9c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 71/91] fix: aggregation where its condition is one of its
 inputs ignored that input

---
 .../computational_backends/feature_set_calculator.py       | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 2d15f0d..fd4d847 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -800,15 +800,10 @@ class FeatureSetCalculator(object):
 
 def _can_agg(feature):
     assert isinstance(feature, AggregationFeature)
-    base_features = feature.base_features
-    if feature.where is not None:
-        base_features = [bf.get_name() for bf in base_features
-                         if bf.get_name() != feature.where.get_name()]
-
     if feature.primitive.uses_calc_time:
         return False
     single_output = feature.primitive.number_output_features == 1
-    return len(base_features) == 1 and single_output
+    return len(feature.base_features) == 1 and single_output
 
 
 def agg_wrapper(feats, time_last):
-- 
2.43.0


From 2f1c4a4dd6696e1a1982a9a12b3043a7babf65e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 72/91] fix: Dask matrix lost a feature named time when columns
 are passed along

---
 .../calculate_feature_matrix.py                    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index 27fc711..43b3ce0 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -465,17 +465,15 @@ def calculate_chunk(cutoff_time, chunk_size, feature_set, entityset, approximate
                             for col in pass_columns:
                                 _feature_matrix[col] = pass_through[col]
                     elif isinstance(_feature_matrix, dd.DataFrame) and (len(pass_columns) > 0):
-                        _feature_matrix['time'] = time_last
+                        # all rows of the group have the same time
                         for col in pass_columns:
-                            pass_df = dd.from_pandas(pass_through[[id_name, 'time', col]], npartitions=_feature_matrix.npartitions)
-                            _feature_matrix = _feature_matrix.merge(pass_df, how="outer")
-                        _feature_matrix = _feature_matrix.drop(columns=['time'])
+                            pass_df = dd.from_pandas(pass_through[[id_name, col]], npartitions=_feature_matrix.npartitions)
+                            _feature_matrix = _feature_matrix.merge(pass_df, how="outer", on=id_name)
                     elif is_instance(_feature_matrix, ks, 'DataFrame') and (len(pass_columns) > 0):
-                        _feature_matrix['time'] = time_last
+                        # all rows of the group have the same time
                         for col in pass_columns:
-                            pass_df = ks.from_pandas(pass_through[[id_name, 'time', col]])
-                            _feature_matrix = _feature_matrix.merge(pass_df, how="outer")
-                        _feature_matrix = _feature_matrix.drop(columns=['time'])
+                            pass_df = ks.from_pandas(pass_through[[id_name, col]])
+                            _feature_matrix = _feature_matrix.merge(pass_df, how="outer", on=id_name)
                 feature_matrix.append(_feature_matrix)
 
     if any(isinstance(fm, dd.DataFrame) for fm in feature_matrix):
-- 
2.43.0


From 40723e3101fc9b7159bc2f4ed390563ddf7a7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 73/91] fix: calculating features masked values in the
 dataframe of a Dask entity

---
 featuretools/entityset/entityset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 1b66f84..c863ebb 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -1029,13 +1029,14 @@ class EntitySet(object):
             df_empty = df.empty if isinstance(df, pd.DataFrame) else False
             if time_last is not None and not df_empty:
                 mask = df[secondary_time_index] >= time_last
+                # df can be the dataframe of the entity itself
+                df = df.copy()
                 if isinstance(df, dd.DataFrame):
                     for col in columns:
                         df[col] = df[col].mask(mask, np.nan)
                 elif is_instance(df, ks, 'DataFrame'):
                     df.loc[mask, columns] = None
                 else:
-                    df = df.copy()
                     df.loc[mask, columns] = np.nan
 
         return df
-- 
2.43.0


From 6710d7315f24606e7987c0987891263dee88ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 74/91] fix: inferred type of an empty timedelta column was
 that of the column before it

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index a7abca6..adb1cf5 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -30,8 +30,8 @@ def infer_variable_types(df, link_vars, variable_types, time_index, secondary_ti
     vids_to_assume_datetime = [time_index]
     if len(list(secondary_time_index.keys())):
         vids_to_assume_datetime.append(list(secondary_time_index.keys())[0])
-    inferred_type = vtypes.Unknown
     for variable in df.columns:
+        inferred_type = vtypes.Unknown
         if variable in variable_types:
             continue
         elif isinstance(df, dd.DataFrame):
-- 
2.43.0


From 752ec346bd0c346fb46d4c8ffba5f89bd5a45eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 75/91] fix: columns starting with NaT were taken for dates,
 NaT became a number

---
 featuretools/utils/entity_utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index adb1cf5..cd352a7 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -155,6 +155,8 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
         else:
             orig_nonnull = df[column_id].dropna().shape[0]
             converted = pd.to_numeric(df[column_id], errors='coerce')
+            # pandas converts NaT to a number
+            converted = converted.where(df[column_id].notnull())
             # This will convert strings to nans
             # If column contained all strings, then we should
             # just raise an error, because that shouldn't have
@@ -203,12 +205,19 @@ def get_linked_vars(entity):
 def col_is_datetime(col):
     # check if dtype is datetime - use .head() when getting first value
     # in case column is a dask Series
-    if (col.dtype.name.find('datetime') > -1 or
-            (len(col) and isinstance(col.head(1).iloc[0], datetime))):
+    if col.dtype.name.find('datetime') > -1:
         return True
+    if col.dtype.name.find('timedelta') > -1:
+        return False
 
-    # if it can be casted to numeric, it's not a datetime
     dropped_na = col.dropna()
+    if len(col):
+        first = col.head(1).iloc[0]
+        # a missing value tells nothing about the others
+        if isinstance(first, datetime) and (first is not pd.NaT or not len(dropped_na)):
+            return True
+
+    # if it can be casted to numeric, it's not a datetime
     try:
         pd.to_numeric(dropped_na, errors='raise')
     except (ValueError, TypeError):
-- 
2.43.0


From 158b44ac7e554a4771088e4f46b1e453d58eb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 76/91] fix: Mean(skipna=False) skipped missing values on Dask

The Dask implementation of Mean was the built-in 'mean' whatever skipna was,
so groups with missing values got a mean where pandas gives NaN.
---
 .../primitives/standard/aggregation_primitives.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 58995be..ae981e1 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -101,6 +101,21 @@ class Mean(AggregationPrimitive):
         self.skipna = skipna
 
     def get_function(self, agg_type=Library.PANDAS):
+        if agg_type == Library.DASK and not self.skipna:
+            def total(x):
+                return x.sum(skipna=False)
+
+            def chunk(s):
+                return (s.agg(total), s.size())
+
+            def agg(val, length):
+                return (val.agg(total), length.sum())
+
+            def finalize(val, length):
+                return val / length
+
+            return dd.Aggregation('mean_skipna_false', chunk=chunk, agg=agg, finalize=finalize)
+
         if agg_type in [Library.DASK, Library.KOALAS]:
             return 'mean'
 
-- 
2.43.0


From 2bbefd77d8c70f81cd16d2624a693105683b7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 77/91] fix: descriptions told every comparison with a value in
 a where clause as equality

A feature where value > 5 was described as one where the value is 5, and a
custom description of the where feature was ignored.
---
 featuretools/feature_base/feature_descriptions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index 05a7da9..124de9b 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -32,7 +32,7 @@ def describe_feature(feature, feature_descriptions=None, primitive_templates=Non
 
 def generate_description(feature, feature_descriptions, primitive_templates):
     # Check if feature has custom description
-    if feature in feature_descriptions or feature.unique_name() in feature_descriptions:
+    if has_custom_description(feature, feature_descriptions):
         description = (feature_descriptions.get(feature) or
                        feature_descriptions.get(feature.unique_name()))
         return description
@@ -101,8 +101,9 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     where = ''
     if hasattr(feature, 'where') and feature.where:
         where_feature, where_value = feature.where, True
-        # a comparison with a value is described by what is compared
-        if hasattr(feature.where.primitive, 'value'):
+        # being equal to a value is described by what is compared
+        if (isinstance(feature.where.primitive, ft.primitives.EqualScalar) and
+                not has_custom_description(feature.where, feature_descriptions)):
             where_feature, where_value = feature.where.base_features[0], feature.where.primitive.value
         where_col = generate_description(where_feature,
                                          feature_descriptions,
@@ -116,6 +117,10 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     return description
 
 
+def has_custom_description(feature, feature_descriptions):
+    return feature in feature_descriptions or feature.unique_name() in feature_descriptions
+
+
 def get_direct_description(feature):
     direct_description = ' the instance of "{}" associated with this ' \
         'instance of "{}"'.format(feature.relationship_path[-1][1].parent_entity.id,
-- 
2.43.0


From cfb00ed858bbaeb2a7a1eb21966d06b247f9d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 78/91] fix: descriptions of outputs of direct and groupby
 features, custom descriptions of direct features

An output of a multi-output direct feature was described as an output of
applying PrimitiveBase, one of a groupby feature took the groupby for an input,
and the custom description of a direct feature was ignored inside another.
---
 .../feature_base/feature_descriptions.py      | 39 ++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/featuretools/feature_base/feature_descriptions.py b/featuretools/feature_base/feature_descriptions.py
index 124de9b..e7f8c1a 100644
--- a/featuretools/feature_base/feature_descriptions.py
+++ b/featuretools/feature_base/feature_descriptions.py
@@ -41,9 +41,10 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     if isinstance(feature, ft.IdentityFeature):
         return feature.variable.description
 
-    # Handle direct features
-    if isinstance(feature, ft.DirectFeature):
-        base_feature, direct_description = get_direct_description(feature)
+    # Handle direct features and their outputs
+    is_slice = isinstance(feature, ft.feature_base.FeatureOutputSlice)
+    if isinstance(feature.base_feature if is_slice else feature, ft.DirectFeature):
+        base_feature, direct_description = get_direct_description(feature, feature_descriptions)
         direct_base = generate_description(base_feature,
                                            feature_descriptions,
                                            primitive_templates)
@@ -52,7 +53,7 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     # Get input descriptions
     input_descriptions = []
     input_columns = feature.base_features
-    if isinstance(feature, ft.feature_base.FeatureOutputSlice):
+    if is_slice:
         input_columns = feature.base_feature.base_features
 
     for input_col in input_columns:
@@ -63,7 +64,7 @@ def generate_description(feature, feature_descriptions, primitive_templates):
 
     # Remove groupby description from input columns
     groupby_description = None
-    if isinstance(feature, ft.GroupByTransformFeature):
+    if isinstance(feature.base_feature if is_slice else feature, ft.GroupByTransformFeature):
         groupby_description = input_descriptions.pop()
 
     # Generate primitive description
@@ -75,7 +76,7 @@ def generate_description(feature, feature_descriptions, primitive_templates):
     primitive_description = feature.primitive.get_description(input_descriptions,
                                                               slice_num=slice_num,
                                                               template_override=template_override)
-    if isinstance(feature, ft.feature_base.FeatureOutputSlice):
+    if is_slice:
         feature = feature.base_feature
 
     # Generate groupby phrase if applicable
@@ -121,21 +122,33 @@ def has_custom_description(feature, feature_descriptions):
     return feature in feature_descriptions or feature.unique_name() in feature_descriptions
 
 
-def get_direct_description(feature):
+def get_direct_description(feature, feature_descriptions=None):
+    feature_descriptions = feature_descriptions or {}
+
+    # an output of a direct feature is the same output of the feature it comes from
+    slice_num = None
+    if isinstance(feature, ft.feature_base.FeatureOutputSlice):
+        slice_num = feature.n
+        feature = feature.base_feature
+
+    def get_base_output(direct_feature):
+        base_feature = direct_feature.base_features[0]
+        return base_feature, base_feature if slice_num is None else base_feature[slice_num]
+
     direct_description = ' the instance of "{}" associated with this ' \
         'instance of "{}"'.format(feature.relationship_path[-1][1].parent_entity.id,
                                   feature.entity_id)
-    base_features = feature.base_features
+    base_feature, base_output = get_base_output(feature)
     # shortens stacked direct features to make it easier to understand
-    while isinstance(base_features[0], ft.DirectFeature):
-        base_feat = base_features[0]
+    while (isinstance(base_feature, ft.DirectFeature) and
+            not has_custom_description(base_output, feature_descriptions)):
         base_feat_description = ' the instance of "{}" associated ' \
-            'with'.format(base_feat.relationship_path[-1][1].parent_entity.id)
+            'with'.format(base_feature.relationship_path[-1][1].parent_entity.id)
         direct_description = base_feat_description + direct_description
-        base_features = base_feat.base_features
+        base_feature, base_output = get_base_output(base_feature)
     direct_description = ' for' + direct_description
 
-    return base_features[0], direct_description
+    return base_output, direct_description
 
 
 def get_aggregation_groupby(feature, feature_descriptions=None):
-- 
2.43.0


From ed10fb2918f86268d4f9dd58a2a136dfacd325eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 79/91] fix: descriptions of comparisons with values which
 contain braces raised

---
 .../primitives/standard/binary_transform.py         | 13 +++++++------
 .../primitives/standard/transform_primitive.py      |  3 ++-
 featuretools/utils/description_utils.py             |  5 +++++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/featuretools/primitives/standard/binary_transform.py b/featuretools/primitives/standard/binary_transform.py
index 7486821..12dc7f7 100644
--- a/featuretools/primitives/standard/binary_transform.py
+++ b/featuretools/primitives/standard/binary_transform.py
@@ -4,6 +4,7 @@ import pandas as pd
 from featuretools.primitives.base.transform_primitive_base import (
     TransformPrimitive
 )
+from featuretools.utils.description_utils import escape_braces
 from featuretools.utils.gen_utils import Library
 from featuretools.variable_types import (
     Boolean,
@@ -60,7 +61,7 @@ class GreaterThanScalar(TransformPrimitive):
 
     def __init__(self, value=0):
         self.value = value
-        self.description_template = "whether {{}} is greater than {}".format(self.value)
+        self.description_template = "whether {{}} is greater than {}".format(escape_braces(self.value))
 
     def get_function(self):
         def greater_than_scalar(vals):
@@ -117,7 +118,7 @@ class GreaterThanEqualToScalar(TransformPrimitive):
 
     def __init__(self, value=0):
         self.value = value
-        self.description_template = "whether {{}} is greater than or equal to {}".format(self.value)
+        self.description_template = "whether {{}} is greater than or equal to {}".format(escape_braces(self.value))
 
     def get_function(self):
         def greater_than_equal_to_scalar(vals):
@@ -174,7 +175,7 @@ class LessThanScalar(TransformPrimitive):
 
     def __init__(self, value=0):
         self.value = value
-        self.description_template = "whether {{}} is less than {}".format(self.value)
+        self.description_template = "whether {{}} is less than {}".format(escape_braces(self.value))
 
     def get_function(self):
         def less_than_scalar(vals):
@@ -231,7 +232,7 @@ class LessThanEqualToScalar(TransformPrimitive):
 
     def __init__(self, value=0):
         self.value = value
-        self.description_template = "whether {{}} is less than or equal to {}".format(self.value)
+        self.description_template = "whether {{}} is less than or equal to {}".format(escape_braces(self.value))
 
     def get_function(self):
         def less_than_equal_to_scalar(vals):
@@ -296,7 +297,7 @@ class EqualScalar(TransformPrimitive):
 
     def __init__(self, value=None):
         self.value = value
-        self.description_template = "whether {{}} equals {}".format(self.value)
+        self.description_template = "whether {{}} equals {}".format(escape_braces(self.value))
 
     def get_function(self):
         def equal_scalar(vals):
@@ -361,7 +362,7 @@ class NotEqualScalar(TransformPrimitive):
 
     def __init__(self, value=None):
         self.value = value
-        self.description_template = "whether {{}} does not equal {}".format(self.value)
+        self.description_template = "whether {{}} does not equal {}".format(escape_braces(self.value))
 
     def get_function(self):
         def not_equal_scalar(vals):
diff --git a/featuretools/primitives/standard/transform_primitive.py b/featuretools/primitives/standard/transform_primitive.py
index aca2db1..4c59ea7 100644
--- a/featuretools/primitives/standard/transform_primitive.py
+++ b/featuretools/primitives/standard/transform_primitive.py
@@ -6,6 +6,7 @@ from featuretools.primitives.base.transform_primitive_base import (
     TransformPrimitive
 )
 from featuretools.utils import convert_time_units
+from featuretools.utils.description_utils import escape_braces
 from featuretools.utils.entity_utils import replace_latlong_nan
 from featuretools.utils.gen_utils import Library
 from featuretools.variable_types import (
@@ -440,7 +441,7 @@ class IsIn(TransformPrimitive):
             stringified_output_list = '[]'
         else:
             stringified_output_list = ', '.join([str(x) for x in list_of_outputs])
-        self.description_template = "whether {{}} is in {}".format(stringified_output_list)
+        self.description_template = "whether {{}} is in {}".format(escape_braces(stringified_output_list))
 
     def get_function(self):
         def pd_is_in(array):
diff --git a/featuretools/utils/description_utils.py b/featuretools/utils/description_utils.py
index 063fbdf..8cc8432 100644
--- a/featuretools/utils/description_utils.py
+++ b/featuretools/utils/description_utils.py
@@ -9,3 +9,8 @@ def convert_to_nth(integer):
         return str(string_nth) + 'rd'
     else:
         return str(string_nth) + 'th'
+
+
+def escape_braces(value):
+    """The text of a value, for use inside of a description template"""
+    return str(value).replace('{', '{{').replace('}', '}}')
-- 
2.43.0


From 0efb47b01ab846e4a2a7e8328db4eb397dd13ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 80/91] fix: graph of a feature with a colon in a name could
 not be drawn

The name of a comparison with a time contains colons, which split the name of a
node in edges. Names of entities were not escaped either.
---
 .../feature_base/feature_visualizer.py        | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/featuretools/feature_base/feature_visualizer.py b/featuretools/feature_base/feature_visualizer.py
index bac4ea5..1faa642 100644
--- a/featuretools/feature_base/feature_visualizer.py
+++ b/featuretools/feature_base/feature_visualizer.py
@@ -64,7 +64,7 @@ def graph_feature(feature, to_file=None, description=False, **kwargs):
         entity_name = '\u2605 {} (target)'.format(entity) if entity == feature.entity.id else entity
         entity_table = get_entity_table(entity_name, entities[entity])
         graph.attr('node', shape='plaintext')
-        graph.node(entity, entity_table)
+        graph.node(get_id(entity), entity_table)
 
     graph.attr('node', shape='diamond')
     num_primitives = len(primitives)
@@ -117,7 +117,7 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
     entity_dict = entities[feat.entity.id]
 
     # if we've already explored this feat, continue
-    feat_node = "{}:{}".format(feat.entity.id, feat_name)
+    feat_node = get_node(feat.entity.id, feat_name)
     if feat_name in entity_dict['vars'] or feat_name in entity_dict['feats']:
         return feat_node, layer
 
@@ -140,7 +140,7 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
             prim_type = 'Aggregation'
         elif isinstance(feat, TransformFeature):
             prim_type = 'Transform'
-        primitive_node = "{}_{}_{}".format(layer, feat_name, prim_name)
+        primitive_node = get_id("{}_{}_{}".format(layer, feat_name, prim_name))
         primitives.append((primitive_node, prim_name.upper(), layer, prim_type))
 
         edges[1].append([primitive_node, base_node])
@@ -153,15 +153,15 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
             if r.child_entity.id not in entities:
                 add_entity(r.child_entity, entities)
             entities[r.child_entity.id]['vars'].add(r.child_variable.name)
-            child_node = '{}:{}'.format(r.child_entity.id, r.child_variable.name)
+            child_node = get_node(r.child_entity.id, r.child_variable.name)
             edges[0].append([base_node, child_node])
         else:
             if r.child_entity.id not in entities:
                 add_entity(r.child_entity, entities)
             entities[r.child_entity.id]['vars'].add(r.child_variable.name)
-            child_node = '{}:{}'.format(r.child_entity.id, r.child_variable.name)
+            child_node = get_node(r.child_entity.id, r.child_variable.name)
             child_name = child_node.replace(':', '--')
-            groupby_node = "{}_groupby_{}".format(feat_name, child_name)
+            groupby_node = get_id("{}_groupby_{}".format(feat_name, child_name))
             groupby_name = 'group by\n{}'.format(r.child_variable.name)
             groupbys.append((groupby_node, groupby_name))
             edges[0].append([child_node, groupby_node])
@@ -179,9 +179,9 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
         else:
             entities[groupby.entity.id]['feats'].add(groupby_name)
 
-        child_node = '{}:{}'.format(groupby.entity.id, groupby_name)
+        child_node = get_node(groupby.entity.id, groupby_name)
         child_name = child_node.replace(':', '--')
-        groupby_node = "{}_groupby_{}".format(feat_name, child_name)
+        groupby_node = get_id("{}_groupby_{}".format(feat_name, child_name))
         groupby_name = 'group by\n{}'.format(groupby_name)
         groupbys.append((groupby_node, groupby_name))
         edges[0].append([child_node, groupby_node])
@@ -199,6 +199,20 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
     return feat_node, max_depth
 
 
+def get_id(name):
+    '''
+    colons separate a node from its port, so nodes and ports are named without them
+    '''
+    return name.replace(':', '--')
+
+
+def get_node(entity_id, name):
+    '''
+    node and port of a variable or feature in the table of an entity
+    '''
+    return '{}:{}'.format(get_id(entity_id), get_id(name))
+
+
 def add_entity(entity, entity_dict):
     entity_dict[entity.id] = {
         'index': entity.index,
@@ -220,10 +234,10 @@ def get_entity_table(entity_name, entity_dict):
     # If the index is used, make sure it's the first element in the table
     clean_index = html.escape(index)
     if index in variables:
-        rows = [COL_TEMPLATE.format(clean_index, clean_index + " (index)")]
+        rows = [COL_TEMPLATE.format(get_id(clean_index), clean_index + " (index)")]
         variables.discard(index)
     elif index in targets:
-        rows = [TARGET_TEMPLATE.format(clean_index, clean_index + " (index)")]
+        rows = [TARGET_TEMPLATE.format(get_id(clean_index), clean_index + " (index)")]
         targets.discard(index)
     else:
         rows = []
@@ -234,8 +248,8 @@ def get_entity_table(entity_name, entity_dict):
             template = TARGET_TEMPLATE
 
         var = html.escape(var)
-        rows.append(template.format(var, var))
+        rows.append(template.format(get_id(var), var))
 
-    table = TABLE_TEMPLATE.format(entity_name=entity_name,
+    table = TABLE_TEMPLATE.format(entity_name=html.escape(entity_name),
                                   table_cols="\n".join(rows))
     return table
-- 
2.43.0


From d1bfc2990b728f47d936cc454fbe1b78e4c1774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 81/91] fix: graph of a feature merged the steps of features
 with the same name in different entities

---
 .../feature_base/feature_visualizer.py        | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/featuretools/feature_base/feature_visualizer.py b/featuretools/feature_base/feature_visualizer.py
index 1faa642..ffdca9c 100644
--- a/featuretools/feature_base/feature_visualizer.py
+++ b/featuretools/feature_base/feature_visualizer.py
@@ -57,7 +57,7 @@ def graph_feature(feature, to_file=None, description=False, **kwargs):
     primitives = []
     groupbys = []
 
-    _, max_depth = get_feature_data(feature, entities, groupbys, edges, primitives, layer=0)
+    _, max_depth = get_feature_data(feature, entities, groupbys, edges, primitives, {}, layer=0)
     entities[feature.entity.id]['targets'].add(feature.get_name())
 
     for entity in entities:
@@ -109,7 +109,7 @@ def graph_feature(feature, to_file=None, description=False, **kwargs):
     return graph
 
 
-def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
+def get_feature_data(feat, entities, groupbys, edges, primitives, steps, layer=0):
     # 1) add feature to entities tables:
     feat_name = feat.get_name()
     if feat.entity.id not in entities:
@@ -140,7 +140,7 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
             prim_type = 'Aggregation'
         elif isinstance(feat, TransformFeature):
             prim_type = 'Transform'
-        primitive_node = get_id("{}_{}_{}".format(layer, feat_name, prim_name))
+        primitive_node = get_step("{}_{}_{}".format(layer, feat_name, prim_name), feat, steps)
         primitives.append((primitive_node, prim_name.upper(), layer, prim_type))
 
         edges[1].append([primitive_node, base_node])
@@ -161,7 +161,7 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
             entities[r.child_entity.id]['vars'].add(r.child_variable.name)
             child_node = get_node(r.child_entity.id, r.child_variable.name)
             child_name = child_node.replace(':', '--')
-            groupby_node = get_id("{}_groupby_{}".format(feat_name, child_name))
+            groupby_node = get_step("{}_groupby_{}".format(feat_name, child_name), feat, steps)
             groupby_name = 'group by\n{}'.format(r.child_variable.name)
             groupbys.append((groupby_node, groupby_name))
             edges[0].append([child_node, groupby_node])
@@ -170,7 +170,7 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
 
     if hasattr(feat, 'groupby'):
         groupby = feat.groupby
-        _ = get_feature_data(groupby, entities, groupbys, edges, primitives, layer + 1)
+        _ = get_feature_data(groupby, entities, groupbys, edges, primitives, steps, layer + 1)
         dependencies.remove((groupby.hash(), groupby))
 
         groupby_name = groupby.get_name()
@@ -181,7 +181,7 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
 
         child_node = get_node(groupby.entity.id, groupby_name)
         child_name = child_node.replace(':', '--')
-        groupby_node = get_id("{}_groupby_{}".format(feat_name, child_name))
+        groupby_node = get_step("{}_groupby_{}".format(feat_name, child_name), feat, steps)
         groupby_name = 'group by\n{}'.format(groupby_name)
         groupbys.append((groupby_node, groupby_name))
         edges[0].append([child_node, groupby_node])
@@ -191,7 +191,7 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, layer=0):
     # 5) recurse over dependents
     max_depth = layer
     for _, f in dependencies:
-        dependent_node, depth = get_feature_data(f, entities, groupbys, edges, primitives, layer + 1)
+        dependent_node, depth = get_feature_data(f, entities, groupbys, edges, primitives, steps, layer + 1)
         edges[1].append([dependent_node, base_node])
 
         max_depth = max(depth, max_depth)
@@ -213,6 +213,16 @@ def get_node(entity_id, name):
     return '{}:{}'.format(get_id(entity_id), get_id(name))
 
 
+def get_step(name, feat, steps):
+    '''
+    node of a step towards a feature, not that of a feature of the same name in another entity
+    '''
+    step = get_id(name)
+    if steps.setdefault(step, feat.entity.id) != feat.entity.id:
+        step = get_id('{}_{}'.format(feat.entity.id, name))
+    return step
+
+
 def add_entity(entity, entity_dict):
     entity_dict[entity.id] = {
         'index': entity.index,
-- 
2.43.0


From 8238c1be6e05d91f109ee6f7aa6e0a04ef05323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 82/91] fix: saving a plot to a Path raised

---
 featuretools/utils/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/plot_utils.py b/featuretools/utils/plot_utils.py
index dfb286b..b64264a 100644
--- a/featuretools/utils/plot_utils.py
+++ b/featuretools/utils/plot_utils.py
@@ -45,5 +45,5 @@ def save_graph(graph, to_file, format_):
     # Graphviz always appends the format to the file name, so we need to
     # remove it manually to avoid file names like 'file_name.pdf.pdf'
     offset = len(format_) + 1  # Add 1 for the dot
-    output_path = to_file[:-offset]
+    output_path = str(to_file)[:-offset]
     graph.render(output_path, cleanup=True)
-- 
2.43.0


From 555f92a2577f3d4757fd6fbde25295579e2ffcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 83/91] fix: names with characters special to graphviz spoiled
 the plot of an EntitySet

---
 featuretools/entityset/entityset.py           | 13 ++++++-----
 .../feature_base/feature_visualizer.py        | 22 +++++++------------
 featuretools/utils/plot_utils.py              | 12 ++++++++++
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index c863ebb..199c6b5 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -16,7 +16,9 @@ from featuretools.entityset.relationship import Relationship, RelationshipPath
 from featuretools.utils.gen_utils import import_or_none, is_instance
 from featuretools.utils.plot_utils import (
     check_graphviz,
+    escape_record,
     get_graphviz_format,
+    get_node_id,
     save_graph
 )
 from featuretools.utils.wrangle import _check_timedelta
@@ -963,14 +965,15 @@ class EntitySet(object):
 
         # Draw entities
         for entity in self.entities:
-            variables_string = '\l'.join([var.id + ' : ' + var.type_string  # noqa: W605
+            entity_id = escape_record(entity.id)
+            variables_string = '\l'.join([escape_record(var.id) + ' : ' + var.type_string  # noqa: W605
                                           for var in entity.variables])
             if isinstance(entity.df, dd.DataFrame):  # entity is a dask entity
-                label = '{%s |%s\l}' % (entity.id, variables_string)  # noqa: W605
+                label = '{%s |%s\l}' % (entity_id, variables_string)  # noqa: W605
             else:
                 nrows = entity.shape[0]
-                label = '{%s (%d row%s)|%s\l}' % (entity.id, nrows, 's' * (nrows > 1), variables_string)  # noqa: W605
-            graph.node(entity.id, shape='record', label=label)
+                label = '{%s (%d row%s)|%s\l}' % (entity_id, nrows, 's' * (nrows > 1), variables_string)  # noqa: W605
+            graph.node(get_node_id(entity.id), shape='record', label=label)
 
         # Draw relationships
         for rel in self.relationships:
@@ -981,7 +984,7 @@ class EntitySet(object):
                 label = '%s -> %s' % (rel._parent_variable_id,
                                       rel._child_variable_id)
 
-            graph.edge(rel._child_entity_id, rel._parent_entity_id, xlabel=label)
+            graph.edge(get_node_id(rel._child_entity_id), get_node_id(rel._parent_entity_id), xlabel=label)
 
         if to_file:
             save_graph(graph, to_file, format_)
diff --git a/featuretools/feature_base/feature_visualizer.py b/featuretools/feature_base/feature_visualizer.py
index ffdca9c..128c8ed 100644
--- a/featuretools/feature_base/feature_visualizer.py
+++ b/featuretools/feature_base/feature_visualizer.py
@@ -11,6 +11,7 @@ from featuretools.feature_base.feature_descriptions import describe_feature
 from featuretools.utils.plot_utils import (
     check_graphviz,
     get_graphviz_format,
+    get_node_id,
     save_graph
 )
 
@@ -64,7 +65,7 @@ def graph_feature(feature, to_file=None, description=False, **kwargs):
         entity_name = '\u2605 {} (target)'.format(entity) if entity == feature.entity.id else entity
         entity_table = get_entity_table(entity_name, entities[entity])
         graph.attr('node', shape='plaintext')
-        graph.node(get_id(entity), entity_table)
+        graph.node(get_node_id(entity), entity_table)
 
     graph.attr('node', shape='diamond')
     num_primitives = len(primitives)
@@ -199,27 +200,20 @@ def get_feature_data(feat, entities, groupbys, edges, primitives, steps, layer=0
     return feat_node, max_depth
 
 
-def get_id(name):
-    '''
-    colons separate a node from its port, so nodes and ports are named without them
-    '''
-    return name.replace(':', '--')
-
-
 def get_node(entity_id, name):
     '''
     node and port of a variable or feature in the table of an entity
     '''
-    return '{}:{}'.format(get_id(entity_id), get_id(name))
+    return '{}:{}'.format(get_node_id(entity_id), get_node_id(name))
 
 
 def get_step(name, feat, steps):
     '''
     node of a step towards a feature, not that of a feature of the same name in another entity
     '''
-    step = get_id(name)
+    step = get_node_id(name)
     if steps.setdefault(step, feat.entity.id) != feat.entity.id:
-        step = get_id('{}_{}'.format(feat.entity.id, name))
+        step = get_node_id('{}_{}'.format(feat.entity.id, name))
     return step
 
 
@@ -244,10 +238,10 @@ def get_entity_table(entity_name, entity_dict):
     # If the index is used, make sure it's the first element in the table
     clean_index = html.escape(index)
     if index in variables:
-        rows = [COL_TEMPLATE.format(get_id(clean_index), clean_index + " (index)")]
+        rows = [COL_TEMPLATE.format(get_node_id(clean_index), clean_index + " (index)")]
         variables.discard(index)
     elif index in targets:
-        rows = [TARGET_TEMPLATE.format(get_id(clean_index), clean_index + " (index)")]
+        rows = [TARGET_TEMPLATE.format(get_node_id(clean_index), clean_index + " (index)")]
         targets.discard(index)
     else:
         rows = []
@@ -258,7 +252,7 @@ def get_entity_table(entity_name, entity_dict):
             template = TARGET_TEMPLATE
 
         var = html.escape(var)
-        rows.append(template.format(get_id(var), var))
+        rows.append(template.format(get_node_id(var), var))
 
     table = TABLE_TEMPLATE.format(entity_name=html.escape(entity_name),
                                   table_cols="\n".join(rows))
diff --git a/featuretools/utils/plot_utils.py b/featuretools/utils/plot_utils.py
index b64264a..23315cf 100644
--- a/featuretools/utils/plot_utils.py
+++ b/featuretools/utils/plot_utils.py
@@ -1,3 +1,5 @@
+import re
+
 from featuretools.utils.gen_utils import import_or_raise
 
 
@@ -47,3 +49,13 @@ def save_graph(graph, to_file, format_):
     offset = len(format_) + 1  # Add 1 for the dot
     output_path = str(to_file)[:-offset]
     graph.render(output_path, cleanup=True)
+
+
+def get_node_id(name):
+    # colons would separate the node from its port
+    return name.replace(':', '--')
+
+
+def escape_record(text):
+    # characters with a meaning in the label of a record
+    return re.sub(r'([{}|<>\\])', r'\\\1', text)
-- 
2.43.0


From e16c727198ca64a4a158ef4f7632cbe3f14fb547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:48 +0000
Subject: [PATCH 84/91] fix: features with too few or too many inputs for their
 primitive were accepted

---
 featuretools/feature_base/feature_base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 21ca307..898a6ed 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -138,6 +138,9 @@ class FeatureBase(object):
                             max_depth)
         return max_depth + 1
 
+    def _primitive_inputs(self):
+        return self.base_features
+
     def _check_input_types(self):
         if len(self.base_features) == 0:
             return True
@@ -147,9 +150,10 @@ class FeatureBase(object):
             if type(input_types[0]) != list:
                 input_types = [input_types]
 
+            inputs = self._primitive_inputs()
             for t in input_types:
-                zipped = list(zip(t, self.base_features))
-                if all([issubclass(f.variable_type, v) for v, f in zipped]):
+                zipped = list(zip(t, inputs))
+                if len(t) == len(inputs) and all([issubclass(f.variable_type, v) for v, f in zipped]):
                     return True
         else:
             return True
@@ -697,6 +701,10 @@ class GroupByTransformFeature(TransformFeature):
                                                       primitive=primitive,
                                                       name=name)
 
+    def _primitive_inputs(self):
+        # the groupby is not an input of the primitive
+        return self.base_features[:-1]
+
     @classmethod
     def from_dictionary(cls, arguments, entityset, dependencies, primitives_deserializer):
         base_features = [dependencies[name] for name in arguments['base_features']]
-- 
2.43.0


From fc46d94e828ecdf9faba2ca654bf145a6d6d9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:24 +0000
Subject: [PATCH 85/91] fix: aggregating with a method or a built-in function
 raised, other functions were renamed

---
 .../computational_backends/feature_set_calculator.py  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index fd4d847..e17d5fc 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -690,14 +690,17 @@ class FeatureSetCalculator(object):
                         agg_copies[f.get_name()] = agg_rename[agg_key]
                         continue
 
-                    if callable(func):
-                        func.__name__ = funcname
-
                     if isinstance(func, dd.Aggregation):
                         # TODO: handle aggregation being applied to same variable twice
                         funcname = func.__name__
 
-                    to_agg[variable_id].append(func)
+                    if isinstance(base_frame, pd.DataFrame):
+                        # tell pandas how to name the column
+                        to_agg[variable_id].append((funcname, func))
+                    else:
+                        if callable(func):
+                            func.__name__ = funcname
+                        to_agg[variable_id].append(func)
                     # this is used below to rename columns that pandas names for us
                     agg_rename[u"{}-{}".format(variable_id, funcname)] = f.get_name()
                     continue
-- 
2.43.0


From 1a84fabc01116ca5f1e688676df0933a4bedcf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 86/91] fix: list_primitive_files listed directories

---
 featuretools/primitives/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/utils.py b/featuretools/primitives/utils.py
index 468a8a7..dd19b4b 100644
--- a/featuretools/primitives/utils.py
+++ b/featuretools/primitives/utils.py
@@ -132,9 +132,10 @@ def list_primitive_files(directory):
     files = os.listdir(directory)
     keep = []
     for path in files:
+        path = os.path.join(directory, path)
         if not check_valid_primitive_path(path):
             continue
-        keep.append(os.path.join(directory, path))
+        keep.append(path)
     return keep
 
 
-- 
2.43.0


From a48b8fb20aff03da8ca466aca2d98e11a8ef6607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 87/91] fix: mock customers with an unbought product could not
 be made into an entityset

---
 featuretools/demo/mock_customer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/demo/mock_customer.py b/featuretools/demo/mock_customer.py
index 7c3c4b4..04c6fc0 100644
--- a/featuretools/demo/mock_customer.py
+++ b/featuretools/demo/mock_customer.py
@@ -36,7 +36,8 @@ def load_mock_customer(n_customers=5, n_products=5, n_sessions=35, n_transaction
     transactions_df["session_id"] = choice(sessions_df["session_id"], n_transactions)
     transactions_df = transactions_df.sort_values("session_id").reset_index(drop=True)
     transactions_df["transaction_time"] = pd.date_range('1/1/2014', periods=n_transactions, freq='65s')  # todo make these less regular
-    transactions_df["product_id"] = pd.Categorical(choice(products_df["product_id"], n_transactions))
+    transactions_df["product_id"] = pd.Categorical(choice(products_df["product_id"], n_transactions),
+                                                   categories=products_df["product_id"].cat.categories)
     transactions_df["amount"] = random.randint(500, 15000, n_transactions) / 100
 
     # calculate and merge in session start
-- 
2.43.0


From 287b5c49177cbdf508aaeb9213cb8b9f51b652f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 88/91] fix: dask entitysets written where there was one kept
 its partitions, or read those of other entities

---
 featuretools/entityset/serialize.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index e9822f2..9119462 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -91,7 +91,8 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     '''
     format = format.lower()
     if isinstance(entity.df, dd.DataFrame) and format == 'csv':
-        basename = "{}-*.{}".format(entity.id, format)
+        # in a folder of its own, as names of other entities may start alike
+        basename = os.path.join(entity.id, "*.{}".format(format))
     else:
         basename = '.'.join([entity.id, format])
     location = os.path.join('data', basename)
@@ -107,13 +108,15 @@ def write_entity_data(entity, path, format='csv', **kwargs):
             df = df.copy()
             columns = list(df.select_dtypes('object').columns)
             df[columns] = df[columns].astype(str)
-        df.to_csv(
+        written = df.to_csv(
             file,
             index=kwargs['index'],
             sep=kwargs['sep'],
             encoding=kwargs['encoding'],
             compression=kwargs['compression'],
         )
+        if isinstance(df, dd.DataFrame):
+            _remove_other_files(os.path.dirname(file), written, '.csv')
     elif format == 'parquet':
         # Serializing to parquet format raises an error when columns contain tuples.
         # Columns containing tuples are mapped as dtype object.
@@ -133,6 +136,8 @@ def write_entity_data(entity, path, format='csv', **kwargs):
                 # Missing values stay missing.
                 df[column] = df[column].where(df[column].isnull(), df[column].astype(str))
         df.to_parquet(file, **kwargs)
+        if isinstance(df, dd.DataFrame):
+            _remove_other_files(file, ['part.%i.parquet' % i for i in range(df.npartitions)], '.parquet')
     elif format == 'pickle':
         # Dask currently does not support to_pickle
         if isinstance(df, dd.DataFrame):
@@ -146,6 +151,14 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     return loading_info
 
 
+def _remove_other_files(folder, written, extension):
+    '''Remove the partitions which were written to the folder earlier.'''
+    written = {os.path.basename(file) for file in written}
+    for file in os.listdir(folder):
+        if file.endswith(extension) and file not in written:
+            os.remove(os.path.join(folder, file))
+
+
 def _string_columns(df):
     '''Columns which hold strings (and missing values) only.'''
     columns = []
-- 
2.43.0


From 40ca4824dd744229b98f7efc303afe623e53b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 89/91] fix: directories called http... or ....tar were taken
 for urls and archives

---
 featuretools/utils/wrangle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index c5327c2..1c11797 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -1,3 +1,4 @@
+import os
 import re
 import tarfile
 from datetime import datetime
@@ -189,7 +190,7 @@ def _is_url(string):
     Checks if the given string is an url path.
     Returns a boolean.
     '''
-    return string.startswith("http")
+    return string.startswith(("http://", "https://"))
 
 
 def _is_local_tar(string):
@@ -197,4 +198,4 @@ def _is_local_tar(string):
     Checks if the given string is a local tarfile path.
     Returns a boolean.
     '''
-    return string.endswith(".tar") and tarfile.is_tarfile(string)
+    return string.endswith(".tar") and not os.path.isdir(string) and tarfile.is_tarfile(string)
-- 
2.43.0


From ac39d590769c470b53e05a40f6ff1f500f295fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 90/91] fix: data of dask entitysets read from archives was
 gone

---
 featuretools/entityset/deserialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index aa608da..f27d0ab 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -281,7 +281,14 @@ def read_entityset(path, profile_name=None, **kwargs):
                 tar.extractall(path=tmpdir)
 
             data_description = read_data_description(tmpdir)
-            return description_to_entityset(data_description, **kwargs)
+            entityset = description_to_entityset(data_description, **kwargs)
+            for entity in entityset.entities:
+                # what dask has not read yet would be gone with the temporary directory
+                if isinstance(entity.df, dd.DataFrame):
+                    entity.df = entity.df.persist()
+                if isinstance(entity.last_time_index, dd.Series):
+                    entity.last_time_index = entity.last_time_index.persist()
+            return entityset
     else:
         data_description = read_data_description(path)
         return description_to_entityset(data_description, **kwargs)
-- 
2.43.0


From ef0f4845c63a5d468b7e2d03696c6c8b41932628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:16 +0000
Subject: [PATCH 91/91] fix: rows with an empty string in the only column were
 lost in csv

---
 featuretools/entityset/deserialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index f27d0ab..f5d667e 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -183,6 +183,8 @@ def read_entity_data(description, path):
             read_kwargs['dtype'] = {column: str for column in string_columns}
             read_kwargs['keep_default_na'] = False
             read_kwargs['na_values'] = ['']
+            # An empty line is a row with an empty string in the only column.
+            read_kwargs['skip_blank_lines'] = False
         dataframe = lib.read_csv(
             file,
             sep=kwargs.get('sep', ','),
-- 
2.43.0


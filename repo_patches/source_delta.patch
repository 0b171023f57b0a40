From 13ef681c857165e6d3365a9e4e1c308a3bcb486f Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 01/75] fix: ListDict.pop removes the entry of the given key

---
 mt_metadata/common/list_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index 0ba55c1..d4aa581 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -297,7 +297,7 @@ class ListDict:
         """
 
         if key in self.keys():
-            return dict([self._home.popitem(key)])
+            return {key: self._home.pop(key)}
         else:
             raise KeyError(f"{key} is not in ListDict keys.")
 
-- 
2.43.0


From 899304cf5d3e133a68a8b0e14a48fa0dded79a30 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 02/75] fix: an absent container of channels, runs, stations or
 filters reads as empty

---
 mt_metadata/timeseries/run.py     | 2 ++
 mt_metadata/timeseries/station.py | 2 ++
 mt_metadata/timeseries/survey.py  | 4 +++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77867e7..44ca394 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -318,6 +318,8 @@ class Run(MetadataBase):
     @field_validator("channels", mode="before")
     @classmethod
     def validate_channels(cls, value, info: ValidationInfo) -> ListDict:
+        if value is None:
+            return ListDict()
         if not isinstance(value, (list, tuple, dict, ListDict, OrderedDict)):
             msg = (
                 "input run_list must be an iterable, should be a list or dict "
diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index ff04a64..1d8caed 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -299,6 +299,8 @@ class Station(MetadataBase):
     @field_validator("runs", mode="before")
     @classmethod
     def validate_runs(cls, value, info: ValidationInfo) -> ListDict:
+        if value is None:
+            return ListDict()
         if not isinstance(value, (list, tuple, dict, ListDict, OrderedDict)):
             msg = (
                 "input runs must be an iterable, should be a list or dict "
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 2c4c381..4bc2287 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -379,6 +379,8 @@ class Survey(MetadataBase):
     @field_validator("stations", mode="before")
     @classmethod
     def validate_stations(cls, value, info: ValidationInfo) -> ListDict:
+        if value is None:
+            return ListDict()
         if not isinstance(value, (list, tuple, dict, ListDict, OrderedDict)):
             msg = (
                 "input stations must be an iterable, should be a list or dict "
@@ -438,7 +440,7 @@ class Survey(MetadataBase):
         filters = ListDict()
         fails = []
         if value is None:
-            return
+            return filters
 
         if isinstance(value, list):
             if len(value) > 0:
-- 
2.43.0


From d00f32df06be4a33bc349c5e52a31c2452b23eb5 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 03/75] fix: Z-file channel reads its own dictionary form

---
 mt_metadata/transfer_functions/io/zfiles/metadata/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
index 37c52ae..2eaa43d 100644
--- a/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
+++ b/mt_metadata/transfer_functions/io/zfiles/metadata/channel.py
@@ -125,6 +125,9 @@ class Channel(MetadataBase):
         """
         fill attributes from a dictionary
         """
+        # to_dict wraps the attributes in the class name
+        if isinstance(channel_dict.get("channel"), dict):
+            channel_dict = channel_dict["channel"]
 
         for key, value in channel_dict.items():
             if key in ["azm", "azimuth", "measurement_azimuth"]:
-- 
2.43.0


From 0e54389c10b35b1ef55c87922f0e36621f3c91e6 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 04/75] fix: a list of decimation levels is taken once, not
 twice

---
 mt_metadata/processing/aurora/processing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 87466f9..979736a 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -122,9 +122,6 @@ class Processing(MetadataBase):
                     decimation_levels.append(obj)
 
         elif isinstance(value, list):
-            for obj in value:
-                if isinstance(obj, DecimationLevel):
-                    decimation_levels.append(obj)
             for obj in value:
                 if isinstance(obj, DecimationLevel):
                     decimation_levels.append(obj)
-- 
2.43.0


From 7b08f1727a3cf88b1ff1a9448e5d7e87a10252e0 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 05/75] fix: weight kernels survive the dictionary form they
 are written in

---
 mt_metadata/features/weights/feature_weight_spec.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index 01a3e88..dbdc59a 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -35,6 +35,12 @@ weight_classes = {
     "activation": ActivationMonotonicWeightKernel,
 }
 
+kernel_classes = {
+    "monotonic_weight_kernel": MonotonicWeightKernel,
+    "taper_monotonic_weight_kernel": TaperMonotonicWeightKernel,
+    "activation_monotonic_weight_kernel": ActivationMonotonicWeightKernel,
+}
+
 
 # =====================================================
 class FeatureNameEnum(str, Enum):
@@ -175,6 +181,12 @@ class FeatureWeightSpec(MetadataBase):
         for item in value:
             if isinstance(item, dict) and "weight_kernel" in item:
                 item = item["weight_kernel"]
+            if isinstance(item, dict) and len(item) == 1:
+                # the form to_dict writes, wrapped in the name of the class
+                kernel_name = next(iter(item))
+                if kernel_name in kernel_classes:
+                    kernels.append(kernel_classes[kernel_name](**item[kernel_name]))
+                    continue
             if isinstance(item, dict):
                 # Use the 'style' field to determine which kernel class to use
                 style = str(item.get("style", ""))
-- 
2.43.0


From 56f916b7986cbf2601a1e4f583f93b4905846713 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 06/75] fix: a channel response reads its filters from their
 dictionary form

---
 .../timeseries/filters/channel_response.py       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mt_metadata/timeseries/filters/channel_response.py b/mt_metadata/timeseries/filters/channel_response.py
index 29b580b..0dc173a 100644
--- a/mt_metadata/timeseries/filters/channel_response.py
+++ b/mt_metadata/timeseries/filters/channel_response.py
@@ -173,6 +173,20 @@ class ChannelResponse(FilterBase):
                     object.__setattr__(self, "normalization_frequency", norm_freq)
         return self
 
+    @classmethod
+    def _filter_from_dict(cls, filter_dict: dict):
+        """make the filter a dictionary describes; other dictionaries are returned as given"""
+        values = filter_dict
+        if len(filter_dict) == 1:
+            values = next(iter(filter_dict.values()))
+        if isinstance(values, dict):
+            for filter_class in cls._supported_filters.default:
+                new_filter = filter_class()
+                if new_filter.type == values.get("type"):
+                    new_filter.from_dict(filter_dict)
+                    return new_filter
+        return filter_dict
+
     @classmethod
     def _validate_filters_list(cls, filters_list):
         """
@@ -202,6 +216,8 @@ class ChannelResponse(FilterBase):
         fails = []
         return_list = []
         for item in filters_list:
+            if isinstance(item, dict):
+                item = cls._filter_from_dict(item)
             if is_supported_filter(item):
                 return_list.append(item)
             else:
-- 
2.43.0


From 73835f083dd710efce709c02050c4bcf9fc873c7 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 07/75] fix: dotted names inside a class-name dictionary are
 kept at construction

---
 mt_metadata/base/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1c88e17..b4c3617 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -88,7 +88,7 @@ class DotNotationBaseModel(BaseModel):
                     if isinstance(value, dict):
                         # If the value is a dict, we need to flatten it
                         for nested_key, nested_value in value.items():
-                            if isinstance(nested_value, dict):
+                            if "." in nested_key or isinstance(nested_value, dict):
                                 # Flatten nested dicts
                                 self._set_nested_attribute(
                                     nested_data, nested_key, nested_value
-- 
2.43.0


From e96ea4b983c2feaa622a8948a42495b32539a6b1 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 08/75] fix: a funding source reads back the empty url it
 writes

---
 mt_metadata/common/funding_source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/common/funding_source.py b/mt_metadata/common/funding_source.py
index ee48ccc..b8e2564 100644
--- a/mt_metadata/common/funding_source.py
+++ b/mt_metadata/common/funding_source.py
@@ -130,11 +130,11 @@ class FundingSource(MetadataBase):
         elif isinstance(value, (EmailStr, AnyHttpUrl)):
             return [value]
 
+        elif value is None or value == "":
+            return None
+
         elif isinstance(value, str):
             return [item.strip() for item in value.split(",")]
 
-        elif value is None:
-            return None
-
         else:
             raise TypeError(f"Cannot form a list from types {type(value)}.")
-- 
2.43.0


From deede9a52d337086eda0f25b166077eaa3cb37d8 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 09/75] fix: arrays holding a zero are written with the
 required attributes

---
 mt_metadata/base/metadata.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index b4c3617..5f424aa 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1122,10 +1122,7 @@ class MetadataBase(DotNotationBaseModel):
                 value = None
             if required:
                 if isinstance(value, (np.ndarray)):
-                    if name == "zeros" or name == "poles":
-                        meta_dict[name] = value
-                    elif value.all() != 0:
-                        meta_dict[name] = value
+                    meta_dict[name] = value
                 elif hasattr(value, "size"):
                     if value.size > 0:
                         meta_dict[name] = value
-- 
2.43.0


From c1a27adbfb2ac34e73a3e2be80911e51c251c6cf Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 10/75] fix: dictionary attributes read back from dictionaries
 and JSON

---
 mt_metadata/base/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 5f424aa..0486570 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -183,8 +183,10 @@ class DotNotationBaseModel(BaseModel):
             current = getattr(current, part)
 
         # Set the final attribute
-        setattr(current, parts[-1], attr_value)
-        setattr(current, parts[-1], attr_value)
+        if isinstance(current, dict):
+            current[parts[-1]] = attr_value
+        else:
+            setattr(current, parts[-1], attr_value)
 
 
 class MetadataBase(DotNotationBaseModel):
-- 
2.43.0


From bfe6817016735b55f6897ed37314bece45a21470 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 11/75] fix: Experiment reads a single filter of a kind

---
 mt_metadata/timeseries/experiment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 976ec0a..fa195be 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -566,7 +566,7 @@ class Experiment(MetadataBase):
                         mt_filter = PoleZeroFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = PoleZeroFilter(value)
+                    mt_filter = PoleZeroFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["coefficient_filter"]:
@@ -575,7 +575,7 @@ class Experiment(MetadataBase):
                         mt_filter = CoefficientFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = CoefficientFilter(value)
+                    mt_filter = CoefficientFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["time_delay_filter"]:
@@ -584,7 +584,7 @@ class Experiment(MetadataBase):
                         mt_filter = TimeDelayFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = TimeDelayFilter(value)
+                    mt_filter = TimeDelayFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["frequency_response_table_filter"]:
@@ -593,7 +593,7 @@ class Experiment(MetadataBase):
                         mt_filter = FrequencyResponseTableFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FrequencyResponseTableFilter(value)
+                    mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["fir_filter"]:
@@ -602,7 +602,7 @@ class Experiment(MetadataBase):
                         mt_filter = FIRFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FIRFilter(value)
+                    mt_filter = FIRFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
         return return_dict
-- 
2.43.0


From 0839cfa438311fc6c25626229c161515c3f4b562 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 12/75] fix: arrays and complex numbers survive JSON and XML

---
 mt_metadata/base/helpers.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cab2b67..3e7f0e5 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -561,7 +561,8 @@ def flatten_dict(meta_dict, parent_key=None, sep="."):
             new_key = f"{parent_key}{sep}{key}"
         else:
             new_key = key
-        if isinstance(value, MutableMapping):
+        # a complex array written by NumpyEncoder is a value, not a level
+        if isinstance(value, MutableMapping) and set(value) != {"real", "imag"}:
             items.extend(flatten_dict(value, new_key, sep=sep).items())
         else:
             items.append((new_key, value))
@@ -761,7 +762,7 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
 
             sub_element = et.SubElement(element, key)
             recursive_split_xml(sub_element, value, attr_name, key, attr_dict)
-    elif isinstance(item, (tuple, list)):
+    elif isinstance(item, (tuple, list, np.ndarray)):
         for ii in item:
             sub_element = et.SubElement(element, "item")
             recursive_split_xml(sub_element, ii, base, name, attr_dict)
@@ -770,7 +771,7 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
     elif item is None:
         # Leave element.text as None so XML has empty element (no text)
         pass
-    elif isinstance(item, (float, int)):
+    elif isinstance(item, (float, int, complex, np.number)):
         element.text = str(item)
     else:
         # if the value is an hdf5 reference make it a string
@@ -1137,10 +1138,21 @@ def object_to_array(value, dtype=float):
         return np.array(value, dtype=dtype)
     elif isinstance(value, np.ndarray):
         return value.astype(dtype)
+    elif isinstance(value, dict) and set(value) == {"real", "imag"}:
+        # a complex array as written by NumpyEncoder
+        return np.array(
+            [complex(re, im) for re, im in zip(value["real"], value["imag"])],
+            dtype=dtype,
+        )
     elif isinstance(value, str):
         if value in ["", "none", "None"]:
             return np.empty(0)
 
+        if dtype is complex and "j" in value:
+            return np.array(
+                [complex(v) for v in value.replace(",", " ").split()], dtype=dtype
+            )
+
         if not has_numbers(value) and not is_numeric_string(value):
             msg = f"String input must be a single number or a list of numbers, not '{value}'"
             raise TypeError(msg)
-- 
2.43.0


From 801b6b6d4d338bee913f080442cd944cdc39894a Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 13/75] fix: a channel with one applied filter reads back from
 XML

---
 mt_metadata/timeseries/channel.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c72d19b..6f6dfaa 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -779,6 +779,16 @@ class ChannelBase(MetadataBase):
         # Handle new format filters separately to combine with old format
         new_format_filters = meta_dict.pop("filters", None)
 
+        # a single filter read from XML is not in a list
+        single_filter = {
+            key: meta_dict.pop(key)
+            for key in list(meta_dict.keys())
+            if key.startswith("filters.")
+        }
+        if new_format_filters is None and single_filter:
+            single_filter = helpers.structure_dict(single_filter)["filters"]
+            new_format_filters = [single_filter]
+
         for name, value in meta_dict.items():
             if skip_none:
                 if value in NULL_VALUES:
-- 
2.43.0


From 1f5002ca12b149ad99a417f3f4f66b66362b908a Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 14/75] fix: an empty channel or run list of a station reads as
 empty

---
 mt_metadata/timeseries/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 1d8caed..454d68d 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -240,7 +240,7 @@ class Station(MetadataBase):
         Validate that the value is a list of strings.
         """
         if value in NULL_VALUES:
-            return
+            return []
 
         if isinstance(value, np.ndarray):
             value = value.astype(str).tolist()
-- 
2.43.0


From bd7750541b7bb93e9e422a5f9bc188ff31f50ff7 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 15/75] fix: FIR coefficients accept texts and an empty element

---
 mt_metadata/timeseries/filters/fir_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 1684167..8bc2a36 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -112,7 +112,7 @@ class FIRFilter(FilterBase):
         ),
     ]
 
-    @field_validator("coefficients")
+    @field_validator("coefficients", mode="before")
     @classmethod
     def validate_coefficients(
         cls, value: list[float], info: ValidationInfo
@@ -123,6 +123,8 @@ class FIRFilter(FilterBase):
         :param info: Validation information.
         :return: The validated value.
         """
+        if value is None:
+            return np.empty(0)
         if isinstance(value, (list, tuple, np.ndarray)):
             return np.array(value, dtype=float)
         elif isinstance(value, str):
-- 
2.43.0


From 879e3cadd94dde72b26f4e2c6994eda688b15ebd Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 16/75] fix: writing a comment as XML leaves it alone

---
 mt_metadata/common/comment.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 4be889a..7f2ae43 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -240,12 +240,9 @@ class Comment(MetadataBase):
         :rtype: str | et.Element
         """
 
-        if self.author is None:
-            self.author = ""
-        root = et.Element(self.__class__.__name__ + "s", {"author": self.author})
-        if self.value is None:
-            self.value = ""
-        root.text = self.value
+        author = "" if self.author is None else self.author
+        root = et.Element(self.__class__.__name__ + "s", {"author": author})
+        root.text = "" if self.value is None else self.value
 
         if string:
             return element_to_string(root)
-- 
2.43.0


From 42bf2ed39e22b3f9a9314afc3d04a969cd6c2038 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 17/75] Revert "fix: weight kernels survive the dictionary form
 they are written in"

This reverts commit 7b08f1727a3cf88b1ff1a9448e5d7e87a10252e0.
---
 mt_metadata/features/weights/feature_weight_spec.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index dbdc59a..01a3e88 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -35,12 +35,6 @@ weight_classes = {
     "activation": ActivationMonotonicWeightKernel,
 }
 
-kernel_classes = {
-    "monotonic_weight_kernel": MonotonicWeightKernel,
-    "taper_monotonic_weight_kernel": TaperMonotonicWeightKernel,
-    "activation_monotonic_weight_kernel": ActivationMonotonicWeightKernel,
-}
-
 
 # =====================================================
 class FeatureNameEnum(str, Enum):
@@ -181,12 +175,6 @@ class FeatureWeightSpec(MetadataBase):
         for item in value:
             if isinstance(item, dict) and "weight_kernel" in item:
                 item = item["weight_kernel"]
-            if isinstance(item, dict) and len(item) == 1:
-                # the form to_dict writes, wrapped in the name of the class
-                kernel_name = next(iter(item))
-                if kernel_name in kernel_classes:
-                    kernels.append(kernel_classes[kernel_name](**item[kernel_name]))
-                    continue
             if isinstance(item, dict):
                 # Use the 'style' field to determine which kernel class to use
                 style = str(item.get("style", ""))
-- 
2.43.0


From 5921c51fc4bbce3bc493d19d3c83c04575ec7244 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 18/75] fix: comparing metadata with its dictionary or JSON
 form loads that form

---
 mt_metadata/base/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 0486570..f731f67 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -412,9 +412,10 @@ class MetadataBase(DotNotationBaseModel):
 
         elif isinstance(other, (dict, str, pd.Series, et.Element)):
             try:
-                # Attempt to load the other object into a new instance of MetadataBase
+                # Attempt to load the other object into a new instance of this class
                 # This will ensure that the other object has the same attributes as self
-                other_obj = __class__().load(other)
+                other_obj = self.__class__()
+                other_obj.load(other)
             except Exception as e:
                 logger.error(
                     f"Failed to load other object of type {type(other)}: {other}. Error is: {e} "
-- 
2.43.0


From ea04b1916209e14d648ecf4f4f9aa527fecbf90e Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 19/75] fix: equality sees attributes only one of the objects
 has set, and arrays inside of lists

---
 mt_metadata/base/helpers.py  | 19 +++++++++++++++++++
 mt_metadata/base/metadata.py | 22 +++++++++++++++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 3e7f0e5..68acce5 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -585,6 +585,25 @@ def flatten_list(x_list):
     return flat_list
 
 
+def nested_equal(a, b):
+    """
+    Compare two values that may hold arrays inside of lists or dictionaries.
+
+    :param a: first value
+    :param b: second value
+    :return: True if the values are equal
+    :rtype: bool
+
+    """
+    if isinstance(a, dict) and isinstance(b, dict):
+        return a.keys() == b.keys() and all(nested_equal(a[k], b[k]) for k in a)
+    if isinstance(a, (list, tuple)) and type(a) is type(b):
+        return len(a) == len(b) and all(nested_equal(x, y) for x, y in zip(a, b))
+    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
+        return np.array_equal(a, b)
+    return a == b
+
+
 def recursive_split_dict(key, value, remainder, sep="."):
     """
     recursively split a dictionary
diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index f731f67..5fb0e6e 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -489,16 +489,36 @@ class MetadataBase(DotNotationBaseModel):
                 else:
                     if value in NULL_VALUES and other_value in NULL_VALUES:
                         continue
-                    if value != other_value:
+                    if not helpers.nested_equal(value, other_value):
                         msg = f"{key}: {value} != {other_value}"
                         logger.info(msg)
                         equals = False
             except KeyError:
                 msg = "Cannot find {0} in other".format(key)
                 logger.info(msg)
+                if not self._is_unset(value):
+                    equals = False
+
+        # attributes set only in the other object
+        for key, value in other_dict.items():
+            if key in home_dict or any(skip in key for skip in self._skip_equals):
+                continue
+            if not self._is_unset(value):
+                msg = f"Cannot find {key} in self"
+                logger.info(msg)
+                equals = False
 
         return equals
 
+    @staticmethod
+    def _is_unset(value: Any) -> bool:
+        """
+        Check if a value stands for an attribute that has not been set.
+        """
+        if isinstance(value, (np.ndarray, list, tuple, dict)):
+            return len(value) == 0
+        return value in NULL_VALUES or value == 0
+
     def __ne__(
         self, other: "MetadataBase" | dict | str | pd.Series | et.Element
     ) -> bool:
-- 
2.43.0


From d3594f8e9d8339d0a6fd7cde8847f689574c0534 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 20/75] fix: Copyright accepts a member of its own enumeration

---
 mt_metadata/common/copyright.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/common/copyright.py b/mt_metadata/common/copyright.py
index 2fab2ba..781d06c 100644
--- a/mt_metadata/common/copyright.py
+++ b/mt_metadata/common/copyright.py
@@ -35,6 +35,8 @@ class Copyright(MetadataBase):
         """
         if value in [None, ""]:
             return "CC BY 4.0"
+        if isinstance(value, LicenseEnum):
+            return value
         value = (
             value.replace("-", "_")
             .replace(" ", "_")
-- 
2.43.0


From 2eb0ed059dca961edc017cd65b61d14974cb0a97 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 21/75] fix: fourier coefficient Decimation accepts its
 transform as a dictionary

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 829c6ab..75fe356 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -105,6 +105,8 @@ class Decimation(MetadataBase):
     def validate_short_time_fourier_transform(
         cls, value: ShortTimeFourierTransform, info: ValidationInfo
     ) -> ShortTimeFourierTransform:
+        if isinstance(value, dict):
+            value = ShortTimeFourierTransform(**value)
         if not isinstance(value, ShortTimeFourierTransform):
             msg = f"Input must be metadata ShortTimeFourierTransform not {type(value)}"
             raise TypeError(msg)
-- 
2.43.0


From 4641d40fabf04b024cc14849310bd4df72b9c2a3 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 22/75] fix: set_attr_from_name sets the attribute

---
 mt_metadata/base/metadata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 5fb0e6e..95975ca 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -906,6 +906,7 @@ class MetadataBase(DotNotationBaseModel):
         >>> print(b.category.test_attr)
         '10'
         """
+        self.update_attribute(name, value)
 
     @deprecated("add_base_attribute is deprecated. Use add_new_field.")
     def add_base_attribute(
-- 
2.43.0


From d977d62bafd343eedadda914e9f2b2cd81324e4a Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 23/75] fix: update leaves attributes alone that are unset in
 the other object (empty dictionaries, default dates, null texts)

---
 mt_metadata/base/metadata.py                              | 6 +-----
 mt_metadata/processing/fourier_coefficients/decimation.py | 3 ++-
 mt_metadata/timeseries/run.py                             | 3 ++-
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 95975ca..4bab93d 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -625,11 +625,7 @@ class MetadataBase(DotNotationBaseModel):
                 if v.size > 0:
                     self.update_attribute(k, v)
             else:
-                if (
-                    v
-                    not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]
-                    + NULL_VALUES
-                ):
+                if v not in [0.0, [], {}, "1980-01-01"] + NULL_VALUES:
                     self.update_attribute(k, v)
 
     ## cannot override the __deepcopy__ method in pydantic.BaseModel otherwise bad
diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 75fe356..c3f3273 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -8,6 +8,7 @@ import numpy as np
 from loguru import logger
 from pydantic import Field, field_validator, model_validator, ValidationInfo
 
+from mt_metadata import NULL_VALUES
 from mt_metadata.base import MetadataBase
 from mt_metadata.common import ListDict, TimePeriod
 from mt_metadata.processing import ShortTimeFourierTransform, TimeSeriesDecimation
@@ -281,7 +282,7 @@ class Decimation(MetadataBase):
                 if v.size > 0:
                     self.update_attribute(k, v)
             else:
-                if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
+                if v not in [0.0, [], {}, "1980-01-01"] + NULL_VALUES:
                     self.update_attribute(k, v)
 
         ## Need this because channels are set when setting channels_recorded
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 44ca394..a298c40 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -17,6 +17,7 @@ from pydantic import (
 )
 from typing_extensions import Self
 
+from mt_metadata import NULL_VALUES
 from mt_metadata.base import MetadataBase
 from mt_metadata.common import (
     AuthorPerson,
@@ -566,7 +567,7 @@ class Run(MetadataBase):
                 if v.size > 0:
                     self.update_attribute(k, v)
             else:
-                if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
+                if v not in [0.0, [], {}, "1980-01-01"] + NULL_VALUES:
                     self.update_attribute(k, v)
 
         ## Need this because channels are set when setting channels_recorded
-- 
2.43.0


From f0290789fd777712c793145f22274d83ab5b2bdd Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 24/75] fix: the sign of a position of less than one degree
 survives conversion to and from degrees:minutes:seconds

---
 mt_metadata/utils/location_helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/utils/location_helpers.py b/mt_metadata/utils/location_helpers.py
index 6bf886b..88fb7f1 100644
--- a/mt_metadata/utils/location_helpers.py
+++ b/mt_metadata/utils/location_helpers.py
@@ -27,9 +27,9 @@ def convert_position_float2str(position: float | int) -> str:
         raise TypeError(msg)
 
     deg = int(position)
-    sign = 1
-    if deg < 0:
-        sign = -1
+    sign = ""
+    if position < 0:
+        sign = "-"
 
     deg = abs(deg)
     minutes = (abs(position) - deg) * 60.0
@@ -44,7 +44,7 @@ def convert_position_float2str(position: float | int) -> str:
         deg += 1
         minutes = 0
 
-    position_str = f"{sign * int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
+    position_str = f"{sign}{int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
     logger.debug(f"Converted {position} to {position_str}")
 
     return position_str
@@ -92,7 +92,7 @@ def convert_position_str2float(position_str: str) -> float:
     # get the sign of the position so that when all are added together the
     # position is in the correct place
     sign = 1
-    if deg < 0:
+    if p_list[0].strip().startswith("-"):
         sign = -1
 
     position_value = sign * (abs(deg) + minutes / 60.0 + sec / 3600.0)
-- 
2.43.0


From 77d041afb477c0e793ab1de119f8ba256a372179 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 25/75] fix: times given with an offset are converted to UTC

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 552d8de..bcdf60c 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -161,9 +161,9 @@ def _localize_utc(stamp: pd.Timestamp) -> pd.Timestamp:
 
     # check time zone and enforce UTC
     if stamp.tz is None:
-        stamp = stamp.tz_localize("UTC").tz_convert("UTC")
+        stamp = stamp.tz_localize("UTC")
 
-    return stamp
+    return stamp.tz_convert("UTC")
 
 
 # minimum and maximum time stamps for pandas
-- 
2.43.0


From 79f9afd4621c3fe28c9ecc562e04561e57f50987 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 26/75] fix: leap seconds are defined on 2012-06-30 and
 2016-12-31

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index bcdf60c..86e2d70 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -57,9 +57,9 @@ leap_second_dict = {
     12: {"min": datetime.date(1997, 7, 1), "max": datetime.date(1999, 1, 1)},
     13: {"min": datetime.date(1999, 1, 1), "max": datetime.date(2006, 1, 1)},
     14: {"min": datetime.date(2006, 1, 1), "max": datetime.date(2009, 1, 1)},
-    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 6, 30)},
+    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 7, 1)},
     16: {"min": datetime.date(2012, 7, 1), "max": datetime.date(2015, 7, 1)},
-    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2016, 12, 31)},
+    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2017, 1, 1)},
     18: {"min": datetime.date(2017, 1, 1), "max": datetime.date(2026, 7, 1)},
 }
 
-- 
2.43.0


From b71918e7a59b74668095a8fac3ff10fb7e733443 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 27/75] fix: a time is not greater than an equal time

---
 mt_metadata/common/mttime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 86e2d70..f658846 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -707,7 +707,10 @@ class MTime(BaseModel):
         bool
             True if other is greater than the current time stamp, otherwise False
         """
-        return not self.__lt__(other)
+        if not isinstance(other, MTime):
+            other = MTime(time_stamp=other)
+
+        return bool(self.time_stamp > other.time_stamp)
 
     def __ge__(
         self,
-- 
2.43.0


From e4f0f99e41cdfb30b16a7584e65e58f480d983b9 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 28/75] fix: a date and a time that are equal hash alike

---
 mt_metadata/common/mttime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index f658846..6830c15 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -1221,7 +1221,8 @@ class MDate(MTime):
             return MDate(time_stamp=self.time_stamp - other)
 
     def __hash__(self) -> int:
-        return hash(self.isodate())
+        # equality compares the time stamps, also with an MTime
+        return hash(self.time_stamp.isoformat())
 
     def is_default(self):
         """
-- 
2.43.0


From af48430f7c39182eb3e09f2721daec5b7918d377 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 29/75] fix: a time read from a dictionary value is parsed

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 6830c15..8e90cef 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -836,7 +836,7 @@ class MTime(BaseModel):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
 
     @property
     def iso_str(self) -> str:
@@ -1269,4 +1269,4 @@ class MDate(MTime):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
-- 
2.43.0


From 8899ac143662a7e0f8516447ec65520bda6e9fb5 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 30/75] fix: a band contains another band when it contains all
 its points

---
 mt_metadata/common/band.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/common/band.py b/mt_metadata/common/band.py
index 7e0bd2b..193c99f 100644
--- a/mt_metadata/common/band.py
+++ b/mt_metadata/common/band.py
@@ -314,10 +314,15 @@ class Band(MetadataBase):
 
     def contains(self, other) -> bool:
         """Check if this band contains nother"""
-        ivl = self.to_interval()
-        cond1 = ivl.__contains__(other.lower_bound)
-        cond2 = ivl.__contains__(other.upper_bound)
-        return cond1 & cond2
+        cond1 = self.lower_bound < other.lower_bound or (
+            self.lower_bound == other.lower_bound
+            and (self.lower_closed or not other.lower_closed)
+        )
+        cond2 = self.upper_bound > other.upper_bound or (
+            self.upper_bound == other.upper_bound
+            and (self.upper_closed or not other.upper_closed)
+        )
+        return bool(cond1 and cond2)
 
     @computed_field
     @property
-- 
2.43.0


From d7ad43d5071072f17869ec981ae0fcf1d5084a46 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 31/75] fix: parse unit strings with blanks around a slash,
 capital PER and digital counts in a compound

---
 mt_metadata/common/units.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index fd43835..169dd13 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -9,6 +9,7 @@ case strings.
 
 """
 
+import re
 from collections import OrderedDict
 from typing import Annotated
 
@@ -309,6 +310,13 @@ def parse_unit_string(unit_string: str) -> list[dict] | None:
     if not isinstance(unit_string, str):
         raise TypeError("The unit_string must be a string.")
     unit_string = unit_string.replace("[", "").replace("]", "")
+    # blanks around a slash and the case of "per" do not change the separator
+    unit_string = re.sub(r"\s*/\s*", "/", unit_string)
+    unit_string = re.sub(r"\s+per\s+", " per ", unit_string, flags=re.IGNORECASE)
+    # the name "digital counts" is one unit although it is written with a blank
+    unit_string = re.sub(
+        r"\bdigital\s+counts?\b", "counts", unit_string, flags=re.IGNORECASE
+    )
     result = []
     separator = ""
     while separator != None:
@@ -382,10 +390,10 @@ def get_unit_object(unit: str, allow_none=True) -> Unit:
     elif len(units_parts) == 0:
         raise ValueError(f"No unit found in the unit string.")
     elif len(units_parts) > 1:
-        unit = get_unit_from_df(units_parts[0]["name"], allow_none=allow_none)
+        unit = get_unit_object(units_parts[0]["name"], allow_none=allow_none)
         for entry in units_parts[1:]:
             unit = unit.combine(
-                get_unit_from_df(entry["name"], allow_none=allow_none),
+                get_unit_object(entry["name"], allow_none=allow_none),
                 separator=entry["sep"],
             )
 
-- 
2.43.0


From 713fdfdac60f83caed3558be0eb1b17251f1b5f1 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 32/75] fix: channel names given to a transfer function apply
 to its data set

---
 mt_metadata/transfer_functions/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 098d36f..f84b97d 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -87,6 +87,10 @@ class TF:
             "avg": {"write": self.to_avg, "read": self.from_avg},
         }
 
+        # the names are needed to build the data set
+        if "channel_nomenclature" in kwargs:
+            self.channel_nomenclature = kwargs.pop("channel_nomenclature")
+
         tf_set = False
         try:
             period = kwargs.pop("period")
@@ -608,6 +612,13 @@ class TF:
         self.ex_ey = [self.ex, self.ey]
         self.hx_hy = [self.hx, self.hy]
         self.ex_ey_hz = [self.ex, self.ey, self.hz]
+        self._inverse_channel_nomenclature = {}
+        # an existing data set keeps its values under the new names
+        if getattr(self, "_transfer_function", None) is not None:
+            names = self._ch_input_dict["all"]
+            self._transfer_function = self._transfer_function.assign_coords(
+                output=names, input=names
+            )
 
     @property
     def _ch_input_dict(self) -> dict:
-- 
2.43.0


From 0fcf462de87cc66fb9decf96b4e0928c8a00f44e Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 33/75] fix: model errors of a transfer function can be
 assigned as arrays

---
 mt_metadata/transfer_functions/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index f84b97d..2741203 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -633,6 +633,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.hx_hy,
             "tf_error": self.hx_hy,
+            "tf_model_error": self.hx_hy,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -649,6 +650,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.ex_ey_hz,
             "tf_error": self.ex_ey_hz,
+            "tf_model_error": self.ex_ey_hz,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -782,6 +784,7 @@ class TF:
             "transfer_function_error": (3, 2),
             "tf": (3, 2),
             "tf_error": (3, 2),
+            "tf_model_error": (3, 2),
         }
 
         shape = shape_dict[atype]
-- 
2.43.0


From bd85537aa54ff66568a6011317c4271c9794f8b4 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 00:22:02 +0000
Subject: [PATCH 34/75] fix: an assigned labelled array keeps other quantities
 and the order of dimensions

---
 mt_metadata/transfer_functions/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 2741203..e6d16fc 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -843,13 +843,16 @@ class TF:
             logger.error(msg)
             raise TFError(msg)
         # need to reorder the data array to the expected coordinates
-        da = da.reindex(output=ch_out, input=ch_in)
+        da = da.reindex(output=ch_out, input=ch_in).transpose(
+            "period", "output", "input"
+        )
         # if this is the first instantiation then just resize the
         # transfer function to fit the input
         if (
             self._transfer_function.transfer_function.data.shape[0] == 1
             and not self.has_tipper()
             and not self.has_impedance()
+            and not np.array_equal(self._transfer_function.period, da.period)
         ):
             self._transfer_function = self._initialize_transfer_function(da.period)
             return da
-- 
2.43.0


From 0ba2950030feb76442612096b7d89100f5892bef Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 35/75] fix: zero valued covariances do not need the other
 covariance

---
 mt_metadata/transfer_functions/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index e6d16fc..4cc4acf 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1405,7 +1405,7 @@ class TF:
 
         """
         self._set_data_array(value, "isp")
-        if self.has_residual_covariance():
+        if self.has_residual_covariance() and self.has_inverse_signal_power():
             self._compute_error_from_covariance()
 
     def has_residual_covariance(self) -> bool:
@@ -1471,7 +1471,7 @@ class TF:
 
         """
         self._set_data_array(value, "res")
-        if self.has_inverse_signal_power():
+        if self.has_residual_covariance() and self.has_inverse_signal_power():
             self._compute_error_from_covariance()
 
     def _compute_impedance_error_from_covariance(self) -> None:
-- 
2.43.0


From e95fcfb54804f4bebf7f8eba32220e9f6d039668 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 36/75] fix: new periods of the same number keep the values of
 a one-period transfer function

---
 mt_metadata/transfer_functions/core.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 4cc4acf..dea457b 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1573,20 +1573,21 @@ class TF:
             If the new periods are not compatible with the existing ones.
         """
         if self.period is not None:
-            if len(self.period) == 1 and (self.period == np.array([1])).all():
+            if len(value) == len(self.period):
+                if not (self.period == value).all():
+                    self.dataset["period"] = value
+            elif len(self.period) == 1 and (self.period == np.array([1])).all():
                 self._transfer_function = self._initialize_transfer_function(
                     periods=value
                 )
-            elif len(value) != len(self.period):
+            else:
                 msg = (
-                    f"New period size {value.size} is not the same size as "
+                    f"New period size {len(value)} is not the same size as "
                     f"old ones {self.period.size}, suggest creating a new "
                     "instance of TF."
                 )
                 logger.error(msg)
                 raise TFError(msg)
-            elif not (self.period == value).all():
-                self.dataset["period"] = value
         else:
             self._transfer_function = self._initialize_transfer_function(periods=value)
         return
-- 
2.43.0


From d36958edf5f93efd53aee2e8e2c1e590b1d8a4b2 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 37/75] fix: merging transfer functions with periods in any
 order or out of range

---
 mt_metadata/transfer_functions/core.py | 44 ++++----------------------
 1 file changed, 6 insertions(+), 38 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index dea457b..dc3d641 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1819,22 +1819,16 @@ class TF:
             """
             item = validate_dict(item)
             period_slice = get_slice_dict(item["period_min"], item["period_max"])
-            item["tf"]._transfer_function = sort_by_period(
-                item["tf"]._transfer_function
-            )
             return get_slice(item["tf"], period_slice)
 
         def get_slice(tf, period_slice: dict[str, slice]) -> xr.Dataset | None:
             """
-            Get slice of a transfer function most of the time we can use .loc
-            but sometimes a key error occurs if the period index is not
-            monotonic (which is should be now after using .sortby('period')),
-            but leaving in place just in case.  If .loc does not work, then
-            we can use .where(conditions) to slice the transfer function.
+            Get slice of a transfer function.  The periods need to be
+            increasing for the slice to work, the input is not changed.
 
             Parameters
             ----------
-            tf: xarray.Dataset
+            tf: TF
                 The transfer function to slice.
             period_slice: dict[str, slice]
                 The slice to apply to the period dimension.
@@ -1844,35 +1838,7 @@ class TF:
             xarray.Dataset
                 The sliced transfer function.
             """
-            try:
-                return tf._transfer_function.loc[period_slice]
-
-            except KeyError:
-                if (
-                    period_slice["period"].start is not None
-                    and period_slice["period"].stop is not None
-                ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start)
-                        & (tf._transfer_function.period <= period_slice["period"].stop),
-                        drop=True,
-                    )
-                elif (
-                    period_slice["period"].start is None
-                    and period_slice["period"].stop is not None
-                ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period <= period_slice["period"].stop),
-                        drop=True,
-                    )
-                elif (
-                    period_slice["period"].start is not None
-                    and period_slice["period"].stop is None
-                ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start),
-                        drop=True,
-                    )
+            return sort_by_period(tf._transfer_function).loc[period_slice]
 
         period_slice_self = get_slice_dict(period_min, period_max)
         tf_list = [get_slice(self, period_slice_self)]
@@ -1889,6 +1855,8 @@ class TF:
                 logger.error(msg)
                 raise TypeError(msg)
 
+        # an input without periods in its range does not contribute
+        tf_list = [item for item in tf_list if item.period.size > 0]
         new_tf = xr.combine_by_coords(tf_list, combine_attrs="override")
 
         if inplace:
-- 
2.43.0


From 56067fafaab62d9cad5a1f397b274bc85f36b006 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 38/75] fix: structuring dictionaries with another separator
 than a dot

---
 mt_metadata/base/helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 68acce5..ca68f77 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -621,7 +621,9 @@ def recursive_split_dict(key, value, remainder, sep="."):
 
     key, *other = key.split(sep, 1)
     if other:
-        recursive_split_dict(other[0], value, remainder.setdefault(key, {}))
+        recursive_split_dict(
+            other[0], value, remainder.setdefault(key, {}), sep=sep
+        )
     else:
         remainder[key] = value
 
@@ -667,7 +669,7 @@ def recursive_split_getattr(base_object, name, sep="."):
 
     if other:
         base_object = getattr(base_object, key)
-        value, prop = recursive_split_getattr(base_object, other[0])
+        value, prop = recursive_split_getattr(base_object, other[0], sep=sep)
     else:
         # with Pydantic, if the attribute does not exist an attribute error
         # will be raised, which is desired. The only issue will be if the
@@ -708,7 +710,7 @@ def recursive_split_setattr(base_object, name, value, sep=".", skip_validation=F
 
     if other:
         base_object = getattr(base_object, key)
-        recursive_split_setattr(base_object, other[0], value)
+        recursive_split_setattr(base_object, other[0], value, sep=sep)
     else:
         # if the value is a list or dict then we need to add accordingly
         if isinstance(value, list):
-- 
2.43.0


From b603e6c227674060c82ddda6e39e511201a5046d Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 01:20:10 +0000
Subject: [PATCH 39/75] fix: weight kernels whose bounds are equal are a step

---
 .../features/weights/activation_monotonic_weight_kernel.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
index f723a09..3db707f 100644
--- a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
@@ -81,6 +81,11 @@ class ActivationMonotonicWeightKernel(MonotonicWeightKernel):
         direction = getattr(self, "threshold", "low cut")
         # Both bounds finite
         if np.isfinite(lb) and np.isfinite(ub):
+            # identical bounds: a step, as for the taper kernels
+            if ub == lb:
+                if direction == "high cut":
+                    return np.where(values <= ub, 1.0, 0.0)
+                return np.where(values >= lb, 1.0, 0.0)
             x = (values - lb) / (ub - lb)
             if direction == "high cut":
                 x = 1 - x
-- 
2.43.0


From cc6d4e8e672ad64a943acda5005f1aebbcd1dbcb Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 40/75] fix: sample rates of the decimation levels of assigned
 bands

---
 mt_metadata/processing/aurora/processing.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 979736a..e4d7aca 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -284,15 +284,16 @@ class Processing(MetadataBase):
         if isinstance(num_samples_window, int):
             num_samples_window = num_decimation_levels * [num_samples_window]
 
+        sr = sample_rate
+        previous_level = 0
         for i_level in sorted(band_edges_dict.keys()):
             band_edges = band_edges_dict[i_level]
-            if i_level in [0, "0"]:
-                d = decimation_factors[i_level]  # 1
-                sr = sample_rate
-            else:
-                # careful with this hardcoded assumption of decimation by 4
-                d = decimation_factors[i_level]  # 4
-                sr = 1.0 * sample_rate / (d ** int(i_level))
+            d = decimation_factors[i_level]
+            if i_level not in [0, "0"]:
+                # levels cascade: the sample rate is that of the level above divided
+                # by the factor (any level left out is assumed to have the same factor)
+                sr = 1.0 * sr / (d ** (int(i_level) - previous_level))
+            previous_level = int(i_level)
             decimation_obj = DecimationLevel()
             decimation_obj.decimation.level = int(i_level)  # self.decimations_dict[key]
             decimation_obj.decimation.factor = d
-- 
2.43.0


From e96c67d10cf1a31485ecb96d629374068f04c3a1 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 01:22:19 +0000
Subject: [PATCH 41/75] fix: the taper follows changes of the window's
 parameters

---
 mt_metadata/processing/window.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/processing/window.py b/mt_metadata/processing/window.py
index 234e1ae..35db72f 100644
--- a/mt_metadata/processing/window.py
+++ b/mt_metadata/processing/window.py
@@ -48,6 +48,7 @@ class ClockZeroTypeEnum(StrEnumerationBase):
 
 class Window(MetadataBase):
     _taper: np.ndarray | None = PrivateAttr(None)
+    _taper_parameters: tuple | None = PrivateAttr(None)
     num_samples: Annotated[
         int,
         Field(
@@ -177,11 +178,14 @@ class Window(MetadataBase):
         -------
 
         """
-        if self._taper is None:
-            # Repackaging the args so that scipy.signal.get_window() accepts all cases
-            window_args = [v for k, v in self.additional_args.items()]
-            window_args.insert(0, self.type)
-            window_args = tuple(window_args)
+        # Repackaging the args so that scipy.signal.get_window() accepts all cases
+        window_args = [v for k, v in self.additional_args.items()]
+        window_args.insert(0, self.type)
+        window_args = tuple(window_args)
+
+        # the taper is computed again when one of its parameters has changed
+        parameters = (window_args, self.num_samples, self.normalized)
+        if self._taper is None or self._taper_parameters != parameters:
 
             taper = ssig.get_window(window_args, self.num_samples)
 
@@ -189,6 +193,7 @@ class Window(MetadataBase):
                 taper /= np.sum(taper)
 
             self._taper = taper
+            self._taper_parameters = parameters
 
         return self._taper
 
-- 
2.43.0


From 93a971fb11e0dc52be6f03aac5194f24338dbc98 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 42/75] fix: the Fourier coefficient level has its own window
 and the minimum number of windows

---
 mt_metadata/processing/aurora/decimation_level.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index 6cca508..0be82e6 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -596,7 +596,9 @@ class DecimationLevel(MetadataBase):
         fc_dec_obj.stft.prewhitening_type = self.stft.prewhitening_type
         fc_dec_obj.stft.recoloring = self.stft.recoloring
         fc_dec_obj.time_series_decimation.sample_rate = self.decimation.sample_rate
-        fc_dec_obj.stft.window = self.stft.window
+        fc_dec_obj.stft.min_num_stft_windows = self.stft.min_num_stft_windows
+        # a copy, the archived description does not follow later changes of this level
+        fc_dec_obj.stft.window = self.stft.window.copy()
 
         return fc_dec_obj
 
-- 
2.43.0


From dfb32d182367a42a47910aae3b52947d21ddd48a Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 01:23:38 +0000
Subject: [PATCH 43/75] fix: comparing comments with None and with other types

---
 mt_metadata/common/comment.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 7f2ae43..2cee625 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -124,12 +124,17 @@ class Comment(MetadataBase):
         bool
             True if the objects are equal, False otherwise.
         """
-        if other is None:
-            return Comment(value=None)  # type: ignore
-        if isinstance(other, str):
-            other = Comment(value=other)  # type: ignore
-        elif isinstance(other, dict):
-            other = Comment(**other)
+        try:
+            if other is None:
+                other = Comment(value=None)  # type: ignore
+            elif isinstance(other, str):
+                other = Comment(value=other)  # type: ignore
+            elif isinstance(other, dict):
+                other = Comment(**other)
+        except ValidationError:
+            return False
+        if not isinstance(other, Comment):
+            return False
         return (
             self.author == other.author
             and self.time_stamp == other.time_stamp
-- 
2.43.0


From d86e39630cdbe5463ac0d42289048aab7bb800f0 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 44/75] fix: stations of Z-files named like a word of the
 header

---
 .../transfer_functions/io/zfiles/zmm.py       | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index ac5ed6b..7656a21 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -129,7 +129,7 @@ class ZMMHeader(object):
 
             self._header_count = 0
             header_list = []
-            while "period" not in line:
+            while not line.strip().startswith("period"):
                 header_list.append(line)
                 self._header_count += 1
 
@@ -155,9 +155,9 @@ class ZMMHeader(object):
                     self.station_metadata.comments.value = line.replace("*", "").strip()
             elif ii == 2:
                 self.processing_type = line.lower().strip()
-            elif "station" in line:
+            elif line.strip().startswith("station"):
                 self.station_metadata.id = line.split(":")[1].strip()
-            elif "coordinate" in line:
+            elif line.strip().startswith("coordinate"):
                 line_list = line.strip().split()
                 self.latitude = line_list[1]
                 lon = float(line_list[2])
@@ -166,11 +166,11 @@ class ZMMHeader(object):
                 self.longitude = lon
 
                 self.station_metadata.location.declination.value = float(line_list[-1])
-            elif "number" in line:
+            elif line.strip().startswith("number"):
                 line_list = line.strip().split()
                 self.num_channels = int(line_list[3])
                 self.num_freq = int(line_list[-1])
-            elif "orientations" in line:
+            elif line.strip().startswith("orientations"):
                 pass
             elif line.strip()[-2:].lower() in ["ex", "ey", "hx", "hy", "hz"]:
                 line_list = line.strip().split()
@@ -744,11 +744,14 @@ class ZMM(ZMMHeader):
 
         with open(self.fn, "r") as fid:
             fn_str = fid.read()
-        period_strings = fn_str.lower().split("period")
+        # a block starts with a line starting with the word period
         period_blocks = []
-        for per in period_strings:
-            period_blocks.append(per.split("\n"))
-        return period_blocks[1:]
+        for line in fn_str.lower().split("\n"):
+            if line.strip().startswith("period"):
+                period_blocks.append([line.strip()[len("period") :]])
+            elif period_blocks:
+                period_blocks[-1].append(line)
+        return period_blocks
 
     def _read_period_block(self, period_block: list[str]) -> dict:
         """
-- 
2.43.0


From d0df48ca3ce2f00a85f7c570d2edd89fbf2300d4 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 45/75] fix: transfer functions of spectra without a vertical
 channel

---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e0f9d26..7f14c1e 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -619,11 +619,11 @@ class EDI:
                 re[0, 0] = s_arr[cc.rhx, cc.ex]
                 re[0, 1] = s_arr[cc.rhx, cc.ey]
                 re[1, 0] = s_arr[cc.rhy, cc.ex]
-                re[1, 0] = s_arr[cc.rhy, cc.ey]
+                re[1, 1] = s_arr[cc.rhy, cc.ey]
 
                 he[0, 0] = s_arr[cc.hx, cc.ex]
                 he[0, 1] = s_arr[cc.hx, cc.ey]
-                he[0, 1] = s_arr[cc.hy, cc.ex]
+                he[1, 0] = s_arr[cc.hy, cc.ex]
                 he[1, 1] = s_arr[cc.hy, cc.ey]
 
                 ee[0, 0] = s_arr[cc.ex, cc.ex]
-- 
2.43.0


From 77313c053a70925d89f2a1a876a74a4dad2ea4a9 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 46/75] fix: position block of J-files

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py           | 2 +-
 mt_metadata/transfer_functions/io/jfiles/metadata/header.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index c049d0d..89b192f 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -142,7 +142,7 @@ class JFile:
 
         for variable in ["lat", "lon", "elev"]:
             for ii, line in enumerate(j_lines):
-                if variable in line.lower():
+                if line.startswith(">") and variable in line.lower():
                     name = line.split("=")[0]
                     try:
                         value = float(line.split("=")[1].strip())
diff --git a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
index 9265a49..5810fb9 100644
--- a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
@@ -223,7 +223,7 @@ class Header(BasicLocation):
             m_list = m_line.strip().split("=")
             m_key = m_list[0][1:].strip().lower()
             try:
-                m_value = float(m_list[0].strip())
+                m_value = float(m_list[-1].strip())
             except ValueError:
                 m_value = 0.0
             self.update_attribute(m_key, m_value)
-- 
2.43.0


From cac2fdc16af7b1e33f19ffae1798d539827004f0 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:06:34 +0000
Subject: [PATCH 47/75] fix: blocks of a J-file after the apparent
 resistivities

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index 89b192f..e7714ea 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -229,8 +229,9 @@ class JFile:
             # if we are at the number of periods line, skip it
             elif len(d_line.strip().split()) == 1 and "r" not in d_line.lower():
                 continue
+            # apparent resistivity and phase blocks are not used
             elif "r" in d_line.lower():
-                break
+                d_key = None
             # get the numbers into the correct dictionary with a key as period and
             # for now we will leave the numbers as a list, which we will parse later
             else:
-- 
2.43.0


From 8f6856e835b24548189b87f6c312e0ff65a7a9a2 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 48/75] fix: tipper errors of Zonge files

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 02ee8fb..2530d3b 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -321,7 +321,7 @@ class ZongeMTAvg:
                 ),
                 row.z_phase_err,
             )
-            t_err[f_index, ii, jj] = np.sqrt(t_real**2 + t_imag**2)
+            t_err[f_index, ii, jj] = np.sqrt(t_real_error**2 + t_imag_error**2)
 
         return t, t_err
 
-- 
2.43.0


From 17e5955175fe17e2c0f3a7ad500d4eadab43cd7e Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:14:34 +0000
Subject: [PATCH 49/75] fix: filters of a channel are found by name however it
 is written, and kept in order

---
 mt_metadata/timeseries/channel.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index 6f6dfaa..d291b26 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -447,7 +447,6 @@ class ChannelBase(MetadataBase):
 
             if applied_filter.stage is None:
                 applied_filter.stage = len(self.filters) + 1
-            self.filters.append(applied_filter)
         else:
             if name is None:
                 raise ValueError("name must be provided if applied_filter is None")
@@ -455,7 +454,7 @@ class ChannelBase(MetadataBase):
                 raise TypeError("name must be a string")
 
             # Check if filter with this name already exists
-            if any(f.name == name for f in self.filters):
+            if any(f.name == _filter_name(name) for f in self.filters):
                 logger.debug(f"Filter '{name}' already exists, skipping duplicate")
                 return
 
@@ -467,11 +466,12 @@ class ChannelBase(MetadataBase):
             if comments is not None:
                 filter_kwargs["comments"] = comments
 
-            self.filters.append(AppliedFilter(**filter_kwargs))
+            applied_filter = AppliedFilter(**filter_kwargs)
 
-            # Sort filters and validate for duplicates
-            self._sort_filters()
-            # Note: Skipping duplicate validation since we already check above
+        self.filters.append(applied_filter)
+        # Sort filters and validate for duplicates
+        self._sort_filters()
+        # Note: Skipping duplicate validation since we already check above
 
     @computed_field
     @property
@@ -498,6 +498,7 @@ class ChannelBase(MetadataBase):
             Whether to reset the stages of the remaining filters, by default True.
         """
 
+        name = _filter_name(name)
         new_list = []
         for f in self.filters:
             if f.name == name:
@@ -522,7 +523,7 @@ class ChannelBase(MetadataBase):
             The filter with the given name, or None if not found.
         """
         for f in self.filters:
-            if f.name == name:
+            if f.name == _filter_name(name):
                 return f
         logger.warning(f"Could not find filter {name} in channel filters")
         return None
@@ -849,6 +850,18 @@ class Channel(ChannelBase):
     ]
 
 
+def _filter_name(name: str | None) -> str | None:
+    """
+    helper function to write a name the way AppliedFilter keeps it.
+
+    :return: str
+    Name in lower case and with '/' spelled out
+    """
+    if isinstance(name, str):
+        return name.replace("/", " per ").lower()
+    return name
+
+
 def _applied_values_map(treat_null_values_as: bool = True) -> dict:
     """
     helper function to simplify logic in applied setter.
-- 
2.43.0


From edd35471c0ca8f49af7c13076860f3e91d54cecb Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 50/75] fix: magnetic channels given as dictionaries without a
 type

---
 mt_metadata/timeseries/run.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index a298c40..82c0590 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -1070,7 +1070,7 @@ class Run(MetadataBase):
 
         elif isinstance(channel_obj, (dict, OrderedDict)):
             try:
-                ch_type = channel_obj["type"]
+                ch_type = channel_obj.get("type")
                 if ch_type is None:
                     ch_type = channel_obj["component"][0]
 
@@ -1078,8 +1078,7 @@ class Run(MetadataBase):
                     return Electric(**channel_obj)
                 elif (
                     ch_type.lower().startswith("b")
-                    or ch_type.lower().startswith("b")
-                    or ch_type.lower() in ["magnetic"]
+                    or ch_type.lower() in ["h", "magnetic"]
                 ):
                     return Magnetic(**channel_obj)
                 else:
-- 
2.43.0


From 3ae5d7d3a474ba3b61bf3697cf187353d044df72 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 51/75] fix: removing, finding and sorting runs of a station

---
 mt_metadata/timeseries/station.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 454d68d..f9d5be7 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -370,7 +370,7 @@ class Station(MetadataBase):
         :rtype: boolean
 
         """
-        if run_id in self.run_list:
+        if run_id in self.runs.keys():
             return True
         return False
 
@@ -386,7 +386,7 @@ class Station(MetadataBase):
         """
 
         if self.has_run(run_id):
-            return self.run_list.index(run_id)
+            return self.runs.keys().index(run_id)
         return None
 
     def _empty_channels_recorded(self):
@@ -513,6 +513,11 @@ class Station(MetadataBase):
 
         if self.has_run(run_id):
             self.runs.remove(run_id)
+            # change the lists in place, otherwise the validation takes the run
+            # and its channels for missing ones and adds them again.
+            if run_id in self.run_list:
+                self.run_list.remove(run_id)
+            self.channels_recorded[:] = self._get_channels_recorded()
             if update:
                 self.update_all()
         else:
@@ -553,17 +558,15 @@ class Station(MetadataBase):
 
         """
 
-        run_ids = []
-        run_starts = []
-        for run_key, run_obj in self.runs.items():
-            run_ids.append(run_key)
-            run_starts.append(run_obj.time_period.start.split("+")[0])
-
-        index = np.argsort(np.array(run_starts, dtype=np.datetime64))
+        run_ids = sorted(
+            self.runs.keys(),
+            key=lambda run_id: self.runs[run_id].time_period.start,
+            reverse=not ascending,
+        )
 
         new_runs = ListDict()
-        for ii in index:
-            new_runs[run_ids[ii]] = self.runs[run_ids[ii]]
+        for run_id in run_ids:
+            new_runs[run_id] = self.runs[run_id]
 
         if inplace:
             self.runs = new_runs
-- 
2.43.0


From 749f2840e719da18b3c9cf4688bb76529e644a63 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:48:11 +0000
Subject: [PATCH 52/75] fix: adding an existing station or survey keeps the
 members of both

---
 mt_metadata/timeseries/experiment.py | 7 ++++++-
 mt_metadata/timeseries/survey.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index fa195be..846974d 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -207,7 +207,12 @@ class Experiment(MetadataBase):
             )
 
         if self.has_survey(survey_obj.id):
-            self.surveys[survey_obj.id].update(survey_obj)
+            survey = self.surveys[survey_obj.id]
+            for station in survey_obj.stations:
+                survey.add_station(station)
+            survey.filters.update(survey_obj.filters)
+            survey.update(survey_obj)
+            survey.update_all()
             logger.debug(f"survey {survey_obj.id} already exists, updating metadata")
         else:
             self.surveys.append(survey_obj)
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 4bc2287..3fd778b 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -628,7 +628,12 @@ class Survey(MetadataBase):
             )
 
         if self.has_station(station_obj.id):
-            self.stations[station_obj.id].update(station_obj)
+            station = self.stations[station_obj.id]
+            # add the runs first, otherwise the validation makes empty ones
+            for run in station_obj.runs:
+                station.add_run(run)
+            station.update(station_obj)
+            station.update_all()
             logger.warning(
                 f"Station {station_obj.id} already exists, updating metadata"
             )
-- 
2.43.0


From 6818457d4f6e88fa6ab28335fa042d9075c86e86 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:55:21 +0000
Subject: [PATCH 53/75] fix: ends of Fourier coefficient levels and channels
 without a start count

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 +-
 mt_metadata/processing/fourier_coefficients/fc.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index c3f3273..6b52520 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -381,7 +381,7 @@ class Decimation(MetadataBase):
         for ch in self.channels:
             if ch.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(ch.time_period.start)
-            if ch.time_period.start != "1980-01-01T00:00:00+00:00":
+            if ch.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(ch.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
diff --git a/mt_metadata/processing/fourier_coefficients/fc.py b/mt_metadata/processing/fourier_coefficients/fc.py
index 5122c95..902ca2c 100644
--- a/mt_metadata/processing/fourier_coefficients/fc.py
+++ b/mt_metadata/processing/fourier_coefficients/fc.py
@@ -311,7 +311,7 @@ class FC(MetadataBase):
         for dl in self.levels:
             if dl.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(dl.time_period.start)
-            if dl.time_period.start != "1980-01-01T00:00:00+00:00":
+            if dl.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(dl.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
-- 
2.43.0


From f34956c301b97e0ebb406fd056bc417772acc8ca Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 54/75] fix: Fourier coefficient levels do not share their time
 period

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 6b52520..3e8d333 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -482,7 +482,8 @@ def fc_decimations_creator(
 
         if time_period:
             if isinstance(time_period, TimePeriod):
-                fc_dec.time_period = time_period
+                # each level has its own, it grows with the channels
+                fc_dec.time_period = time_period.copy()
             else:
                 msg = (
                     f"Not sure how to assign time_period with type {type(time_period)}"
-- 
2.43.0


From e6c9bdf1ca6dba53ddfcaf4da8f6113c94d30c72 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:25:27 +0000
Subject: [PATCH 55/75] fix: reading an experiment from XML keeps its filters
 and its channels

---
 mt_metadata/timeseries/experiment.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 846974d..d492c59 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -465,16 +465,16 @@ class Experiment(MetadataBase):
         for survey_element in list(experiment_element):
             survey_dict = helpers.element_to_dict(survey_element)
             stations = self._pop_dictionary(survey_dict["survey"], "station")
+            # the filters need to be made according to their type
+            fd = survey_dict["survey"].pop("filters", None)
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
-            fd = survey_dict["survey"].pop("filters")
             filter_dict = self._read_filter_dict(fd)
             survey_obj.filters.update(filter_dict)
 
             for station_dict in stations:
                 station_obj = Station()
                 runs = self._pop_dictionary(station_dict, "run")
-                station_obj.from_dict(station_dict, skip_none=skip_none)
                 for run_dict in runs:
                     run_obj = Run()
 
@@ -493,6 +493,9 @@ class Experiment(MetadataBase):
                             logger.debug(f"Could not find channel {ch}")
                     run_obj.from_dict(run_dict, skip_none=skip_none)
                     station_obj.add_run(run_obj)
+                # after the runs, otherwise the lists of runs and channels
+                # make empty ones
+                station_obj.from_dict(station_dict, skip_none=skip_none)
                 survey_obj.add_station(station_obj)
             self.add_survey(survey_obj)
 
@@ -512,7 +515,7 @@ class Experiment(MetadataBase):
 
         """
 
-        elements = in_dict.pop(element)
+        elements = in_dict.pop(element, [])
         if not isinstance(elements, list):
             elements = [elements]
 
@@ -601,7 +604,7 @@ class Experiment(MetadataBase):
                     mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
-            elif key in ["fir_filter"]:
+            elif key in ["fir_filter", "f_i_r_filter"]:
                 if isinstance(value, list):
                     for v in value:
                         mt_filter = FIRFilter(**v)
-- 
2.43.0


From aba3bde71863afa32c7cedf166c904f0f04c68f0 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:26:14 +0000
Subject: [PATCH 56/75] fix: response table filters are made from a survey's
 dictionary

---
 mt_metadata/timeseries/survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 3fd778b..a9089c6 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -461,7 +461,7 @@ class Survey(MetadataBase):
                             f = TimeDelayFilter()
                         elif f_type.lower() in ["fir"]:
                             f = FIRFilter()
-                        elif f_type.lower() in ["frequency response table"]:
+                        elif f_type.lower() in ["fap", "frequency response table"]:
                             f = FrequencyResponseTableFilter()
                         else:
                             msg = f"filter type {f_type} not supported."
-- 
2.43.0


From 63ef22981357eeacb495645dd593e075491d8b04 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:26:57 +0000
Subject: [PATCH 57/75] fix: from_json reads the file a text names

---
 mt_metadata/base/metadata.py         | 15 ++++++++-------
 mt_metadata/timeseries/experiment.py | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 4bab93d..59cbf30 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1274,13 +1274,14 @@ class MetadataBase(DotNotationBaseModel):
         """
         if isinstance(json_str, str):
             try:
-                json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
+                is_file = Path(json_str).exists()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
+                with open(json_str, "r") as fid:
+                    json_dict = json.load(fid)
+            else:
+                json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index d492c59..b88e75f 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -355,13 +355,14 @@ class Experiment(MetadataBase):
         """
         if isinstance(json_str, str):
             try:
-                json_path = Path(json_str)
-                if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
-            except OSError:
-                pass
-            json_dict = json.loads(json_str)
+                is_file = Path(json_str).exists()
+            except (OSError, ValueError):
+                is_file = False
+            if is_file:
+                with open(json_str, "r") as fid:
+                    json_dict = json.load(fid)
+            else:
+                json_dict = json.loads(json_str)
         elif isinstance(json_str, Path):
             if json_str.exists():
                 with open(json_str, "r") as fid:
-- 
2.43.0


From cec31a62b2c9d0b6a808049cecc70c833276309d Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:32:36 +0000
Subject: [PATCH 58/75] fix: EDI files of one frequency can be read, and
 rotation angles follow the frequencies when these are turned round

---
 mt_metadata/transfer_functions/io/edi/edi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 7f14c1e..fd59781 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -250,7 +250,7 @@ class EDI:
         frequency.
 
         """
-        if self.frequency is not None:
+        if self.frequency is not None and self.frequency.size > 1:
             if self.frequency[0] < self.frequency[1]:
                 self.logger.debug(
                     "Ordered arrays to be arranged from high to low frequency"
@@ -264,6 +264,8 @@ class EDI:
                     self.t = self.t[::-1]
                 if self.t_err is not None:
                     self.t_err = self.t_err[::-1]
+                if self.rotation_angle is not None:
+                    self.rotation_angle = self.rotation_angle[::-1]
 
     def read(self, fn: str | Path | None = None, get_elevation: bool = False) -> None:
         """
@@ -446,9 +448,6 @@ class EDI:
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
             except KeyError as error:
                 self.logger.debug(error)
-        # check for order of frequency, we want high togit  low
-        self._assert_descending_frequency()
-
         try:
             self.rotation_angle = np.array(data_dict["zrot"])
         except KeyError:
@@ -457,6 +456,9 @@ class EDI:
             except KeyError:
                 self.rotation_angle = np.zeros_like(self.frequency)
 
+        # check for order of frequency, we want high togit  low
+        self._assert_descending_frequency()
+
     def _read_spectra(
         self,
         data_lines: list[str],
-- 
2.43.0


From 988998e431dc631ccefaa8067a5398e63c1f55e7 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:34:44 +0000
Subject: [PATCH 59/75] fix: the declination of an EDI header is read as it is
 written

---
 mt_metadata/transfer_functions/io/edi/metadata/header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/metadata/header.py b/mt_metadata/transfer_functions/io/edi/metadata/header.py
index a9cdd47..4defef0 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/header.py
@@ -417,9 +417,12 @@ class Header(BasicLocation, GeographicLocation):
                 if value in ["m", "M"]:
                     value = "m"
 
-            if key == "declination":
+            if key in ["declination", "declination.value"]:
                 setattr(self.declination, "value", value)
                 continue
+            elif key in ["declination.epoch", "declination.model"]:
+                setattr(self.declination, key.split(".")[1], value)
+                continue
             elif key in ["long", "lon", "lonigutde"]:
                 key = "longitude"
             elif key in ["lat", "latitude"]:
-- 
2.43.0


From 7bfb07499b7ddfe6db6809d374b127790cbb00dc Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:37:27 +0000
Subject: [PATCH 60/75] fix: EDI measurements without an acquisition channel
 can be read

---
 mt_metadata/transfer_functions/io/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/tools.py b/mt_metadata/transfer_functions/io/tools.py
index 943015d..4ea5f77 100644
--- a/mt_metadata/transfer_functions/io/tools.py
+++ b/mt_metadata/transfer_functions/io/tools.py
@@ -49,6 +49,10 @@ def _validate_str_with_equals(input_string):
         for l_str in s_list:
             str_list.append(l_str.strip())
 
+    # the last key has no value
+    if len(str_list) % 2 != 0 and len(l_list) > 1 and l_list[-1].strip() == "":
+        str_list.append("")
+
     # probably not a good return
     if len(str_list) % 2 != 0:
         # _logger.info(
-- 
2.43.0


From f8e8276fb7edd890e206d38186052ad388d9e77f Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:38:16 +0000
Subject: [PATCH 61/75] fix: electric channels without electrode positions take
 the azimuth declared by the EDI measurement

---
 mt_metadata/transfer_functions/io/edi/edi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index fd59781..4cf633a 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1312,8 +1312,10 @@ class EDI:
                     electric.update_attribute(attr, 0)
             electric.dipole_length = meas.dipole_length
             electric.channel_id = meas.id
-            electric.measurement_azimuth = meas.azimuth
-            electric.translated_azimuth = meas.azimuth
+            # without electrode positions only the declared azimuth is known
+            azimuth = meas.azimuth if meas.dipole_length != 0 else meas.azm
+            electric.measurement_azimuth = azimuth
+            electric.translated_azimuth = azimuth
             electric.component = meas.chtype
             electric.channel_number = meas.channel_number
             electric.negative.x = meas.x
-- 
2.43.0


From 166b223c3c04669c4adc8462ae6e8b112ef6d24e Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 62/75] fix: depths and dips of EDI measurements are kept when
 they become channels and back

---
 mt_metadata/transfer_functions/io/edi/edi.py                  | 4 ++++
 .../transfer_functions/io/edi/metadata/define_measurement.py  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 4cf633a..530c03d 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1322,6 +1322,8 @@ class EDI:
             electric.positive.x2 = meas.x2
             electric.negative.y = meas.y
             electric.positive.y2 = meas.y2
+            electric.negative.z = meas.z
+            electric.positive.z2 = meas.z2
             for k, v in self.Info.info_dict.items():
                 if k is None:
                     continue
@@ -1389,6 +1391,8 @@ class EDI:
             magnetic.channel_id = meas.id
             magnetic.location.x = meas.x
             magnetic.location.y = meas.y
+            magnetic.location.z = meas.z
+            magnetic.measurement_tilt = meas.dip
             try:
                 magnetic.sensor.id = meas.meas_magnetic.sensor
             except AttributeError:
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
index 920e58d..93f5d01 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/define_measurement.py
@@ -542,6 +542,8 @@ class DefineMeasurement(MetadataBase):
                     "x2": channel.positive.x2,
                     "y": channel.negative.y,
                     "y2": channel.positive.y2,
+                    "z": channel.negative.z,
+                    "z2": channel.positive.z2,
                     "chtype": channel.component,
                     "id": channel.channel_id,
                     "azm": azm,
@@ -558,6 +560,7 @@ class DefineMeasurement(MetadataBase):
                 **{
                     "x": channel.location.x,
                     "y": channel.location.y,
+                    "z": channel.location.z,
                     "azm": azm,
                     "chtype": channel.component,
                     "id": channel.channel_id,
-- 
2.43.0


From 405b0e59d4d31c5945f144d5357d8d227e81bb2d Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 63/75] fix: EMTF XML files of one period can be read

---
 mt_metadata/transfer_functions/io/emtfxml/metadata/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index dcfa9d9..7e016f0 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -352,13 +352,16 @@ class TransferFunction(MetadataBase):
         """
         if self._skip_derived_data:
             logger.debug("Skipping derived quantities.")
+        periods = root_dict["data"]["period"]
+        if not isinstance(periods, list):
+            periods = [periods]
         try:
             n_periods = int(float((root_dict["data"]["count"].strip())))
         except KeyError:
-            n_periods = len(root_dict["data"]["period"])
+            n_periods = len(periods)
 
         self.initialize_arrays(n_periods)
-        for ii, block in enumerate(root_dict["data"]["period"]):
+        for ii, block in enumerate(periods):
             self.period[ii] = float(block["value"])  # type: ignore[assignment]
             self.read_block(block, ii)
 
-- 
2.43.0


From 3e61339e73750d691bee9b58c5c9e2cc02aadc4b Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 64/75] fix: transfer functions made from EMTFXML objects
 without runs, with absent quantities or with other channel names

---
 mt_metadata/transfer_functions/core.py | 64 +++++++++++++++++---------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index dc3d641..0986642 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -423,7 +423,11 @@ class TF:
             station_metadata = self._validate_station_metadata(station_metadata)
 
             runs = ListDict()
-            if self.run_metadata.id not in ["0", 0, None]:
+            if len(self.station_metadata.runs) > 0 and self.run_metadata.id not in [
+                "0",
+                0,
+                None,
+            ]:
                 runs.append(self.run_metadata.copy())
             runs.extend(station_metadata.runs)
             if len(runs) == 0:
@@ -2219,27 +2223,43 @@ class TF:
         self.survey_metadata = emtfxml_obj.survey_metadata
         self.station_metadata = self.survey_metadata.stations[0]
 
-        self.period = emtfxml_obj.data.period
-        self.impedance = emtfxml_obj.data.z
-        # Handle negative or invalid values in z_var before taking sqrt
-        z_var = emtfxml_obj.data.z_var
-        with np.errstate(invalid="ignore"):
-            self.impedance_error = np.sqrt(np.where(z_var >= 0, z_var, np.nan))
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
-        ] = emtfxml_obj.data.z_invsigcov
-        self._transfer_function.residual_covariance.loc[
-            dict(input=["ex", "ey"], output=["ex", "ey"])
-        ] = emtfxml_obj.data.z_residcov
-
-        self.tipper = emtfxml_obj.data.t
-        self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
-        ] = emtfxml_obj.data.t_invsigcov
-        self._transfer_function.residual_covariance.loc[
-            dict(input=["hz"], output=["hz"])
-        ] = emtfxml_obj.data.t_residcov
+        data = emtfxml_obj.data
+        self.period = data.period
+        if self._has_values(data.z):
+            self.impedance = data.z
+        if self._has_values(data.z_var):
+            # Handle negative or invalid values in z_var before taking sqrt
+            with np.errstate(invalid="ignore"):
+                self.impedance_error = np.sqrt(
+                    np.where(data.z_var >= 0, data.z_var, np.nan)
+                )
+        if self._has_values(data.z_invsigcov):
+            self._transfer_function.inverse_signal_power.loc[
+                dict(input=self.hx_hy, output=self.hx_hy)
+            ] = data.z_invsigcov
+        if self._has_values(data.z_residcov):
+            self._transfer_function.residual_covariance.loc[
+                dict(input=self.ex_ey, output=self.ex_ey)
+            ] = data.z_residcov
+
+        if self._has_values(data.t):
+            self.tipper = data.t
+        if self._has_values(data.t_var):
+            self.tipper_error = np.sqrt(data.t_var)
+        # a file without tipper leaves zeros here
+        if self._has_values(data.t_invsigcov) and data.t_invsigcov.any():
+            self._transfer_function.inverse_signal_power.loc[
+                dict(input=self.hx_hy, output=self.hx_hy)
+            ] = data.t_invsigcov
+        if self._has_values(data.t_residcov):
+            self._transfer_function.residual_covariance.loc[
+                dict(input=[self.hz], output=[self.hz])
+            ] = data.t_residcov
+
+    @staticmethod
+    def _has_values(array: np.ndarray | None) -> bool:
+        """True if the array of an EMTFXML object has been set"""
+        return array is not None and array.size > 0
 
     def to_jfile(self) -> None:
         """
-- 
2.43.0


From 60373bf21599344454d3239c44a7359817329375 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 65/75] fix: Z-file objects made from a transfer function can
 be turned back (periods, channel names, missing covariances)

---
 mt_metadata/transfer_functions/core.py | 53 ++++++++++++++------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 0986642..8143692 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2369,6 +2369,7 @@ class TF:
         zmm_obj = ZMM(**zmm_kwargs)
 
         zmm_obj.dataset = self.dataset
+        zmm_obj.periods = self.period
         zmm_obj.station_metadata = self.station_metadata
 
         # need to set the channel numbers according to the z-file format
@@ -2398,7 +2399,7 @@ class TF:
                 if "rr" in comp:
                     continue
                 ch = self.station_metadata.runs[0].get_channel(comp)
-                ch.component = self.inverse_channel_nomenclature[comp]
+                ch.component = self.inverse_channel_nomenclature.get(comp, comp)
                 c = ZChannel()
                 c.from_dict(ch.to_dict(single=True))
                 ch.component = comp
@@ -2460,31 +2461,33 @@ class TF:
         for tf_key, j_key in k_dict.items():
             setattr(self, tf_key, getattr(zmm_obj, j_key))
 
-        self._transfer_function["transfer_function"].loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ] = zmm_obj.dataset.transfer_function.loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ]
-
-        self._transfer_function["transfer_function_error"].loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ] = zmm_obj.dataset.transfer_function_error.loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.output_channels)
-        ]
-
-        self._transfer_function["inverse_signal_power"].loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.input_channels)
-        ] = zmm_obj.dataset.inverse_signal_power.loc[
-            dict(input=zmm_obj.input_channels, output=zmm_obj.input_channels)
-        ]
-
-        self._transfer_function["residual_covariance"].loc[
-            dict(input=zmm_obj.output_channels, output=zmm_obj.output_channels)
-        ] = zmm_obj.dataset.residual_covariance.loc[
-            dict(input=zmm_obj.output_channels, output=zmm_obj.output_channels)
-        ]
+        for key, ch_in, ch_out in [
+            ("transfer_function", zmm_obj.input_channels, zmm_obj.output_channels),
+            (
+                "transfer_function_error",
+                zmm_obj.input_channels,
+                zmm_obj.output_channels,
+            ),
+            ("inverse_signal_power", zmm_obj.input_channels, zmm_obj.input_channels),
+            ("residual_covariance", zmm_obj.output_channels, zmm_obj.output_channels),
+        ]:
+            # each object has its own names for the channels
+            zmm_names, tf_names = [
+                dict(
+                    input=[names[ch] for ch in ch_in],
+                    output=[names[ch] for ch in ch_out],
+                )
+                for names in [zmm_obj.channel_nomenclature, self.channel_nomenclature]
+            ]
+            self._transfer_function[key].loc[tf_names] = (
+                zmm_obj.dataset[key]
+                .loc[zmm_names]
+                .transpose("period", "output", "input")
+                .data
+            )
 
-        self._compute_error_from_covariance()
+        if self.has_inverse_signal_power() and self.has_residual_covariance():
+            self._compute_error_from_covariance()
         if kwargs.get("use_declination", False):
             self._rotation_angle = -1 * zmm_obj.declination
 
-- 
2.43.0


From 2201e5a72246d2e6eaf482fcaff2b21e979baa41 Mon Sep 17 00:00:00 2001
From: symx <symx@localhost>
Date: Fri, 20 Nov 2026 04:14:07 +0000
Subject: [PATCH 66/75] fix: J-files without the time step of BIRRP can be read
 into a transfer function

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index e7714ea..95b0621 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -339,7 +339,7 @@ class JFile:
         r1 = Run(id="001")
         if self.header.birrp_parameters.deltat < 0:
             r1.sample_rate = abs(self.header.birrp_parameters.deltat)
-        else:
+        elif self.header.birrp_parameters.deltat > 0:
             r1.sample_rate = 1.0 / (self.header.birrp_parameters.deltat)
 
         if not np.all(self.z == 0):
-- 
2.43.0


From c3c3ddd7eb4c724eca3654e1349fb4552aad3408 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 67/75] fix: a filter with a comment can be read back from its
 StationXML stage

---
 mt_metadata/timeseries/filters/filter_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/filter_base.py b/mt_metadata/timeseries/filters/filter_base.py
index 143f20f..7091b86 100644
--- a/mt_metadata/timeseries/filters/filter_base.py
+++ b/mt_metadata/timeseries/filters/filter_base.py
@@ -282,7 +282,7 @@ class FilterBase(MetadataBase):
         if self.comments.value is None:
             return filter_descriptions[self.type]
 
-        return self.comments
+        return self.comments.value
 
     @requires(obspy=obspy_import)
     @classmethod
-- 
2.43.0


From 68fc89fd4622dcf21e5f7d6c95f46ba512aa3bd1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 68/75] fix: FIR filters keep the frequency of their gain in
 StationXML

---
 mt_metadata/timeseries/filters/channel_response.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/channel_response.py b/mt_metadata/timeseries/filters/channel_response.py
index 0dc173a..f55bd2d 100644
--- a/mt_metadata/timeseries/filters/channel_response.py
+++ b/mt_metadata/timeseries/filters/channel_response.py
@@ -519,10 +519,14 @@ class ChannelResponse(FilterBase):
                     )
                 )
             else:
+                # the gain of a FIR filter is given at its own frequency
+                gain_frequency = self.normalization_frequency
+                if f.type in ["fir"]:
+                    gain_frequency = f.gain_frequency
                 total_response.response_stages.append(
                     f.to_obspy(
                         stage_number=ii,
-                        normalization_frequency=self.normalization_frequency,
+                        normalization_frequency=gain_frequency,
                         sample_rate=sample_rate,
                     )
                 )
-- 
2.43.0


From 86072ac42038c0dc7881090671b044319edd8b93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 69/75] fix: the tipper of a J-file with TZY only is read

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index 95b0621..3d18b15 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -272,7 +272,7 @@ class JFile:
             for f_key in list(z_dict[z_key].keys()):
                 all_periods.append(f_key)
 
-        if len(list(t_dict["tzx"].keys())) == 0:
+        if len(t_dict["tzx"]) == 0 and len(t_dict["tzy"]) == 0:
             logger.debug(f"Could not find any Tipper data in {self.fn}")
             find_tipper = False
 
-- 
2.43.0


From ce6e7eae6990aab691067df4367ac1ffb7943f3f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 70/75] fix: the tipper of a Zonge file with Tzy only is read

---
 mt_metadata/transfer_functions/io/zonge/zonge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 2530d3b..42265ed 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -289,7 +289,7 @@ class ZongeMTAvg:
             The T and T error arrays.
         """
 
-        if "tzx" not in self.df.comp.to_list():
+        if not self.df.comp.isin(["tzx", "tzy"]).any():
             logger.debug(
                 "No Tipper found in {self.fn.name}",
             )
-- 
2.43.0


From 356b76b6de0023bc1e556d04a65bf382599461f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 71/75] fix: converting a transfer function to a Z-file object
 leaves its runs alone

---
 mt_metadata/transfer_functions/core.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 8143692..2522a2c 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2370,7 +2370,8 @@ class TF:
 
         zmm_obj.dataset = self.dataset
         zmm_obj.periods = self.period
-        zmm_obj.station_metadata = self.station_metadata
+        station_metadata = self.station_metadata.copy()
+        zmm_obj.station_metadata = station_metadata
 
         # need to set the channel numbers according to the z-file format
         # with input channels (h's) and output channels (hz, e's).
@@ -2385,20 +2386,21 @@ class TF:
             if self.has_impedance():
                 zmm_obj.num_channels = 4
                 number_dict = {"hx": 1, "hy": 2, "ex": 3, "ey": 4}
-        if len(self.station_metadata.runs) == 0:
+        # the runs of the transfer function itself stay as they are
+        if len(station_metadata.runs) == 0:
             run = self.make_zmm_run(zmm_obj, number_dict)
-            self.station_metadata.add_run(run)
-        elif len(self.station_metadata.runs[0].channels_recorded_all) == 0:
+            station_metadata.add_run(run)
+        elif len(station_metadata.runs[0].channels_recorded_all) == 0:
             # avoid the default metadata getting interpretted as a real metadata object
             # Overwrite this "spoof" run with a run that has recorded channels
-            if len(self.station_metadata.runs[0].channels_recorded_all) == 0:
+            if len(station_metadata.runs[0].channels_recorded_all) == 0:
                 run = self.make_zmm_run(zmm_obj, number_dict)
-                self.station_metadata.runs[0] = run
+                station_metadata.runs[0] = run
         else:
-            for comp in self.station_metadata.runs[0].channels_recorded_all:
+            for comp in station_metadata.runs[0].channels_recorded_all:
                 if "rr" in comp:
                     continue
-                ch = self.station_metadata.runs[0].get_channel(comp)
+                ch = station_metadata.runs[0].get_channel(comp)
                 ch.component = self.inverse_channel_nomenclature.get(comp, comp)
                 c = ZChannel()
                 c.from_dict(ch.to_dict(single=True))
-- 
2.43.0


From cc4bbd4b6f130bb61816e81b261ff416212f2172 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:16 +0000
Subject: [PATCH 72/75] fix: channels with a negative tilt can be written to
 StationXML

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 51d88f0..f1f6eb4 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -225,7 +225,8 @@ class XMLChannelMTChannel(BaseTranslator):
                 xml_channel.azimuth = mt_channel.measurement_azimuth % 360
 
             elif xml_key in ["dip"]:
-                xml_channel.dip = mt_channel.measurement_tilt % 360
+                dip = mt_channel.measurement_tilt % 360
+                xml_channel.dip = dip - 360 if dip > 180 else dip
 
             elif "time_period" in mt_key:
                 value = mt_channel.get_attr_from_name(mt_key).time_stamp
-- 
2.43.0


From 92ec0d0892d2dbe2fa00ccdcddcc576d23093635 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:16 +0000
Subject: [PATCH 73/75] fix: comments with more than one colon can be written
 to StationXML

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index f1f6eb4..1c94138 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -458,7 +458,7 @@ class XMLChannelMTChannel(BaseTranslator):
         clist = mt_comment.value.split("run_ids:")
         for item in clist:
             if ":" in item:
-                k, v = item.split(":")
+                k, v = item.split(":", 1)
                 comments.append(inventory.Comment(v, subject=k))
             elif "[" in item and "]" in item:
                 for run in item.replace("[", "").replace("]", "").split(","):
-- 
2.43.0


From 1c492a8f55a267fc1cf4a59c4436ec60e02eb6dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:16 +0000
Subject: [PATCH 74/75] fix: runs read from StationXML have a sample rate

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 5145616..c74206c 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -89,6 +89,8 @@ class XMLInventoryMTExperiment:
                             # need to set the start and end time to the run
                             run_channel.time_period.start = mt_run.time_period.start
                             run_channel.time_period.end = mt_run.time_period.end
+                            if mt_run.sample_rate == 0:
+                                mt_run.sample_rate = mt_channel.sample_rate
                             mt_run.add_channel(run_channel)
                     # if there are runs already try to match by start, end, sample_rate
                     # initialized runs have a sample rate of 0.  This could be an
-- 
2.43.0


From 3d4effd723a6aefe6b53e625223a3e4c4d76ad60 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:18:16 +0000
Subject: [PATCH 75/75] fix: StationXML channels that differ in elevation or
 response are not joined

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index c74206c..03dcdf7 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -285,6 +285,14 @@ class XMLInventoryMTExperiment:
                 f"{round(xml_channel_01.longitude, 3)} != {round(xml_channel_02.longitude, 3)}"
             )
             return False
+        if round(xml_channel_01.elevation, 3) != round(xml_channel_02.elevation, 3):
+            self.logger.debug(
+                f"{round(xml_channel_01.elevation, 3)} != {round(xml_channel_02.elevation, 3)}"
+            )
+            return False
+        if xml_channel_01.response != xml_channel_02.response:
+            self.logger.debug("responses differ")
+            return False
         if round(xml_channel_01.azimuth, 2) != round(xml_channel_02.azimuth, 2):
             self.logger.debug(
                 f"{round(xml_channel_01.azimuth, 2)} != {round(xml_channel_02.azimuth, 2)}"
-- 
2.43.0


From 17f7504f49e0147b183d1eb4dd98b50c770d3b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 01/14] fix: convert NaN to null when NaN is not allowed

NaN compares unequal to itself, so --convert-nan-to-null left NaN in place
and the JSON dump then failed half way through the output file.
---
 palworld_save_tools/archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..bd66f5b 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -333,7 +333,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
@@ -343,7 +343,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
-- 
2.43.0


From a48e9e013c530a5038ba0ba39f9badfbe162cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 02/14] fix: write back work of unknown type kept as raw bytes

decode falls back to the raw bytes for unknown work types, but encode tried
to encode them as a decoded work entry and failed.
---
 palworld_save_tools/rawdata/work.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..b57c82d 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -159,11 +159,12 @@ def encode(
     del properties["custom_type"]
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        work_element["RawData"]["value"] = {
-            "values": [
-                b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-            ]
-        }
+        if "values" not in work_element["RawData"]["value"]:
+            work_element["RawData"]["value"] = {
+                "values": [
+                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
+                ]
+            }
         for work_assign in work_element["WorkAssignMap"]["value"]:
             work_assign["value"]["RawData"]["value"] = {
                 "values": [
-- 
2.43.0


From 1e760e388f8c69d540c91b81d4a094dd0105f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 03/14] fix: write back unknown work transforms

The raw data is a list of integers and has to be converted to bytes.
---
 palworld_save_tools/rawdata/work.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index b57c82d..91cc4d1 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -249,7 +249,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From 037011b947f4c21825367d76ffc892f9648fcbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 04/14] fix: keep base camp modules with unparsed trailing data
 as raw bytes

The bytes after the parsed part were dropped silently, so they were missing
from the save after converting back.
---
 palworld_save_tools/rawdata/base_camp_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..bc072ca 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,8 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(f"Warning: EOF not reached for {module_type}, keeping raw data")
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From 8f47dd32ceb72aba6cf81403a7b6d3f317fe761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 05/14] fix: write back arrays of Guid

The reader accepts them, but the writer raised an unknown array type error.
---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index bd66f5b..c4b0667 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -961,6 +961,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "EnumProperty":
                 self.fstring(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
             elif array_type == "ByteProperty":
-- 
2.43.0


From 381d60c637ff25710852d671cb3e086ed959f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 06/14] fix: refuse truncated strings and GUIDs

A string or GUID cut off by the end of the data was returned shortened, so a
truncated structure could be accepted and written back differently.
---
 palworld_save_tools/archive.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index c4b0667..b54e4b1 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -277,10 +277,16 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            data = reader.read(size * 2)
+            if len(data) != size * 2:
+                raise Exception(f"could not read {size * 2} bytes for string")
+            data = data[:-2]
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            data = reader.read(size)
+            if len(data) != size:
+                raise Exception(f"could not read {size} bytes for string")
+            data = data[:-1]
             encoding = "ascii"
 
         try:
@@ -360,12 +366,18 @@ class FArchiveReader:
 
     def guid(self) -> UUID:
         # in the hot loop, avoid function calls
-        return UUID(self.data.read(16))
+        b = self.data.read(16)
+        if len(b) != 16:
+            raise Exception("could not read 16 bytes for uuid")
+        return UUID(b)
 
     def optional_guid(self) -> Optional[UUID]:
         # in the hot loop, avoid function calls
         if self.data.read(1)[0]:
-            return UUID(self.data.read(16))
+            b = self.data.read(16)
+            if len(b) != 16:
+                raise Exception("could not read 16 bytes for uuid")
+            return UUID(b)
         return None
 
     def tarray(self, type_reader: Callable[["FArchiveReader"], Any]) -> list[Any]:
-- 
2.43.0


From d39872c7838ea393396e68687c7a17500fdf22ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 07/14] fix: write NaN and null coordinates of packed vectors

NaN in the second or third coordinate, or null (written by
--convert-nan-to-null), made the conversion back to SAV fail.
---
 palworld_save_tools/archive.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index b54e4b1..bb3c4e0 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1020,15 +1020,28 @@ class FArchiveWriter:
             int.to_bytes(value, (component_bit_count + 7) // 8, "little", signed=True)
         )
 
-    def packed_vector(self, scale_factor: int, x: _float, y: _float, z: _float):
+    def packed_vector(
+        self,
+        scale_factor: int,
+        x: Optional[_float],
+        y: Optional[_float],
+        z: Optional[_float],
+    ):
         max_exponent_for_scaling = 52
         max_value_to_scale = 1 << max_exponent_for_scaling
         max_exponent_after_scaling = 62
         max_scaled_value = 1 << max_exponent_after_scaling
+        x = math.nan if x is None else x
+        y = math.nan if y is None else y
+        z = math.nan if z is None else z
         scaled_x = x * scale_factor
         scaled_y = y * scale_factor
         scaled_z = z * scale_factor
-        if max(abs(scaled_x), abs(scaled_y), abs(scaled_z)) < max_scaled_value:
+        if (
+            abs(scaled_x) < max_scaled_value
+            and abs(scaled_y) < max_scaled_value
+            and abs(scaled_z) < max_scaled_value
+        ):
             use_scaled_value = min(abs(x), abs(y), abs(z)) < max_value_to_scale
             if use_scaled_value:
                 x = self.unreal_round_float_to_int(scaled_x)
-- 
2.43.0


From 1713efabd4bc1accd0515525a3eeed81279a43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 08/14] fix: --to-json and --from-json override the file
 extension

The conversion suggested by the extension was still attempted as well, so
forcing the other direction failed or converted twice.
---
 palworld_save_tools/commands/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..2ab7f0f 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,7 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    if args.to_json or (not args.from_json and args.filename.endswith(".sav")):
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -77,7 +77,7 @@ def main():
             custom_properties_keys=args.custom_properties,
         )
 
-    if args.from_json or args.filename.endswith(".json"):
+    if args.from_json or (not args.to_json and args.filename.endswith(".json")):
         if not args.output:
             output_path = args.filename.replace(".json", "")
         else:
-- 
2.43.0


From df29af5bfb3260052ee47a7e4f47bf417eb59427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 09/14] fix: only strip the .json extension for the default SAV
 output path

Every '.json' in the path was removed, including those in directory names,
and without a .json extension the output replaced the input file.
---
 palworld_save_tools/commands/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 2ab7f0f..83caa1d 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -79,7 +79,10 @@ def main():
 
     if args.from_json or (not args.to_json and args.filename.endswith(".json")):
         if not args.output:
-            output_path = args.filename.replace(".json", "")
+            if args.filename.endswith(".json"):
+                output_path = args.filename[: -len(".json")]
+            else:
+                output_path = args.filename + ".sav"
         else:
             output_path = args.output
         convert_json_to_sav(args.filename, output_path, force=args.force)
-- 
2.43.0


From 673464de83d94c26cf12619dabcb375bf3b8c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 10/14] fix: keep documents exportable after writing them

Writing replaced decoded map objects and base camp modules by bytes objects,
which cannot be exported to JSON afterwards; the other encoders use lists.
---
 .../rawdata/base_camp_module.py               |  4 +-
 palworld_save_tools/rawdata/map_object.py     | 40 ++++++++++++-------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index bc072ca..6fc0c88 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -106,8 +106,8 @@ def encode(
     for module in module_map:
         module_type = module["key"]
         if "values" not in module["value"]["RawData"]["value"]:
-            module["value"]["RawData"]["value"]["values"] = encode_bytes(
-                module["value"]["RawData"]["value"], module_type
+            module["value"]["RawData"]["value"]["values"] = list(
+                encode_bytes(module["value"]["RawData"]["value"], module_type)
             )
 
     return writer.property_inner(property_type, properties)
diff --git a/palworld_save_tools/rawdata/map_object.py b/palworld_save_tools/rawdata/map_object.py
index 79e548e..4b6e83e 100644
--- a/palworld_save_tools/rawdata/map_object.py
+++ b/palworld_save_tools/rawdata/map_object.py
@@ -73,8 +73,10 @@ def encode(
         # Encode Model
         if "values" not in map_object["Model"]["value"]["RawData"]["value"]:
             map_object["Model"]["value"]["RawData"]["value"] = {
-                "values": map_model.encode_bytes(
-                    map_object["Model"]["value"]["RawData"]["value"]
+                "values": list(
+                    map_model.encode_bytes(
+                        map_object["Model"]["value"]["RawData"]["value"]
+                    )
                 )
             }
         # Encode Model.Connector
@@ -85,10 +87,12 @@ def encode(
             ]
         ):
             map_object["Model"]["value"]["Connector"]["value"]["RawData"]["value"] = {
-                "values": connector.encode_bytes(
-                    map_object["Model"]["value"]["Connector"]["value"]["RawData"][
-                        "value"
-                    ],
+                "values": list(
+                    connector.encode_bytes(
+                        map_object["Model"]["value"]["Connector"]["value"]["RawData"][
+                            "value"
+                        ],
+                    )
                 )
             }
         # Encode Model.BuildProcess
@@ -101,17 +105,21 @@ def encode(
             map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
                 "value"
             ] = {
-                "values": build_process.encode_bytes(
-                    map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
-                        "value"
-                    ],
+                "values": list(
+                    build_process.encode_bytes(
+                        map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
+                            "value"
+                        ],
+                    )
                 )
             }
         # Encode ConcreteModel
         if "values" not in map_object["ConcreteModel"]["value"]["RawData"]["value"]:
             map_object["ConcreteModel"]["value"]["RawData"]["value"] = {
-                "values": map_concrete_model.encode_bytes(
-                    map_object["ConcreteModel"]["value"]["RawData"]["value"],
+                "values": list(
+                    map_concrete_model.encode_bytes(
+                        map_object["ConcreteModel"]["value"]["RawData"]["value"],
+                    )
                 )
             }
         # Encode ConcreteModel.ModuleMap
@@ -119,9 +127,11 @@ def encode(
             if "values" not in module["value"]["RawData"]["value"]:
                 module_type = module["key"]
                 module["value"]["RawData"]["value"] = {
-                    "values": map_concrete_model_module.encode_bytes(
-                        module["value"]["RawData"]["value"],
-                        module_type,
+                    "values": list(
+                        map_concrete_model_module.encode_bytes(
+                            module["value"]["RawData"]["value"],
+                            module_type,
+                        )
                     )
                 }
 
-- 
2.43.0


From 609ea4b4c9ca7fd1787c026adaf6ba601e303ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 11/14] fix: round scaled coordinates of packed vectors to the
 nearest integer

int() truncates, so that 29/100 with scale factor 100 was written as 28.
---
 palworld_save_tools/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index bb3c4e0..c65d8ca 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1004,7 +1004,7 @@ class FArchiveWriter:
 
     @staticmethod
     def unreal_round_float_to_int(value: _float) -> int:
-        return int(value)
+        return round(value)
 
     @staticmethod
     def unreal_get_bits_needed(value: int) -> int:
-- 
2.43.0


From 47cebfd58b50eccee85129c412459b99f69c4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:35 +0000
Subject: [PATCH 12/14] fix: refuse truncated components of packed vectors

---
 palworld_save_tools/archive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index c65d8ca..0d09177 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -606,7 +606,10 @@ class FArchiveReader:
         return (pitch, yaw, roll)
 
     def serializeint(self, component_bit_count: int) -> int:
-        b = bytearray(self.read((component_bit_count + 7) // 8))
+        size = (component_bit_count + 7) // 8
+        b = bytearray(self.read(size))
+        if len(b) != size:
+            raise Exception(f"could not read {size} bytes for packed integer")
         if (component_bit_count % 8) != 0:
             b[-1] &= (1 << (component_bit_count % 8)) - 1
         value = int.from_bytes(b, "little")
-- 
2.43.0


From d9203e0228b23edc7dc5173d7a8fe0766e254416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 13/14] fix: diagnostics about unprintable names do not abort
 the conversion

---
 palworld_save_tools/archive.py                    | 6 +++---
 palworld_save_tools/rawdata/base_camp_module.py   | 2 +-
 palworld_save_tools/rawdata/map_concrete_model.py | 2 +-
 palworld_save_tools/rawdata/work.py               | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0d09177..b52d113 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -250,7 +250,7 @@ class FArchiveReader:
         if path in self.type_hints:
             return self.type_hints[path]
         else:
-            print(f"Struct type for {path} not found, assuming {default}")
+            print(f"Struct type for {path!a} not found, assuming {default}")
             return default
 
     def eof(self) -> bool:
@@ -545,7 +545,7 @@ class FArchiveReader:
             }
         else:
             if self.debug:
-                print(f"Assuming struct type: {struct_type} ({path})")
+                print(f"Assuming struct type: {struct_type!a} ({path!a})")
             return self.properties_until_end(path)
 
     def array_property(self, array_type: str, size: int, path: str):
@@ -927,7 +927,7 @@ class FArchiveWriter:
             self.float(value["a"])
         else:
             if self.debug:
-                print(f"Assuming struct type: {struct_type}")
+                print(f"Assuming struct type: {struct_type!a}")
             return self.properties(value)
 
     def prop_value(self, type_name: str, struct_type_name: str, value):
diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 6fc0c88..d85b4f5 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -85,7 +85,7 @@ def decode_bytes(
             )
             return {"values": b_bytes}
     else:
-        print(f"Warning: Unknown base camp module type {module_type}, skipping")
+        print(f"Warning: Unknown base camp module type {module_type!a}, skipping")
         return {"values": b_bytes}
 
     if not reader.eof():
diff --git a/palworld_save_tools/rawdata/map_concrete_model.py b/palworld_save_tools/rawdata/map_concrete_model.py
index 74938bb..846860c 100644
--- a/palworld_save_tools/rawdata/map_concrete_model.py
+++ b/palworld_save_tools/rawdata/map_concrete_model.py
@@ -349,7 +349,7 @@ def decode_bytes(
     data: dict[str, Any] = {}
 
     if object_id.lower() not in MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS:
-        print(f"Warning: Map object '{object_id}' not in database, skipping")
+        print(f"Warning: Map object {object_id!a} not in database, skipping")
         return {"values": m_bytes}
 
     # Base handling
diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 91cc4d1..882bbc5 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -102,7 +102,7 @@ def decode_bytes(
             data["target_map_object_model_id"] = reader.guid()
 
     if len(data.keys()) == 0:
-        print(f"Warning, unable to parse {work_type}, falling back to raw bytes")
+        print(f"Warning, unable to parse {work_type!a}, falling back to raw bytes")
         return {"values": b_bytes}
     # UPalWorkProgressTransformBase->SerializeProperties
     transform_type = reader.byte()
-- 
2.43.0


From b710eeeb6b2df27f11a2981f8703118772b861f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 14/14] fix: file names the output cannot represent do not
 abort the conversion

---
 palworld_save_tools/commands/convert.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 83caa1d..3b10486 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -3,6 +3,7 @@
 import argparse
 import json
 import os
+import sys
 
 from palworld_save_tools.gvas import GvasFile
 from palworld_save_tools.json_tools import CustomEncoder
@@ -11,6 +12,7 @@ from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TY
 
 
 def main():
+    escape_unprintable_output()
     parser = argparse.ArgumentParser(
         prog="palworld-save-tools",
         description="Converts Palworld save files to and from JSON",
@@ -152,6 +154,12 @@ def convert_json_to_sav(filename, output_path, force=False):
         f.write(sav_file)
 
 
+def escape_unprintable_output():
+    # File names the output's encoding cannot represent must not abort the conversion
+    if hasattr(sys.stdout, "reconfigure"):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
+
 def confirm_prompt(question: str) -> bool:
     reply = None
     while reply not in ("y", "n"):
-- 
2.43.0


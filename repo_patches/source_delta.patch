From 8cc5f37e776fc367a4548c51691fb430f6af281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:19 +0000
Subject: [PATCH 01/32] fix: compare Spine versions as (major, minor, patch)

---
 spine_json_lib/data/spine_version_type.py | 27 ++++++-----------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index 2f707ca..c4f55f4 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -17,6 +17,9 @@ class SpineVersion(object):
         # "3.8.69" <-> 3008069
         self._int_version = self.major * 1000000 + self.minor * 1000 + self.patch
 
+    def _as_tuple(self) -> Tuple[int, int, int]:
+        return self.major, self.minor, self.patch
+
     @staticmethod
     def __force_cast_to_spine_version(obj):
         if isinstance(obj, str):
@@ -48,41 +51,25 @@ class SpineVersion(object):
         # operator <
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major < _other.major
-            and self.minor < _other.minor
-            and self.patch < _other.patch
-        )
+        return self._as_tuple() < _other._as_tuple()
 
     def __gt__(self, other):
         # operator >
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major > _other.major
-            and self.minor > _other.minor
-            and self.patch > _other.patch
-        )
+        return self._as_tuple() > _other._as_tuple()
 
     def __le__(self, other):
         # operator <=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major <= _other.major
-            and self.minor <= _other.minor
-            and self.patch <= _other.patch
-        )
+        return self._as_tuple() <= _other._as_tuple()
 
     def __ge__(self, other):
         # operator >=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major >= _other.major
-            and self.minor >= _other.minor
-            and self.patch >= _other.patch
-        )
+        return self._as_tuple() >= _other._as_tuple()
 
     def __cmp__(self, other):
         """
-- 
2.43.0


From 4b4e1fbea157a5240315efd939e03bca8debcea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:50 +0000
Subject: [PATCH 02/32] fix: refuse version strings that are not dot-separated
 decimal numbers

---
 spine_json_lib/data/spine_version_type.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index c4f55f4..d964979 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -1,7 +1,7 @@
 import re
 from typing import Tuple
 
-REGEX_TO_MATCH = re.compile(r"^\d+.\d+")
+REGEX_TO_MATCH = re.compile(r"[0-9]+\.[0-9]+(\.[0-9]+)?")
 
 
 class SpineVersion(object):
@@ -93,15 +93,7 @@ class SpineVersion(object):
 
     @staticmethod
     def validate(version: str):
-        has_correct_size = True
-
-        _split_version_len = len(version.split("."))
-
-        if not (_split_version_len == 2 or _split_version_len == 3):
-            has_correct_size = False
-
-        matched = re.match(REGEX_TO_MATCH, version)
-        if not matched or not has_correct_size:
+        if not REGEX_TO_MATCH.fullmatch(version):
             raise ValueError(
                 "{} is not a valid spine version. Needs to be "
                 "of the following format 'mayor.minor.patch'".format(
-- 
2.43.0


From 67b826fadd8663de62ee8cae07aa0d724a11e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:57 +0000
Subject: [PATCH 03/32] fix: keep draw-order entries that stay in place, they
 pin their slot

---
 spine_json_lib/data/data_types/draworder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..c04e6ef 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -82,7 +82,7 @@ class DrawOrderTimeline(SpineData):
         return [
             offset
             for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+            if offset.slot not in slots_to_be_removed
         ]
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
-- 
2.43.0


From 12d6a3c837d22303e65df1db41870b2fe274f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:23 +0000
Subject: [PATCH 04/32] fix: keep bone scaling when cleaning the animation
 afterwards

---
 spine_json_lib/spine_animation_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..af1a84b 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -141,6 +141,9 @@ class SpineAnimationEditor(object):
         - We cannot remove BONES because it affect the weight on meshes and the vertices
         information saved in the binary.
         """
+        # The graph has to reflect the current data (i.e: bones could have been scaled)
+        self.spine_graph = SpineGraphContainer(self.spine_anim_data.to_json_data())
+
         # Save slots before removing. Needed to recalculate offsets when removing
         # slots in a drawOrder array.
         slots_before_removing = copy.deepcopy(self.spine_anim_data.data.slots)
-- 
2.43.0


From fb0d76970b709a907745efa0ae61c015d8119d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:28 +0000
Subject: [PATCH 05/32] fix: strip only the graph id suffix, not every
 occurrence in the name

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..4251e09 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -331,4 +331,4 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        return graph_id[: -len(_suffix)] if graph_id.endswith(_suffix) else graph_id
-- 
2.43.0


From 26a6844ab75f23ddec17094166ccd81bc2da9469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 06/32] fix: cleaning an animation that shows no slot crashed

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..e88af30 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -295,7 +295,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
         invisible_slots = slots_set - visible_slots
-- 
2.43.0


From 8433aa6edd027485e197295ff69f359c8d24bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:37 +0000
Subject: [PATCH 07/32] fix: saving to a path without a directory part failed

---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index af1a84b..492ab80 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -221,7 +221,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -257,7 +257,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From 300a580a512097538109a45480b88e92b01d18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:52 +0000
Subject: [PATCH 08/32] fix: image references kept images that no remaining
 attachment uses

---
 spine_json_lib/spine_animation_editor.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 492ab80..907bbd0 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -97,7 +97,7 @@ class SpineAnimationEditor(object):
             removed_data = [], []
         else:
             removed_data = self.clean_animation()
-        self._clean_images_references(images_ids=images_to_remove)
+        self._clean_images_references()
 
         return removed_data, images_to_remove
 
@@ -186,10 +186,10 @@ class SpineAnimationEditor(object):
             )
         )
 
-        images_node = self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
+        self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
 
         # Remove reference to region attachments in images json file
-        self._clean_images_references(images_ids=images_node)
+        self._clean_images_references()
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
@@ -281,18 +281,17 @@ class SpineAnimationEditor(object):
                 )
             )
 
-    def _clean_images_references(self, images_ids: List[str]) -> None:
-        copy_json = copy.deepcopy(self.images_references)
-        removed_images = []
-        for img_id, img_abs_path in self.images_references.items():
-            if img_id in images_ids:
-                removed_images.append(img_id)
-                del copy_json[img_id]
+    def _clean_images_references(self) -> None:
+        """ Keep only the images that are still used by any of the remaining skins """
+        images_in_use = self.get_images_references()
+        removed_images = [
+            img_id for img_id in self.images_references if img_id not in images_in_use
+        ]
 
         if removed_images:
             print("Removed images: {}".format(removed_images))
 
-        self.images_references = copy_json
+        self.images_references = images_in_use
 
     def _clean_slots_in_skins(self, slots_ids: List[str]) -> None:
         skins_data = copy.deepcopy(self.spine_anim_data.data.skins)
-- 
2.43.0


From 3d40f6ac4292b22a75189855f37f0d1445308ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:24 +0000
Subject: [PATCH 09/32] fix: erase_skins did not report images named only by
 their attachment id

---
 spine_json_lib/data/spine_anim_data.py   |  9 ++++-----
 spine_json_lib/spine_animation_editor.py | 10 ++--------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index e88af30..3a86bd9 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -169,12 +169,11 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
-                    if image_path is not None:
-                        removed_attachments.setdefault(attachment_id, {})
-                        removed_attachments[attachment_id][slot_id] = image_path
+                    image_path = slot_data.path or slot_data.name or slot_id
+                    removed_attachments.setdefault(attachment_id, {})
+                    removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = slot_data.path or slot_data.name or slot_id
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 907bbd0..6c8a3a1 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -84,14 +84,8 @@ class SpineAnimationEditor(object):
                     images_skins_refs.append(attachment_path)
 
         # Check which attachments are not being used in the remaining skins
-        images_to_remove = []
-
-        for img in images_skins_refs:
-            image_graph_id = SpineGraphParser._to_graph_id(
-                node_type_name=NodeType.IMAGE.name, node_base_id=img
-            )
-            if not self.spine_graph.graph.get_node(image_graph_id):
-                images_to_remove.append(img)
+        images_in_use = self.get_images_references()
+        images_to_remove = [img for img in images_skins_refs if img not in images_in_use]
 
         if is_safe_mode:
             removed_data = [], []
-- 
2.43.0


From 5d428adde3e6da7771b310c3e329a0f67183a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:11 +0000
Subject: [PATCH 10/32] fix: detach linked meshes from their real parent mesh
 when erasing skins

---
 spine_json_lib/data/spine_anim_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 3a86bd9..c812cbb 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -21,6 +21,9 @@ from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
 from spine_json_lib.data.spine_version_type import SpineVersion
 
 
+# Skin where the parent of a linked mesh lives when the linked mesh has no "skin"
+DEFAULT_SKIN_NAME = "default"
+
 # Mypy forward declarations
 JsonSpineAnimationDataType = TypeVar(
     "JsonSpineAnimationDataType", bound="JsonSpineAnimationData"
@@ -146,20 +149,21 @@ class SpineAnimationData(SpineData):
                 for slot_id, slot_data in attachment_data.items():
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or DEFAULT_SKIN_NAME) == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
-- 
2.43.0


From eb7105f027abc1adbcdc50699b61780a10939370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:58 +0000
Subject: [PATCH 11/32] fix: load point, clipping, bounding box and explicit
 region attachments

---
 spine_json_lib/data/data_types/skin.py   |  6 +++++-
 spine_json_lib/spine_animation_editor.py | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/data/data_types/skin.py b/spine_json_lib/data/data_types/skin.py
index 0b91870..d306f7c 100644
--- a/spine_json_lib/data/data_types/skin.py
+++ b/spine_json_lib/data/data_types/skin.py
@@ -44,7 +44,7 @@ def parse_skin_attachment_data(attachments):
                 result[attach_id][slot_id] = SkinClipping(values=skin_data)
             elif skin_data_type == BOUNDING_BOX_TYPE:
                 result[attach_id][slot_id] = SkinBoundingBox(values=skin_data)
-            elif skin_data_type is None:
+            elif skin_data_type is None or skin_data_type == REGION_TYPE:
                 result[attach_id][slot_id] = SkinAttachment(values=skin_data)
             else:
                 raise ValueError(
@@ -98,6 +98,7 @@ class SkinAttachment(SpineData):
         self.name = values.get("name")
         self.path = values.get("path")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinAttachment, self).__init__(values)
 
@@ -184,6 +185,7 @@ class SkinBoundingBox(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinBoundingBox, self).__init__(values)
 
@@ -199,6 +201,7 @@ class SkinPoint(SpineData):
         self.y = values.get("y")
         self.rotation = values.get("rotation")
         self.color = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinPoint, self).__init__(values)
 
@@ -214,5 +217,6 @@ class SkinClipping(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinClipping, self).__init__(values)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 6c8a3a1..a9542e9 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -8,7 +8,11 @@ from typing import List, TypeVar
 from spine_json_lib.data.constants import SPINE_3_8_VERSION
 from spine_json_lib.data.data_types.bone import Bone
 from spine_json_lib.data.data_types.ik import Ik
-from spine_json_lib.data.data_types.skin import SkinPath
+from spine_json_lib.data.data_types.skin import (
+    SkinAttachment,
+    SkinLinkedMesh,
+    SkinMesh,
+)
 from spine_json_lib.data.data_types.slot import Slot
 from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
@@ -236,7 +240,10 @@ class SpineAnimationEditor(object):
                 scale = self.spine_anim_data.data.get_slot_custom_scale(slot=slot_data)
                 for sub_part_key in skin_data[part_name]:
                     skin_sub_part_instance = skin_data[part_name][sub_part_key]
-                    if not isinstance(skin_sub_part_instance, SkinPath):
+                    if isinstance(
+                        skin_sub_part_instance,
+                        (SkinAttachment, SkinMesh, SkinLinkedMesh),
+                    ):
                         relative_path = (
                             skin_sub_part_instance.path
                             or skin_sub_part_instance.name
-- 
2.43.0


From 67d70d107cd9a7756f7feda910d87619ab3be3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:04 +0000
Subject: [PATCH 12/32] fix: an export without slots could not be loaded again

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c812cbb..e13842c 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -65,7 +65,7 @@ class SpineAnimationData(SpineData):
         del _data["skeleton"]
 
         self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.slots: List[Slot] = [Slot(value) for value in _data.get("slots", [])]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
             Skin38(value) for value in _data["skins"]
         ]
-- 
2.43.0


From e7072bf01ef46aa829f8afb7e5ab61988da08659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:38 +0000
Subject: [PATCH 13/32] fix: refused erase_animations calls erased the known
 animations

---
 spine_json_lib/spine_animation_editor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index a9542e9..8715b77 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -267,11 +267,12 @@ class SpineAnimationEditor(object):
     def _erase_raw_animations_data(
         self, animations_to_erase: List[str], strict_mode: bool
     ) -> None:
-        # Erasing animation from the json
+        # Nothing is erased if the request is going to be refused
+        animations_to_keep = dict(self.spine_anim_data.data.animations)
         not_found_animations = []
         for animation_name in animations_to_erase:
-            if animation_name in self.spine_anim_data.data.animations:
-                del self.spine_anim_data.data.animations[animation_name]
+            if animation_name in animations_to_keep:
+                del animations_to_keep[animation_name]
             else:
                 not_found_animations.append(animation_name)
 
@@ -282,6 +283,9 @@ class SpineAnimationEditor(object):
                 )
             )
 
+        # Erasing animation from the json
+        self.spine_anim_data.data.animations = animations_to_keep
+
     def _clean_images_references(self) -> None:
         """ Keep only the images that are still used by any of the remaining skins """
         images_in_use = self.get_images_references()
-- 
2.43.0


From fbd67c3a352fa411b88b82e84aaf71ccbfbacc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:44 +0000
Subject: [PATCH 14/32] fix: refused erase_skins calls erased the known skins

---
 spine_json_lib/spine_animation_editor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8715b77..403e4ab 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -68,6 +68,18 @@ class SpineAnimationEditor(object):
         return SpineAnimationEditor(json_data=spine_json_data)
 
     def erase_skins(self, skins_to_erase, is_safe_mode=False):
+        # Nothing is erased if the request is going to be refused
+        skins_to_erase = list(skins_to_erase)
+        skins_to_keep = [skin.name for skin in self.spine_anim_data.data.skins]
+        for skin_name in skins_to_erase:
+            if skin_name not in skins_to_keep:
+                raise SpineJsonEditorError(
+                    message="Trying to remove skin with name {} but was not found".format(
+                        skin_name
+                    )
+                )
+            skins_to_keep.remove(skin_name)
+
         images_skins_refs = []
         skin_attachments_removed = {}
         for skin_name in skins_to_erase:
-- 
2.43.0


From a4813d708f2eccd800da83ff9ca790c4c2fc4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:24 +0000
Subject: [PATCH 15/32] fix: graph nodes could not be hashed

---
 spine_json_lib/graph/spamnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/spamnode.py b/spine_json_lib/graph/spamnode.py
index f287590..f4d205c 100644
--- a/spine_json_lib/graph/spamnode.py
+++ b/spine_json_lib/graph/spamnode.py
@@ -48,7 +48,7 @@ class SpamNode(object):
 
     def __hash__(self):
         """ Used for finding the collision chain for this node."""
-        return self._id
+        return hash(self._id)
 
     @property
     def id(self) -> str:
-- 
2.43.0


From 97c009cd7bef82d103be96d469b3c579a9eaae15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:29 +0000
Subject: [PATCH 16/32] fix: compare node types by value

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 spine_json_lib/graph/graph_validator.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index 4251e09..a7eb6ba 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -142,7 +142,7 @@ class SpineGraphParser(IGraphParser):
 
         for node_id, node in graph._nodes.items():
             # IMPORTANT: We ignore attachments when generating json from graph
-            if node.node_type is NodeType.ATTACHMENT.name or node.node_type is NodeType.IMAGE.name:
+            if node.node_type == NodeType.ATTACHMENT.name or node.node_type == NodeType.IMAGE.name:
                 continue
 
             node_type_json_key = SPINE_JSON_MAPPED_IDS[str(node.node_type)]
diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index c90794c..6fd8a5c 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -72,7 +72,7 @@ class GraphValidator(object):
             # Check if there are any head and it is not a root of the UCGraph
             if (
                 graph.get_node(head_id).node_type
-                is not UCNodeType.INPUT_ROOT_NODE_TYPE.name
+                != UCNodeType.INPUT_ROOT_NODE_TYPE.name
             ):
                 unconnected_nodes.append(head_id)
                 continue
-- 
2.43.0


From de4d624f5bc97fe3763adab8bc227f8b99fc30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:34 +0000
Subject: [PATCH 17/32] fix: sequential order of execution could place a node
 before its parents

---
 spine_json_lib/graph/dagraph.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 040ac62..9afe1c1 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -210,17 +210,26 @@ class DAGraph(object):
                 dependency between nodes to be able to execute them in this order
         """
         visited = set()
+        executed = set()
 
         result_nodes = []
 
-        def visit(node: SpamNode) -> None:
-            visited.add(node.id)
+        def execute(node: SpamNode) -> None:
+            if node.id in executed:
+                return
+
+            executed.add(node.id)
 
+            # Every dependency has to be executed before this node
             for parent in node.parents:
-                if parent not in visited:
-                    visit(self.get_node(parent))
+                execute(self.get_node(parent))
 
             result_nodes.append(node.id)
+
+        def visit(node: SpamNode) -> None:
+            visited.add(node.id)
+            execute(node)
+
             for child in node.children:
                 if child not in visited:
                     visit(self.get_node(child))
-- 
2.43.0


From d2346a93d87bd95ee952c60d0449b3387fab6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:33 +0000
Subject: [PATCH 18/32] fix: cleaning removed slots and paths that path
 constraints or clipping attachments need

---
 spine_json_lib/data/spine_anim_data.py   | 50 ++++++++++++++++++++++--
 spine_json_lib/spine_animation_editor.py |  7 +++-
 spine_json_lib/spine_graph_container.py  | 22 ++++++++---
 3 files changed, 69 insertions(+), 10 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index e13842c..653dfe2 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -12,7 +12,9 @@ from spine_json_lib.data.data_types.skin import (
     Skin38,
     SkinLinkedMesh,
     SkinAttachment,
+    SkinClipping,
     SkinMesh,
+    SkinPath,
 )
 from spine_json_lib.data.data_types.slot import Slot, SlotTimeline
 from spine_json_lib.data.data_types.transform import Transform
@@ -302,7 +304,47 @@ class SpineAnimationData(SpineData):
             )
 
         invisible_slots = slots_set - visible_slots
+        attachments_to_remove = self._get_unused_attachments(
+            invisible_slots, l_attachments_used
+        )
+
+        # Slots used by path constraints or clipping attachments can not be erased. Keeping
+        # them can keep alive attachments that need some other slot.
+        needed_slots = self.get_slots_referenced(invisible_slots, attachments_to_remove)
+        while invisible_slots & needed_slots:
+            invisible_slots -= needed_slots
+            attachments_to_remove = self._get_unused_attachments(
+                invisible_slots, l_attachments_used
+            )
+            needed_slots = self.get_slots_referenced(
+                invisible_slots, attachments_to_remove
+            )
+
+        return invisible_slots, attachments_to_remove
+
+    def get_slots_referenced(
+        self, slots_erased: FrozenSet[str], attachments_erased: FrozenSet[str]
+    ) -> FrozenSet[str]:
+        """
+        Return the slots that are the target of a path constraint or the end of a clipping
+        attachment that remains when erasing the given slots and attachments
+        """
+        slots_referenced = frozenset([path.target for path in self.path])
+        for skin in self.skins:
+            for slot_id, attachment_data in skin.attachments.items():
+                if slot_id in slots_erased:
+                    continue
+                for attachment_id, attachment in attachment_data.items():
+                    if (
+                        isinstance(attachment, SkinClipping)
+                        and attachment_id not in attachments_erased
+                    ):
+                        slots_referenced |= frozenset([attachment.end])
+        return slots_referenced - frozenset([None])
 
+    def _get_unused_attachments(
+        self, invisible_slots: FrozenSet[str], attachments_used: FrozenSet[str]
+    ) -> FrozenSet[str]:
         attachments_to_remove: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
@@ -311,13 +353,13 @@ class SpineAnimationData(SpineData):
                 attachments_ids = attachment_data.keys()
 
                 for attachment_id in attachments_ids:
-                    if attachment_id not in l_attachments_used:
-                        # Avoid removing skinmeshes if parent slot is visible...
+                    if attachment_id not in attachments_used:
+                        # Avoid removing skinmeshes and paths if parent slot is visible...
                         if (
-                            isinstance(attachment_data[attachment_id], SkinMesh)
+                            isinstance(attachment_data[attachment_id], (SkinMesh, SkinPath))
                             and slot_id not in invisible_slots
                         ):
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return invisible_slots, attachments_to_remove
+        return attachments_to_remove
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 403e4ab..7549d9e 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -167,7 +167,12 @@ class SpineAnimationEditor(object):
 
         # Removing leaves that are slots, which means
         # they don't have any attachment as children and can be removed from animation
-        leaf_slots = self.spine_graph.remove_leafs_of_type(NodeType.SLOT.name)
+        leaf_slots = self.spine_graph.remove_leafs_of_type(
+            NodeType.SLOT.name,
+            ids_to_keep=self.spine_anim_data.data.get_slots_referenced(
+                slots_to_remove, attachments_to_remove
+            ),
+        )
         slots_to_remove = list(slots_to_remove | frozenset(leaf_slots))
 
         # Convert spine graph back to json data
diff --git a/spine_json_lib/spine_graph_container.py b/spine_json_lib/spine_graph_container.py
index e5886cf..fe20847 100644
--- a/spine_json_lib/spine_graph_container.py
+++ b/spine_json_lib/spine_graph_container.py
@@ -56,13 +56,25 @@ class SpineGraphContainer(object):
 
         return leaf_slots
 
-    def remove_leafs_of_type(self, type_name) -> List[str]:
+    def remove_leafs_of_type(self, type_name, ids_to_keep=frozenset()) -> List[str]:
         """
-        Removing from graph every node leaves of type @type_name recursively
-        and return the list of ids
+        Removing from graph every node leaves of type @type_name recursively, except the
+        ones with id in @ids_to_keep, and return the list of ids
         """
+        graph_ids_to_keep = [
+            SpineGraphParser._to_graph_id(node_type_name=type_name, node_base_id=_id)
+            for _id in ids_to_keep
+        ]
+
+        def get_leafs_to_remove():
+            return [
+                leaf_id
+                for leaf_id in self.get_leafs_of_type(node_type=type_name)
+                if leaf_id not in graph_ids_to_keep
+            ]
+
         nodes_removed = []
-        leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+        leaf_nodes = get_leafs_to_remove()
         while leaf_nodes:
             nodes_removed += [
                 SpineGraphParser._to_base_id(
@@ -72,7 +84,7 @@ class SpineGraphContainer(object):
                 for s_id in leaf_nodes
             ]
 
-            leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+            leaf_nodes = get_leafs_to_remove()
         return nodes_removed
 
     def remove_attachment(self, attachment_id: str) -> SpamNode:
-- 
2.43.0


From 1329ccb36266182cecb86363fd22596c1ecdb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:38 +0000
Subject: [PATCH 19/32] fix: cleaning removed meshes of visible slots sharing
 their id with an unused attachment

---
 spine_json_lib/data/spine_anim_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 653dfe2..0ab53e7 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -346,6 +346,7 @@ class SpineAnimationData(SpineData):
         self, invisible_slots: FrozenSet[str], attachments_used: FrozenSet[str]
     ) -> FrozenSet[str]:
         attachments_to_remove: FrozenSet[Any] = frozenset([])
+        attachments_to_keep: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
@@ -359,7 +360,9 @@ class SpineAnimationData(SpineData):
                             isinstance(attachment_data[attachment_id], (SkinMesh, SkinPath))
                             and slot_id not in invisible_slots
                         ):
+                            attachments_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return attachments_to_remove
+        # Attachments are erased by id from every slot
+        return attachments_to_remove - attachments_to_keep
-- 
2.43.0


From 37bda4ff41b52690abee3f8e382895c520fdb331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:23 +0000
Subject: [PATCH 20/32] fix: transform constraint scale offsets of 1 were
 dropped, the format assumes 0

---
 spine_json_lib/data/data_types/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index e039d71..a6b4017 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -12,8 +12,8 @@ class Transform(SpineData):
         "rotation": 0,
         "x": 0,
         "y": 0,
-        "scaleX": 1.0,
-        "scaleY": 1.0,
+        "scaleX": 0,
+        "scaleY": 0,
         "shearX": 0,
         "shearY": 0,
     }
-- 
2.43.0


From a05aad4ac8465fcd274294e883634da7c1467b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:27 +0000
Subject: [PATCH 21/32] fix: path spacing of 1 was dropped, the format assumes
 0

---
 spine_json_lib/data/data_types/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index 079e733..e6afc19 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -11,7 +11,7 @@ class Path(SpineData):
         "rotateMode": "",
         "rotation": 0,
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "skin": False,
@@ -39,10 +39,10 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "curve": [],
-- 
2.43.0


From e7a774a5f8f05319e47ac084568268b390562b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:32 +0000
Subject: [PATCH 22/32] fix: event keys overriding the value of their event
 with zero were dropped

---
 spine_json_lib/data/data_types/events.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index 276b60d..427231d 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -18,13 +18,11 @@ class Events(SpineData):
 
 
 class EventTimeline(SpineData):
-    DEFAULT_VALUES = {"name": "", "int": 0, "float": 0, "string": ""}
+    # "int", "float" and "string" are the ones of the event definition when missing
+    DEFAULT_VALUES = {"name": ""}
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "name": "",
-        "int": 0,
-        "float": 0,
-        "string": "",
         "audio": "",
         "volume": 1,
         "balance": 0,
-- 
2.43.0


From dedd93798a882d2fa3868b141bfa5712203addc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:37 +0000
Subject: [PATCH 23/32] fix: path timeline keys at time zero lost their time in
 exports before 3.8

---
 spine_json_lib/data/data_types/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index e6afc19..fbf26b0 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -41,6 +41,7 @@ class Path(SpineData):
 class PathTimeline(SpineData):
     DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
+        "time": 0,
         "position": 0,
         "spacing": 0,
         "rotateMix": 1,
-- 
2.43.0


From ed2eba8bf66c580d318621c6397e6a8bcf4e35bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:08 +0000
Subject: [PATCH 24/32] fix: a root bone that does not inherit scale was scaled
 twice

---
 spine_json_lib/spine_animation_editor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 7549d9e..576a78a 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -223,9 +223,12 @@ class SpineAnimationEditor(object):
         spine_data = self.spine_anim_data.data
         for bone in spine_data.bones:
 
-            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
+            if bone.name == "root" or bone.transform in [
+                "noScale",
+                "noScaleOrReflection",
+                "onlyTranslation",
+            ]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
-        spine_data.get_bone("root").scale(scaleX=scaleX, scaleY=scaleY)
 
     @property
     def spine_version(self):
-- 
2.43.0


From 4fd1570bdc55fa0c822dde44266819e8a18f6e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:14 +0000
Subject: [PATCH 25/32] fix: slots listed in an animation without any key were
 cleaned as if they were emptied

---
 spine_json_lib/data/data_types/slot.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/data/data_types/slot.py b/spine_json_lib/data/data_types/slot.py
index 286fffa..e93664d 100644
--- a/spine_json_lib/data/data_types/slot.py
+++ b/spine_json_lib/data/data_types/slot.py
@@ -87,14 +87,9 @@ class SlotTimeline(SpineData):
         return (
             not self.color
             and not self.twoColor
-            and (
-                len(self.attachment) == 0
-                or (
-                    len(self.attachment) == 1
-                    and self.attachment[0].is_empty()
-                    and self.attachment[0].time == 0
-                )
-            )
+            and len(self.attachment) == 1
+            and self.attachment[0].is_empty()
+            and self.attachment[0].time == 0
         )
 
     def get_used_attachments(self):
-- 
2.43.0


From 11f8bd8b4bb52e99d38706538fc8644a06475145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:21 +0000
Subject: [PATCH 26/32] fix: cleaning compared graph ids with attachment ids
 when clearing set-up attachments

---
 spine_json_lib/spine_animation_editor.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 576a78a..fa36a40 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -353,12 +353,8 @@ class SpineAnimationEditor(object):
         copy_slots_data = copy.deepcopy(self.spine_anim_data.data.slots)
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
-            if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
-                    copy_slots_data[slot_idx].attachment = None
+            if default_attachment_id in attachments_ids:
+                copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
 
-- 
2.43.0


From 8ecac58b0d04257aa36e8a4bcc8aebd735b50447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:28 +0000
Subject: [PATCH 27/32] fix: deform offset assumes zero, exports before 3.8
 wrote a list

---
 spine_json_lib/data/data_types/deform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/deform.py b/spine_json_lib/data/data_types/deform.py
index 85c34aa..8635f9f 100644
--- a/spine_json_lib/data/data_types/deform.py
+++ b/spine_json_lib/data/data_types/deform.py
@@ -9,7 +9,7 @@ class Deform(SpineData):
         "time": 0,
         "vertices": [],
         "curve": [],
-        "offset": [],
+        "offset": 0,
         "c2": 0,
         "c3": 1,
         "c4": 1,
-- 
2.43.0


From d9461a48fb81f353de591d19d2534be3891b51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 28/32] fix: refuse scale tags that are not finite numbers

A bone or slot named '[scale:nan]' or '[scale:inf]' was accepted, and the images
references saved for it were not valid JSON.
---
 spine_json_lib/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/utils.py b/spine_json_lib/utils.py
index 87170e6..606b261 100644
--- a/spine_json_lib/utils.py
+++ b/spine_json_lib/utils.py
@@ -1,3 +1,4 @@
+import math
 import re
 from typing import List, Any
 
@@ -62,6 +63,9 @@ def get_tags_from_name(name):
             raise ValueError(f"Found unsupported TAG [{tag_name}] in {name}")
 
         tag_type = TAGS_SUPPORTED[tag_name]
-        tags_result[tag_name] = cast_element(tag_value, tag_type)
+        tag_result = cast_element(tag_value, tag_type)
+        if tag_type == TYPE_NUMBER and not math.isfinite(tag_result):
+            raise ValueError(f"Value of TAG [{tag_name}] in {name} is not a number")
+        tags_result[tag_name] = tag_result
 
     return tags_result
-- 
2.43.0


From cc82f50027dd59ee9eb818ab4575a51d2f028a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 29/32] fix: path keys without curve were exported for versions
 before 3.8 with an empty one

---
 spine_json_lib/data/data_types/path.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index fbf26b0..3d51af7 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -39,7 +39,13 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {
+        "position": 0,
+        "spacing": 0,
+        "rotateMix": 1,
+        "translateMix": 1,
+        "curve": [],
+    }
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "position": 0,
-- 
2.43.0


From f665f9760050a03b49d9c519955af953555b8554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 30/32] fix: heads, tails, validation and paths of graphs
 deeper than the recursion limit

---
 spine_json_lib/graph/dagraph.py         | 73 ++++++++++++-------------
 spine_json_lib/graph/graph_validator.py | 23 +++++---
 2 files changed, 51 insertions(+), 45 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 9afe1c1..192a4c1 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -177,31 +177,28 @@ class DAGraph(object):
         paths = list()
         visited = set()
 
-        def _look_for_paths(
-            start: str, end: str, path: List[str], depth: int, graph: DAGraphType
-        ) -> None:
-            if depth > maximum_depth:
-                return
-
-            if start == end:
-                paths.append(path + [start])
-                return
-
-            visited.add(start)
-            path.append(start)
-
-            for child_id in graph._nodes[start].children:
-                if child_id not in visited:
-                    _look_for_paths(
-                        start=child_id, end=end, path=path, depth=depth + 1, graph=graph
-                    )
-
-            visited.remove(start)
-            path.remove(start)
-
-        _look_for_paths(
-            start=node_start, end=node_end, path=list(), depth=1, graph=self
-        )
+        def _look_for_paths(start: str, end: str) -> None:
+            path = []
+            # Iterators over the children still to be visited for every node of the path,
+            # as graphs can be deeper than the recursion limit
+            pending = [iter([start])]
+
+            while pending:
+                node_id = next(pending[-1], None)
+                if node_id is None:
+                    pending.pop()
+                    if path:
+                        visited.remove(path.pop())
+                elif node_id in visited or len(path) + 1 > maximum_depth:
+                    continue
+                elif node_id == end:
+                    paths.append(path + [node_id])
+                else:
+                    visited.add(node_id)
+                    path.append(node_id)
+                    pending.append(iter(self._nodes[node_id].children))
+
+        _look_for_paths(start=node_start, end=node_end)
         return paths
 
     def sequential_order_of_execution(self) -> List[str]:
@@ -251,22 +248,22 @@ class DAGraph(object):
         result_nodes = []
         visited = set()
 
-        def visit(node: SpamNode) -> None:
-            if node.id in visited:
-                return
-
-            visited.add(node.id)
-            related_nodes = getattr(node, look_for)
+        for node_id, node_data in self._nodes.items():
+            # Nodes to be visited are stacked, as graphs can be deeper than the recursion limit
+            pending = [node_data]
+            while pending:
+                node = pending.pop()
+                if node.id in visited:
+                    continue
 
-            if not related_nodes:
-                result_nodes.append(node.id)
-                return
+                visited.add(node.id)
+                related_nodes = getattr(node, look_for)
 
-            for n_id, n in related_nodes.items():
-                visit(n)
+                if not related_nodes:
+                    result_nodes.append(node.id)
+                    continue
 
-        for node_id, node_data in self._nodes.items():
-            visit(node_data)
+                pending.extend(reversed(list(related_nodes.values())))
 
         return result_nodes
 
diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index 6fd8a5c..c79d479 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -94,13 +94,22 @@ class GraphValidator(object):
 
             visited_nodes.add(node.id)
             path.append(node.id)
-
-            for children_id, children in node.children.items():
-                path_to_visit = visit(children)
-                if children_id in path or path_to_visit:
-                    path_to_visit += [children_id]
-                    return path_to_visit
-            path.pop()
+            # Children still to be visited of every node being visited, as graphs can be
+            # deeper than the recursion limit
+            pending = [iter(node.children.items())]
+            first = len(path)
+
+            while pending:
+                children_id, children = next(pending[-1], (None, None))
+                if children is None:
+                    pending.pop()
+                    path.pop()
+                elif children_id in path:
+                    return [children_id] + list(reversed(path[first:]))
+                elif children_id not in visited_nodes:
+                    visited_nodes.add(children_id)
+                    path.append(children_id)
+                    pending.append(iter(children.children.items()))
             return []
 
         circle_references: List[Any] = []
-- 
2.43.0


From 9a4fd7dbcfd64dd4fd63fb0c2d6d0903b0e16ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 31/32] fix: execution order of graphs deeper than the
 recursion limit

---
 spine_json_lib/graph/dagraph.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 192a4c1..ac9fee7 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -211,6 +211,8 @@ class DAGraph(object):
 
         result_nodes = []
 
+        # Nodes are stacked instead of visited recursively, as graphs can be deeper than the
+        # recursion limit
         def execute(node: SpamNode) -> None:
             if node.id in executed:
                 return
@@ -218,18 +220,29 @@ class DAGraph(object):
             executed.add(node.id)
 
             # Every dependency has to be executed before this node
-            for parent in node.parents:
-                execute(self.get_node(parent))
+            pending = [(node, iter(node.parents))]
+            while pending:
+                current, parents = pending[-1]
+                parent = next(parents, None)
+                if parent is None:
+                    result_nodes.append(current.id)
+                    pending.pop()
+                elif parent not in executed:
+                    executed.add(parent)
+                    parent_node = self.get_node(parent)
+                    pending.append((parent_node, iter(parent_node.parents)))
 
-            result_nodes.append(node.id)
+        def visit(head: SpamNode) -> None:
+            pending = [head]
+            while pending:
+                node = pending.pop()
+                if node.id in visited:
+                    continue
 
-        def visit(node: SpamNode) -> None:
-            visited.add(node.id)
-            execute(node)
+                visited.add(node.id)
+                execute(node)
 
-            for child in node.children:
-                if child not in visited:
-                    visit(self.get_node(child))
+                pending.extend(reversed(list(node.children.values())))
 
         for head_id in self.get_heads_id():
             visit(self.get_node(head_id))
-- 
2.43.0


From 171e5712f086ae431ed0d28e0c863a662eec9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:07 +0000
Subject: [PATCH 32/32] fix: linked meshes keep the deform keys of a mesh whose
 skin is erased

---
 spine_json_lib/data/data_types/animation.py | 20 +++++++++++++++++++-
 spine_json_lib/data/spine_anim_data.py      |  9 +++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/animation.py b/spine_json_lib/data/data_types/animation.py
index 2c205e8..f52e49c 100644
--- a/spine_json_lib/data/data_types/animation.py
+++ b/spine_json_lib/data/data_types/animation.py
@@ -1,4 +1,5 @@
-from typing import List, Dict, Any
+import copy
+from typing import List, Dict, Any, Tuple
 
 from spine_json_lib.data.data_types.base_type import SpineData
 from spine_json_lib.data.data_types.bone import BoneTimeline
@@ -95,6 +96,23 @@ class Animation(SpineData):
         for draw_order in self.drawOrder:
             draw_order.remove_offsets_with_ids(slots_ids, original_slots)
 
+    def replace_deforms(
+        self, slot_id: str, source: Tuple[str, str], target: Tuple[str, str]
+    ) -> None:
+        """
+        Replace the deforms of the attachment @target (skin and attachment ids) of a slot
+        with the ones of the attachment @source of the same slot
+        """
+        source_skin, source_id = source
+        target_skin, target_id = target
+        deforms = self.deform.get(source_skin, {}).get(slot_id, {}).get(source_id)
+
+        if deforms:
+            skin_deform = self.deform.setdefault(target_skin, {})
+            skin_deform.setdefault(slot_id, {})[target_id] = copy.deepcopy(deforms)
+        elif target_id in self.deform.get(target_skin, {}).get(slot_id, {}):
+            del self.deform[target_skin][slot_id][target_id]
+
     def remove_deforms_using_slots(self, slots_ids):
         self.deform = {
             k: {k2: v2 for k2, v2 in v.items() if k2 not in slots_ids}
diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 0ab53e7..99e7819 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -169,6 +169,15 @@ class SpineAnimationData(SpineData):
 
                         attachment[slot_id] = copied_mesh
 
+                        # The LinkedMesh was deformed by the keys of its parent instead of its own
+                        if slot_data.get("deform", True):
+                            for anim_data in self.animations.values():
+                                anim_data.replace_deforms(
+                                    slot_id=attachment_id,
+                                    source=(skin_name, slot_data.parent),
+                                    target=(skin.name, slot_id),
+                                )
+
         # Get images removed from spine
         removed_images = []
         removed_attachments = {}
-- 
2.43.0


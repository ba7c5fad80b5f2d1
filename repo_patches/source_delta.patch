From 76cd2c5d109ce90655b86a90102cbf7ad58887f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 01/32] fix: make model_rebuild respect the caller namespace
 and return pydantic's result

---
 pydantic_xml/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..431e403 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -240,12 +240,16 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
             cls.__xml_serializer__ = None
 
     @classmethod
-    def model_rebuild(cls, **kwargs: Any) -> None:
-        super().model_rebuild(**kwargs)
+    def model_rebuild(cls, **kwargs: Any) -> Optional[bool]:
+        # pydantic resolves local forward references using the caller's frame, so that the current one must be skipped
+        kwargs['_parent_namespace_depth'] = kwargs.get('_parent_namespace_depth', 2) + 1
+        result = super().model_rebuild(**kwargs)
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
 
+        return result
+
     @classmethod
     def from_xml_tree(
             cls: Type[ModelT],
-- 
2.43.0


From d1352bff5730859d21126be7dc3d61abbbe19ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:22 +0000
Subject: [PATCH 02/32] fix: select inherited xml field serializers/validators
 deterministically

---
 pydantic_xml/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 431e403..d45aa1c 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -129,7 +129,12 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        # base class attributes go first so that the ones defined in a derived class take precedence
+        attr_names = [attr_name for base in reversed(cls.__mro__) for attr_name in vars(base)]
+        skip_attr_names = set(dir(BaseModel))
+        for attr_name in attr_names:
+            if attr_name in skip_attr_names:
+                continue
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From 860d33d2ac141efe95d959bc24a58ccc5e494a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 03/32] fix: collect annotated xml field serializers/validators
 of rebuilt models

---
 pydantic_xml/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index d45aa1c..c266cd5 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -252,6 +252,8 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
 
         if cls.__xml_serializer__ is None and cls.__pydantic_complete__:
             cls.__build_serializer__()
+            # fields annotations (therefore fields metadata) may not have been resolved during the class creation
+            cls._collect_xml_field_serializers_validators(cls)
 
         return result
 
-- 
2.43.0


From f206b99a30e00766cf498bbb75ce88c425ef9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:28 +0000
Subject: [PATCH 04/32] fix: respect skip_empty and exclude_none for unset
 mapping elements

---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..a43e021 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From 8c636d8b5975ebb8ee720b1693777d8d0d948977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:31 +0000
Subject: [PATCH 05/32] fix: keep attributes already set by other fields when a
 mapping is serialized

---
 pydantic_xml/serializers/factories/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index a43e021..503ba02 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -39,10 +39,8 @@ class AttributesSerializer(Serializer):
             return element
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
-        element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
-            for attr, enc in encoded.items()
-        })
+        for attr, enc in encoded.items():
+            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
 
         return element
 
-- 
2.43.0


From 4376d01b4e768d4841974cb3569f5400feee80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:34 +0000
Subject: [PATCH 06/32] fix: encode mapping values the same way as other
 primitive values

---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 503ba02..44e670c 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         for attr, enc in encoded.items():
-            element.set_attribute(QName(tag=attr, ns=ns).uri, str(enc))
+            element.set_attribute(QName(tag=attr, ns=ns).uri, encode_primitive(enc))
 
         return element
 
-- 
2.43.0


From 72a6ca16bf40a3ff2ad1ed50440b921c1f4e9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 07/32] fix: ignore processing instructions and keep the text
 following comments

---
 pydantic_xml/element/native/lxml.py | 26 +++++++++++++++++++-------
 pydantic_xml/element/native/std.py  | 26 +++++++++++++++++++-------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..b73bb65 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Optional, Union
+from typing import List, Optional, Union
 
 from lxml import etree
 
@@ -18,19 +18,27 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element) and not is_xml_processing_instruction(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # comments and processing instructions are ignored, but the text following them is not
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
@@ -63,3 +71,7 @@ def force_str(val: Union[str, bytes]) -> str:
 
 def is_xml_comment(element: ElementT) -> bool:
     return isinstance(element, etree._Comment)
+
+
+def is_xml_processing_instruction(element: ElementT) -> bool:
+    return isinstance(element, etree._ProcessingInstruction)
diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..ae4ac7e 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -1,5 +1,5 @@
 import xml.etree.ElementTree as etree
-from typing import Optional
+from typing import List, Optional
 
 from pydantic_xml.element import XmlElement as BaseXmlElement
 from pydantic_xml.typedefs import NsMap
@@ -16,16 +16,24 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text = element.text
+        elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element) and not is_xml_processing_instruction(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # comments and processing instructions are ignored, but the text following them is not
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
         )
 
     def to_native(self) -> ElementT:
@@ -45,3 +53,7 @@ class XmlElement(BaseXmlElement[ElementT]):
 
 def is_xml_comment(element: ElementT) -> bool:
     return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+
+
+def is_xml_processing_instruction(element: ElementT) -> bool:
+    return element.tag is etree.ProcessingInstruction  # type: ignore[comparison-overlap]
-- 
2.43.0


From 1d17409963bf2a72258bf3280516b4ea3580251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:56 +0000
Subject: [PATCH 08/32] fix: report source lines of aliased fields, root
 models, model-level errors and same-named sub-model fields correctly

---
 pydantic_xml/serializers/factories/model.py | 9 +++++++--
 pydantic_xml/utils.py                       | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..2cce7d9 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -144,6 +144,8 @@ class ModelSerializer(BaseModelSerializer):
         self._fields_validation_aliases = fields_validation_aliases
         self._fields_serialization_exclude = fields_serialization_exclude
         self._hide_input_in_errors = hide_input_in_errors
+        # pydantic refers to a field by its validation alias in the error location by default
+        self._fields_error_locs = fields_validation_aliases if model.model_config.get('loc_by_alias', True) else {}
 
     @property
     def model(self) -> Type['pxml.BaseXmlModel']:
@@ -209,9 +211,10 @@ class ModelSerializer(BaseModelSerializer):
 
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        sourcemap[loc] = element.get_sourceline()
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (field_name,)
+                loc = (self._fields_error_locs.get(field_name, field_name),)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
@@ -334,6 +337,7 @@ class RootModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        sourcemap[loc] = element.get_sourceline()
         try:
             result = self._root_serializer.deserialize(
                 element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
@@ -460,8 +464,9 @@ class ModelProxySerializer(BaseModelSerializer):
             if is_element_nill(sub_element):
                 return None
             else:
+                # sub-model errors locations are relative to the sub-model so that it must have its own source map
                 return self._model.__xml_serializer__.deserialize(
-                    sub_element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                    sub_element, context=context, sourcemap={}, loc=(), empty_as_string=empty_as_string,
                 )
         else:
             return None
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..d2d3da7 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -138,7 +138,7 @@ def set_validation_error_sourceline(
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
         loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        while (sourceline := sourcemap.get(loc, sourceline)) == -1 and loc:
             loc = tuple(loc[:-1])
 
         line_errors.append(
-- 
2.43.0


From b5e1b715cb1e63d599c60ff70660095ba7eaad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:12 +0000
Subject: [PATCH 09/32] fix: refer to aliased fields by alias in sub-model
 error locations as pydantic does

---
 pydantic_xml/serializers/factories/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 2cce7d9..60976d2 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -214,7 +214,8 @@ class ModelSerializer(BaseModelSerializer):
         sourcemap[loc] = element.get_sourceline()
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (self._fields_error_locs.get(field_name, field_name),)
+                error_loc = self._fields_error_locs.get(field_name, field_name)
+                loc = (error_loc,)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
@@ -227,7 +228,7 @@ class ModelSerializer(BaseModelSerializer):
                     field_name = self._fields_validation_aliases.get(field_name, field_name)
                     result[field_name] = field_value
             except pd.ValidationError as err:
-                field_errors[field_name] = err
+                field_errors[error_loc] = err
 
         if field_errors:
             raise utils.into_validation_error(
-- 
2.43.0


From 34e256baff1b8971718ff2adcc1261a69f7d3df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 10/32] fix: let the nearest namespace map take precedence over
 the farther ones

---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From 1553e3e3cebcecac53d719dcd0e5022bc5c9987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 11/32] fix: make the mypy plugin recognise the xml field
 functions at their actual location

---
 pydantic_xml/mypy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index a789d77..b885fc5 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -5,9 +5,9 @@ from mypy.plugin import ClassDefContext, Plugin
 from pydantic.mypy import PydanticModelTransformer, PydanticPlugin
 
 MODEL_METACLASS_FULLNAME = 'pydantic_xml.model.XmlModelMeta'
-ATTR_FULLNAME = 'pydantic_xml.model.attr'
-ELEMENT_FULLNAME = 'pydantic_xml.model.element'
-WRAPPED_FULLNAME = 'pydantic_xml.model.wrapped'
+ATTR_FULLNAME = 'pydantic_xml.fields.attr'
+ELEMENT_FULLNAME = 'pydantic_xml.fields.element'
+WRAPPED_FULLNAME = 'pydantic_xml.fields.wrapped'
 ENTITIES_FULLNAME = (ATTR_FULLNAME, ELEMENT_FULLNAME, WRAPPED_FULLNAME)
 
 
-- 
2.43.0


From 01210e9f07bd8d2cc67d9710bb7da839830f13e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:01 +0000
Subject: [PATCH 12/32] fix: make the mypy plugin recognise frozen pydantic
 fields

---
 pydantic_xml/mypy.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index b885fc5..fbfab00 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -95,16 +95,14 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
         if isinstance(expr, nodes.TempNode):
             return False
 
-        if not (
+        if (
             isinstance(expr, nodes.CallExpr) and
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            return False
-
-        for i, arg_name in enumerate(expr.arg_names):
-            if arg_name == 'frozen':
-                arg = expr.args[i]
-                return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
+            for i, arg_name in enumerate(expr.arg_names):
+                if arg_name == 'frozen':
+                    arg = expr.args[i]
+                    return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From 2975babe85b3a4748f16ae4182681299e7f04fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:03 +0000
Subject: [PATCH 13/32] fix: support custom xml serializers/validators of a
 root model

---
 pydantic_xml/serializers/factories/model.py | 24 +++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 60976d2..e5cd2c2 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -317,12 +317,15 @@ class RootModelSerializer(BaseModelSerializer):
         if self._model.__xml_skip_empty__ is not None:
             skip_empty = self._model.__xml_skip_empty__
 
-        self._root_serializer.serialize(
-            element, getattr(value, 'root'), encoded,
-            skip_empty=skip_empty,
-            exclude_none=exclude_none,
-            exclude_unset=exclude_unset,
-        )
+        if custom_root_serializer := self._model.__xml_field_serializers__.get('root'):
+            custom_root_serializer(value, element, getattr(value, 'root'), 'root')
+        else:
+            self._root_serializer.serialize(
+                element, getattr(value, 'root'), encoded,
+                skip_empty=skip_empty,
+                exclude_none=exclude_none,
+                exclude_unset=exclude_unset,
+            )
 
         return element
 
@@ -340,9 +343,12 @@ class RootModelSerializer(BaseModelSerializer):
 
         sourcemap[loc] = element.get_sourceline()
         try:
-            result = self._root_serializer.deserialize(
-                element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
-            )
+            if custom_root_validator := self._model.__xml_field_validators__.get('root'):
+                result = custom_root_validator(self._model, element, 'root')
+            else:
+                result = self._root_serializer.deserialize(
+                    element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
+                )
             if result is None:
                 result = pdc.PydanticUndefined
         except pd.ValidationError as err:
-- 
2.43.0


From e5c483b95664198cc3e72352d7cecf64ca67dc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 14/32] fix: serialize instances of a union variant sub-class

---
 pydantic_xml/serializers/factories/union.py | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..9eb59f7 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -108,14 +108,21 @@ class ModelSerializer(Serializer):
     ) -> Optional[XmlElementWriter]:
         for serializer in self._inner_serializers:
             if serializer.model is type(value):
-                return serializer.serialize(
-                    element, value, encoded,
-                    skip_empty=skip_empty,
-                    exclude_none=exclude_none,
-                    exclude_unset=exclude_unset,
-                )
-
-        return None
+                break
+        else:
+            # an exact match is not found, so the value may be an instance of a union type sub-class
+            for serializer in self._inner_serializers:
+                if isinstance(value, serializer.model):
+                    break
+            else:
+                return None
+
+        return serializer.serialize(
+            element, value, encoded,
+            skip_empty=skip_empty,
+            exclude_none=exclude_none,
+            exclude_unset=exclude_unset,
+        )
 
     def deserialize(
             self,
-- 
2.43.0


From ca9ccc9fcd7cf8155a7ee3b90a756c78014eb15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:09 +0000
Subject: [PATCH 15/32] fix: recognise xsi:nil="1" as a nil element

---
 pydantic_xml/element/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/element/utils.py b/pydantic_xml/element/utils.py
index 7d49827..90d8c68 100644
--- a/pydantic_xml/element/utils.py
+++ b/pydantic_xml/element/utils.py
@@ -4,7 +4,7 @@ XSI_NS = 'http://www.w3.org/2001/XMLSchema-instance'
 
 
 def is_element_nill(element: XmlElementReader) -> bool:
-    if (is_nil := element.pop_attrib('{%s}nil' % XSI_NS)) and is_nil == 'true':
+    if (is_nil := element.pop_attrib('{%s}nil' % XSI_NS)) and is_nil in ('true', '1'):
         return True
     else:
         return False
-- 
2.43.0


From b3aa16fdfe9300a8331f4abf380abfa3cb41036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 16/32] fix: undeclare the default namespace for elements that
 do not belong to it

---
 pydantic_xml/element/native/lxml.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index b73bb65..b703606 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -43,15 +43,24 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
+        return self._to_native(default_ns=None)
+
+    def _to_native(self, default_ns: Optional[str]) -> ElementT:
+        nsmap = {ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else {}
+        default_ns = nsmap.get(None, default_ns)
+        if default_ns and not self._tag.startswith('{'):
+            # the element doesn't belong to any namespace so that the inherited default one must be undeclared
+            nsmap[None] = default_ns = ''
+
         element = etree.Element(
             self._tag,
             attrib=self._state.attrib,
             # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap={ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else None,  # type: ignore[misc]
+            nsmap=nsmap or None,  # type: ignore[arg-type]
         )
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([element.to_native() for element in self._state.elements])
+        element.extend([typing.cast('XmlElement', element)._to_native(default_ns) for element in self._state.elements])
 
         return element
 
-- 
2.43.0


From 83c4bba5e051079763070099d0895b173c189d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:06 +0000
Subject: [PATCH 17/32] fix: serialize an optional discriminated union without
 a value

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 5f17e43..22652ab 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -76,6 +76,9 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None:
+            return None
+
         if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
-- 
2.43.0


From 213b09358f94cc131ed0c3a7d132a4a48c56c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:12 +0000
Subject: [PATCH 18/32] fix: respect the aliases of a wrapped field

---
 pydantic_xml/fields.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..57ff822 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -108,11 +108,15 @@ _Unset: Any = pdc.PydanticUndefined
 
 
 def prepare_field_kwargs(kwargs: Dict[str, Any]) -> Dict[str, Any]:
-    if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
-        kwargs['serialization_alias'] = kwargs.get('alias')
+    alias = kwargs.get('alias')
 
-    if kwargs.get('validation_alias') in (None, pdc.PydanticUndefined):
-        kwargs['validation_alias'] = kwargs.get('alias')
+    for alias_kind in ('serialization_alias', 'validation_alias'):
+        if kwargs.get(alias_kind) in (None, pdc.PydanticUndefined):
+            if alias in (None, pdc.PydanticUndefined):
+                # an alias that is not set must not override the one the field is merged with
+                kwargs.pop(alias_kind, None)
+            else:
+                kwargs[alias_kind] = alias
 
     return kwargs
 
@@ -199,6 +203,8 @@ def wrapped(
     :param kwargs: pydantic field arguments. See :py:class:`pydantic.Field`
     """
 
+    kwargs = prepare_field_kwargs(kwargs)
+
     if entity is None:
         wrapped_entity_info = None
         field_info = pd.fields.FieldInfo(default=default, default_factory=default_factory, **kwargs)
-- 
2.43.0


From 1668e04843b3430e840d5f7e6332d23d789d80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 19/32] fix: initialize generic models parametrized by a root
 model

---
 pydantic_xml/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index c266cd5..d2c8ef1 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -217,7 +217,8 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
                     cls.__xml_serializer__ = None
                     return
         else:
-            if cls.__pydantic_generic_metadata__['parameters']:
+            # type parameters of non-parametrized root models the model is parametrized by are not its own ones
+            if set(cls.__pydantic_generic_metadata__['parameters']) - {RootModelRootType}:
                 cls.__xml_serializer__ = None
                 return
 
-- 
2.43.0


From 9301086412bd02f21523dd0c65487c2925da4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:12 +0000
Subject: [PATCH 20/32] fix: support generic root models of a composite type

---
 pydantic_xml/model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index d2c8ef1..c4b2ec4 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -32,6 +32,15 @@ __all__ = (
 Model = TypeVar('Model', bound='BaseXmlModel')
 
 
+def _contains_typevar(annotation: Any) -> bool:
+    if isinstance(annotation, TypeVar):
+        return True
+    if generic_metadata := getattr(annotation, '__pydantic_generic_metadata__', None):
+        return bool(set(generic_metadata['parameters']) - {RootModelRootType})
+
+    return any(map(_contains_typevar, te.get_args(annotation)))
+
+
 def create_model(
         __model_name: str,
         *,
@@ -213,7 +222,7 @@ class BaseXmlModel(BaseModel, __xml_abstract__=True, metaclass=XmlModelMeta):
         # checks that all generic parameters are provided
         if cls.__pydantic_root_model__:
             if cls.__pydantic_generic_metadata__['parameters']:
-                if cls.model_fields.get('root') is None or isinstance(cls.model_fields['root'].annotation, TypeVar):
+                if cls.model_fields.get('root') is None or _contains_typevar(cls.model_fields['root'].annotation):
                     cls.__xml_serializer__ = None
                     return
         else:
-- 
2.43.0


From 5be31fb16871725441103aa32d41d855a6af5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 21/32] fix: build native lxml trees from the top down to keep
 namespaces of raw elements intact

---
 pydantic_xml/element/native/lxml.py | 31 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index b703606..2dee2fb 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import List, Optional, Union
+from typing import Dict, List, Optional, Union
 
 from lxml import etree
 
@@ -43,24 +43,29 @@ class XmlElement(BaseXmlElement[ElementT]):
         )
 
     def to_native(self) -> ElementT:
-        return self._to_native(default_ns=None)
+        return self._to_native(parent=None, scope={})
 
-    def _to_native(self, default_ns: Optional[str]) -> ElementT:
+    def _to_native(self, parent: Optional[ElementT], scope: Dict[Optional[str], str]) -> ElementT:
         nsmap = {ns or None: uri for ns, uri in self._nsmap.items()} if self._nsmap else {}
-        default_ns = nsmap.get(None, default_ns)
-        if default_ns and not self._tag.startswith('{'):
+        if nsmap.get(None, scope.get(None)) and not self._tag.startswith('{'):
             # the element doesn't belong to any namespace so that the inherited default one must be undeclared
-            nsmap[None] = default_ns = ''
-
-        element = etree.Element(
-            self._tag,
-            attrib=self._state.attrib,
-            # https://github.com/lxml/lxml-stubs/issues/76
-            nsmap=nsmap or None,  # type: ignore[arg-type]
+            nsmap[None] = ''
+
+        # a namespace that is already declared by a parent element shouldn't be declared again
+        nsmap = {ns: uri for ns, uri in nsmap.items() if scope.get(ns) != uri}
+        scope = {**scope, **nsmap}
+
+        # the tree is built from the top down because lxml doesn't take overridden prefixes into account
+        # when it relocates an element with its sub-elements to another tree
+        # https://github.com/lxml/lxml-stubs/issues/76
+        element = (
+            etree.Element(self._tag, self._state.attrib, nsmap) if parent is None  # type: ignore[arg-type]
+            else etree.SubElement(parent, self._tag, self._state.attrib, nsmap)  # type: ignore[arg-type]
         )
         element.text = self._state.text
         element.tail = self._state.tail
-        element.extend([typing.cast('XmlElement', element)._to_native(default_ns) for element in self._state.elements])
+        for sub_element in self._state.elements:
+            typing.cast('XmlElement', sub_element)._to_native(element, scope)
 
         return element
 
-- 
2.43.0


From dddd64d033800d4c138abd6cdd9e6eb590269c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 22/32] fix: don't skip wrapped raw elements that have text or
 attributes only

---
 pydantic_xml/serializers/factories/wrapper.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/wrapper.py b/pydantic_xml/serializers/factories/wrapper.py
index a21436e..f1cbbdc 100644
--- a/pydantic_xml/serializers/factories/wrapper.py
+++ b/pydantic_xml/serializers/factories/wrapper.py
@@ -2,7 +2,7 @@ from typing import Any, Dict, Optional, Sized
 
 from pydantic_core import core_schema as pcs
 
-from pydantic_xml.element import XmlElementReader, XmlElementWriter
+from pydantic_xml.element import XmlElementReader, XmlElementWriter, native
 from pydantic_xml.serializers.serializer import SearchMode, Serializer
 from pydantic_xml.typedefs import Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
@@ -52,8 +52,13 @@ class ElementPathSerializer(Serializer):
         if value is None:
             return element
 
-        if skip_empty and isinstance(value, Sized) and len(value) == 0:
-            return element
+        if skip_empty:
+            if isinstance(value, native.ElementT):
+                # the length of a raw element is the number of its sub-elements only
+                if element.from_native(value).is_empty():
+                    return element
+            elif isinstance(value, Sized) and len(value) == 0:
+                return element
 
         for part in self._path:
             element = element.find_element_or_create(part, self._search_mode, nsmap=self._nsmap)
-- 
2.43.0


From 3fdc08e4a6f2c4dbd4d3cd3cfc66dbe9a42f2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 23/32] fix: make the mypy plugin respect validation aliases
 and arguments of wrapped entities

---
 pydantic_xml/mypy.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/pydantic_xml/mypy.py b/pydantic_xml/mypy.py
index fbfab00..1057ab8 100644
--- a/pydantic_xml/mypy.py
+++ b/pydantic_xml/mypy.py
@@ -1,4 +1,4 @@
-from typing import Callable, Optional, Tuple, Union
+from typing import Callable, Iterator, Optional, Tuple, Union
 
 from mypy import nodes
 from mypy.plugin import ClassDefContext, Plugin
@@ -26,6 +26,25 @@ class PydanticXmlPlugin(PydanticPlugin):
         transformer.transform()
 
 
+def iter_entity_args(expr: nodes.CallExpr) -> Iterator[Tuple[nodes.Expression, Optional[str]]]:
+    """
+    Returns the arguments of an entity function call.
+    The arguments of a wrapped entity come first since they take precedence over the wrapper ones.
+    """
+
+    if isinstance(expr.callee, nodes.RefExpr) and expr.callee.fullname == WRAPPED_FULLNAME:
+        for idx, (arg, name) in enumerate(zip(expr.args, expr.arg_names)):
+            if (
+                (name == 'entity' or name is None and idx == 1) and
+                isinstance(arg, nodes.CallExpr) and
+                isinstance(arg.callee, nodes.RefExpr) and
+                arg.callee.fullname in ENTITIES_FULLNAME
+            ):
+                yield from iter_entity_args(arg)
+
+    yield from zip(expr.args, expr.arg_names)
+
+
 class PydanticXmlModelTransformer(PydanticModelTransformer):
     @staticmethod
     def get_has_default(stmt: nodes.AssignmentStmt) -> bool:
@@ -38,7 +57,7 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, name in zip(expr.args, expr.arg_names):
+            for arg, name in iter_entity_args(expr):
                 if name == 'default':
                     return arg.__class__ is not nodes.EllipsisExpr
                 if name == 'default_factory':
@@ -59,13 +78,14 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, arg_name in zip(expr.args, expr.arg_names):
-                if arg_name != 'alias':
-                    continue
-                if isinstance(arg, nodes.StrExpr):
-                    return arg.value, False
-                else:
-                    return None, True
+            for alias_kind in ('validation_alias', 'alias'):
+                for arg, arg_name in iter_entity_args(expr):
+                    if arg_name != alias_kind:
+                        continue
+                    if isinstance(arg, nodes.StrExpr):
+                        return arg.value, False
+                    else:
+                        return None, True
 
         return PydanticModelTransformer.get_alias_info(stmt)
 
@@ -77,7 +97,7 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for arg, name in zip(expr.args, expr.arg_names):
+            for arg, name in iter_entity_args(expr):
                 if name != 'strict':
                     continue
                 if isinstance(arg, nodes.NameExpr):
@@ -100,9 +120,8 @@ class PydanticXmlModelTransformer(PydanticModelTransformer):
             isinstance(expr.callee, nodes.RefExpr) and
             expr.callee.fullname in ENTITIES_FULLNAME
         ):
-            for i, arg_name in enumerate(expr.arg_names):
+            for arg, arg_name in iter_entity_args(expr):
                 if arg_name == 'frozen':
-                    arg = expr.args[i]
                     return isinstance(arg, nodes.NameExpr) and arg.fullname == 'builtins.True'
 
         return PydanticModelTransformer.is_field_frozen(stmt)
-- 
2.43.0


From 740cf2f23e0985538f733c9d0daeae5d809c3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:50 +0000
Subject: [PATCH 24/32] fix: parse models that are validated by field name only

---
 pydantic_xml/serializers/factories/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index e5cd2c2..0875967 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -70,6 +70,7 @@ class ModelSerializer(BaseModelSerializer):
         fields_schema = typing.cast(pcs.ModelFieldsSchema, fields_schema)
 
         hide_input_in_errors = model_cls.model_config.get('hide_input_in_errors', ctx.hide_input_in_errors)
+        validate_by_alias = model_cls.model_config.get('validate_by_alias', True)
 
         entity_info: Optional[XmlEntityInfoP]
         fields_serialization_exclude: Set[str] = set()
@@ -85,7 +86,7 @@ class ModelSerializer(BaseModelSerializer):
 
             field_alias = model_field.get('serialization_alias')
             if validation_alias := model_field.get('validation_alias'):
-                if isinstance(validation_alias, str):
+                if validate_by_alias and isinstance(validation_alias, str):
                     fields_validation_aliases[field_name] = validation_alias
 
             field_ctx = ctx.child(
-- 
2.43.0


From acc57324d173083f7cb9b905f5e9df7b14aff911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 25/32] fix: keep the parameters of a computed entity decorator
 applied repeatedly

---
 pydantic_xml/fields.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index 57ff822..8311ed6 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -263,12 +263,12 @@ def computed_entity(
         prop: Optional[PropertyT] = None,
         **kwargs: Any,
 ) -> Union[PropertyT, Callable[[PropertyT], PropertyT]]:
-    def decorator(prop: Any) -> Any:
-        path = kwargs.pop('path', None)
-        ns = kwargs.pop('ns', None)
-        nsmap = kwargs.pop('nsmap', None)
-        nillable = kwargs.pop('nillable', None)
+    path = kwargs.pop('path', None)
+    ns = kwargs.pop('ns', None)
+    nsmap = kwargs.pop('nsmap', None)
+    nillable = kwargs.pop('nillable', None)
 
+    def decorator(prop: Any) -> Any:
         descriptor_proxy = pd.computed_field(**kwargs)(prop)
         descriptor_proxy.decorator_info = ComputedXmlEntityInfo(
             location=location,
-- 
2.43.0


From 8429aa216b89b96058e6a9d390df5f640bdc2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:38 +0000
Subject: [PATCH 26/32] fix: bind deque, defaultdict, OrderedDict and Counter
 fields as collections and mappings

They are described by lax-or-strict schemas and were taken for primitives: python representation
of the value was written to the document, it couldn't be read back.
---
 pydantic_xml/serializers/serializer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 59b0ca0..a0112c2 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -200,6 +200,19 @@ class Serializer(abc.ABC):
             inner_schema = schema['python_schema']
             return cls.preprocess_schema(inner_schema, ctx)
 
+        elif schema_type == 'lax-or-strict':
+            # collections and mappings which have no schema of their own (deque, defaultdict, OrderedDict, Counter)
+            # are defined by means of list and dict ones, the other types are primitive
+            inner_schema = schema['lax_schema']
+            while inner_schema['type'] in ('function-before', 'function-after', 'function-wrap'):
+                inner_schema = inner_schema['schema']
+
+            if TYPE_FAMILY.get(inner_schema['type']) in (
+                    SchemaTypeFamily.HOMOGENEOUS_COLLECTION,
+                    SchemaTypeFamily.MAPPING,
+            ):
+                return cls.preprocess_schema(inner_schema, ctx)
+
         elif type_family is SchemaTypeFamily.DEFINITIONS:
             schema = typing.cast(pcs.DefinitionsSchema, schema)
             definitions = {
-- 
2.43.0


From a05662d422fbb1687c10c5f3ee99ad717b5dc830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 27/32] fix: pass __module__ to the model create_model creates

The parameter was ignored, so that forward references were resolved in pydantic_xml.model.
---
 pydantic_xml/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index c4b2ec4..766e2f1 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -97,7 +97,12 @@ def create_model(
         else:
             model_base = (*model_base, BaseWithConfig)
 
-    model = pd.create_model(__model_name, __base__=model_base, **kwargs)
+    model = pd.create_model(
+        __model_name,
+        __base__=model_base,
+        __module__=__module__,  # type: ignore[arg-type]
+        **kwargs,
+    )
 
     return typing.cast(Type[Model], model)
 
-- 
2.43.0


From c0c437c23a7758c41ee2ab3f6d3ca8c5ea570b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:39 +0000
Subject: [PATCH 28/32] fix: serialize discriminated union variants with an
 empty discriminator

---
 pydantic_xml/serializers/factories/tagged_union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 22652ab..785b42f 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -79,7 +79,7 @@ class ModelSerializer(Serializer):
         if value is None:
             return None
 
-        if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
+        if (tag := encoded.get(self._discriminator)) is not None and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
             )
-- 
2.43.0


From 4f4408f55453b485a40534f04cf5bd959c03a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 29/32] fix: skip fields pydantic excludes by condition
 (exclude_if)

---
 pydantic_xml/serializers/factories/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index 0875967..572cccf 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -74,6 +74,7 @@ class ModelSerializer(BaseModelSerializer):
 
         entity_info: Optional[XmlEntityInfoP]
         fields_serialization_exclude: Set[str] = set()
+        fields_serialization_exclude_if: Set[str] = set()
         fields_validation_aliases: Dict[str, str] = {}
         fields_serializers: Dict[str, Serializer] = {}
         for field_name, model_field in fields_schema['fields'].items():
@@ -83,6 +84,8 @@ class ModelSerializer(BaseModelSerializer):
 
             if model_field.get('serialization_exclude', False):
                 fields_serialization_exclude.add(field_name)
+            if model_field.get('serialization_exclude_if') is not None:
+                fields_serialization_exclude_if.add(field_name)
 
             field_alias = model_field.get('serialization_alias')
             if validation_alias := model_field.get('validation_alias'):
@@ -122,7 +125,8 @@ class ModelSerializer(BaseModelSerializer):
 
         return cls(
             model_cls, name, ns, nsmap,
-            fields_serializers, fields_validation_aliases, fields_serialization_exclude,
+            fields_serializers, fields_validation_aliases,
+            fields_serialization_exclude, fields_serialization_exclude_if,
             hide_input_in_errors,
         )
 
@@ -135,6 +139,7 @@ class ModelSerializer(BaseModelSerializer):
             field_serializers: Dict[str, Serializer],
             fields_validation_aliases: Dict[str, str],
             fields_serialization_exclude: Set[str],
+            fields_serialization_exclude_if: Set[str],
             hide_input_in_errors: bool,
     ):
 
@@ -144,6 +149,7 @@ class ModelSerializer(BaseModelSerializer):
         self._nsmap = nsmap
         self._fields_validation_aliases = fields_validation_aliases
         self._fields_serialization_exclude = fields_serialization_exclude
+        self._fields_serialization_exclude_if = fields_serialization_exclude_if
         self._hide_input_in_errors = hide_input_in_errors
         # pydantic refers to a field by its validation alias in the error location by default
         self._fields_error_locs = fields_validation_aliases if model.model_config.get('loc_by_alias', True) else {}
@@ -183,6 +189,8 @@ class ModelSerializer(BaseModelSerializer):
         for field_name, field_serializer in self._field_serializers.items():
             if field_name in self._fields_serialization_exclude:
                 continue
+            if field_name in self._fields_serialization_exclude_if and field_name not in encoded:
+                continue
             if exclude_unset and field_name not in value.__pydantic_fields_set__:
                 continue
 
-- 
2.43.0


From 57e2f8d56959e102500ae4ca81fac6b4d1c1cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:26 +0000
Subject: [PATCH 30/32] fix: write Json fields as JSON documents

---
 .../serializers/factories/primitive.py        | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pydantic_xml/serializers/factories/primitive.py b/pydantic_xml/serializers/factories/primitive.py
index e26212a..a14ea9d 100644
--- a/pydantic_xml/serializers/factories/primitive.py
+++ b/pydantic_xml/serializers/factories/primitive.py
@@ -1,3 +1,4 @@
+import json
 from typing import Any, Dict, Optional, Union
 
 from pydantic_core import core_schema as pcs
@@ -28,17 +29,22 @@ PrimitiveTypeSchema = Union[
 ]
 
 
+def encode_json(value: Any) -> str:
+    return encode_primitive(value) if value is None else json.dumps(value, ensure_ascii=False)
+
+
 class TextSerializer(Serializer):
     @classmethod
     def from_core_schema(cls, schema: PrimitiveTypeSchema, ctx: Serializer.Context) -> 'TextSerializer':
         computed = ctx.field_computed
         nillable = ctx.nillable
 
-        return cls(computed, nillable)
+        return cls(computed, nillable, is_json=schema['type'] == 'json')
 
-    def __init__(self, computed: bool, nillable: Optional[bool]):
+    def __init__(self, computed: bool, nillable: Optional[bool], is_json: bool = False):
         self._computed = computed
         self._nillable = nillable
+        self._encode = encode_json if is_json else encode_primitive
 
     def serialize(
             self,
@@ -56,7 +62,7 @@ class TextSerializer(Serializer):
         if self._nillable and value is None:
             make_element_nill(element)
 
-        element.set_text(encode_primitive(encoded))
+        element.set_text(self._encode(encoded))
         return element
 
     def deserialize(
@@ -99,11 +105,14 @@ class AttributeSerializer(Serializer):
         if name is None:
             raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
-        return cls(name, ns, nsmap, computed)
+        return cls(name, ns, nsmap, computed, is_json=schema['type'] == 'json')
 
-    def __init__(self, name: str, ns: Optional[str], nsmap: Optional[NsMap], computed: bool):
+    def __init__(
+            self, name: str, ns: Optional[str], nsmap: Optional[NsMap], computed: bool, is_json: bool = False,
+    ):
         self._attr_name = QName.from_alias(tag=name, ns=ns, nsmap=nsmap, is_attr=True).uri
         self._computed = computed
+        self._encode = encode_json if is_json else encode_primitive
 
     @property
     def attr_name(self) -> str:
@@ -122,7 +131,7 @@ class AttributeSerializer(Serializer):
         if value is None and (skip_empty or exclude_none):
             return element
 
-        element.set_attribute(self._attr_name, encode_primitive(encoded))
+        element.set_attribute(self._attr_name, self._encode(encoded))
 
         return element
 
@@ -157,7 +166,7 @@ class ElementSerializer(TextSerializer):
         if name is None:
             raise errors.ModelFieldError(ctx.model_name, ctx.field_name, "entity name is not provided")
 
-        return cls(name, ns, nsmap, search_mode, computed, nillable)
+        return cls(name, ns, nsmap, search_mode, computed, nillable, is_json=schema['type'] == 'json')
 
     def __init__(
             self,
@@ -167,8 +176,9 @@ class ElementSerializer(TextSerializer):
             search_mode: SearchMode,
             computed: bool,
             nillable: Optional[bool],
+            is_json: bool = False,
     ):
-        super().__init__(computed, nillable)
+        super().__init__(computed, nillable, is_json)
 
         self._nsmap = nsmap
         self._search_mode = search_mode
-- 
2.43.0


From 76ffc39819f9e5e3dec4a4458db47d3548c0a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:51 +0000
Subject: [PATCH 31/32] fix: do not modify the class options given to
 create_model

---
 pydantic_xml/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 766e2f1..f9620cb 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -72,7 +72,7 @@ def create_model(
     :return: created model
     """
 
-    cls_kwargs = kwargs.setdefault('__cls_kwargs__', {})
+    cls_kwargs = kwargs['__cls_kwargs__'] = dict(kwargs.get('__cls_kwargs__') or {})
     cls_kwargs['metaclass'] = XmlModelMeta
 
     cls_kwargs['tag'] = __tag__
-- 
2.43.0


From 71e77221c6574998c47fdd8e36a52031a993f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:39 +0000
Subject: [PATCH 32/32] fix: reject types defined by a validator function alone
 with a model error

---
 pydantic_xml/serializers/serializer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index a0112c2..ee17e22 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -189,10 +189,9 @@ class Serializer(abc.ABC):
             elif schema_type == 'nullable':
                 ctx = ctx.replace(optional=True)
 
-            if schema_type == 'function-plain':
-                inner_schema = schema['serialization']
-            else:
-                inner_schema = schema['schema']
+            inner_schema = schema.get('serialization' if schema_type == 'function-plain' else 'schema')
+            if inner_schema is None:  # the function defines the type alone
+                raise ModelError(f"type {schema_type} is not supported")
 
             return cls.preprocess_schema(inner_schema, ctx)
 
-- 
2.43.0


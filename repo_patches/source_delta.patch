From 26f3c99d990df1c15474eb84da37b35da2a5f6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 01/22] fix: a null target field is met by an absent field

A merge patch of `null` removes the key, so the object never matched its target
and was patched on every pass.
---
 src/koreo/resource_function/reconcile/validate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 221fe67..8e243d5 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -148,6 +148,10 @@ def _validate_dict_match(
 
         else:
             if target_key not in actual:
+                # A merge-patch `null` removes the key, so absent _is_ null.
+                if target[target_key] is None:
+                    continue
+
                 return ResourceMatch(
                     match=False, differences=[f"<missing '{target_key}' in resource>"]
                 )
-- 
2.43.0


From 4a47fe658514029ea85a75d3724504351225d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 02/22] fix: set-directed lists distinguish booleans from 0 and
 1

A member retyped between true/1 or false/0 was not detected as drift.
---
 src/koreo/resource_function/reconcile/validate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 8e243d5..0f341f9 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -244,8 +244,9 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
         )
 
     try:
-        target_set = set(target)
-        actual_set = set(actual)
+        # Python considers `True == 1` and `False == 0`, JSON does not.
+        target_set = {(isinstance(value, bool), value) for value in target}
+        actual_set = {(isinstance(value, bool), value) for value in actual}
     except TypeError as err:
         if "dict" in f"{err}":
             return ResourceMatch(
@@ -269,10 +270,10 @@ def _validate_set_match(target: list | tuple, actual: list | tuple) -> ResourceM
     if not (missing_values or unexpected_values):
         return ResourceMatch(match=True, differences=())
 
-    for missing_value in missing_values:
+    for _, missing_value in missing_values:
         return ResourceMatch(match=False, differences=(f"<missing '{missing_value}'>",))
 
-    for unexpected_value in unexpected_values:
+    for _, unexpected_value in unexpected_values:
         return ResourceMatch(
             match=False, differences=(f"<unexpectedly found '{unexpected_value}'>",)
         )
-- 
2.43.0


From 4b1b61024e6c7c9b92368d72ecae834b7c70dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 03/22] fix: a retyped map-directed list is drift, not a crash

A live (or last-applied) value that is not an array of objects raised out of the
comparison instead of being corrected.
---
 .../resource_function/reconcile/validate.py   | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 0f341f9..82e88e0 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -101,13 +101,28 @@ def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
     return "$".join(f"{obj.get(field)}".strip() for field in fields)
 
 
+def _is_list_of_objects(target, actual) -> bool:
+    """Only arrays of objects may be compared as a map, anything else needs the
+    regular comparison to report the type mismatch."""
+    if not target and not actual:
+        return True
+
+    return (
+        isinstance(target, (list, tuple))
+        and isinstance(actual, (list, tuple))
+        and all(isinstance(obj, dict) for obj in target)
+    )
+
+
 def _list_to_object(
-    obj_list: Sequence[dict], key_fields: Sequence[int | str]
+    obj_list: Sequence[dict] | None, key_fields: Sequence[int | str]
 ) -> dict[str, dict] | None:
-    if not obj_list:
+    if not obj_list or not isinstance(obj_list, (list, tuple)):
         return None
 
-    return {_obj_to_key(obj, key_fields): obj for obj in obj_list}
+    return {
+        _obj_to_key(obj, key_fields): obj for obj in obj_list if isinstance(obj, dict)
+    }
 
 
 def _validate_dict_match(
@@ -158,7 +173,9 @@ def _validate_dict_match(
 
             compare_value = actual[target_key]
 
-        if target_key in compare_as_map:
+        if target_key in compare_as_map and _is_list_of_objects(
+            target[target_key], compare_value
+        ):
             map_keys = compare_as_map[target_key]
             key_match = validate_match(
                 target=_list_to_object(target[target_key], map_keys),
-- 
2.43.0


From 912d322dd56d42e4013fea00f4cef853b4179741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 04/22] fix: an unexpected last-applied annotation does not
 crash reconcile

A last-applied document that is not JSON, or whose shape differs from the current
target, raised out of the comparison instead of the drift being corrected.
---
 src/koreo/resource_function/reconcile/__init__.py | 6 +++++-
 src/koreo/resource_function/reconcile/validate.py | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 8c0039f..ac137c9 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -835,7 +835,11 @@ def _extract_last_applied(resource: dict) -> dict | None:
     if not last_applied:
         return None
 
-    return json.loads(last_applied)
+    try:
+        return json.loads(last_applied)
+    except (TypeError, ValueError):
+        # Anyone may edit an annotation; without it there is nothing to compare.
+        return None
 
 
 def _prepare_for_api(obj: dict) -> dict:
diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 82e88e0..2c30188 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -144,7 +144,8 @@ def _validate_dict_match(
         if key
     }
 
-    if not last_applied_value:
+    # Others may have altered the annotation, or the target changed shape.
+    if not isinstance(last_applied_value, dict):
         last_applied_value = {}
 
     for target_key in target_keys:
@@ -224,7 +225,7 @@ def _validate_list_match(
             ],
         )
 
-    if last_applied_value:
+    if last_applied_value and isinstance(last_applied_value, (list, tuple)):
         last_applied_len = len(last_applied_value)
     else:
         last_applied_len = 0
-- 
2.43.0


From d52197c5ff275436b483fe1982dd341b55edadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 05/22] fix: detect drift in ownerReferences fields outside
 metadata

Only the object's own metadata.ownerReferences are reconciled separately; a field
of that name elsewhere in the target was never compared.
---
 .../resource_function/reconcile/validate.py   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 2c30188..4f9fb7e 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -13,6 +13,7 @@ def validate_match(
     actual,
     last_applied_value=None,
     compare_list_as_set: bool = False,
+    path: tuple[str, ...] = (),
 ) -> ResourceMatch:
     """Compare the specified (`target`) state against the actual (`actual`)
     reosurce state. We compare all target fields and ignore anything extra so
@@ -23,7 +24,7 @@ def validate_match(
     match (target, actual):
         # Objects need a special comparator
         case dict(), dict():
-            return _validate_dict_match(target, actual, last_applied_value)
+            return _validate_dict_match(target, actual, last_applied_value, path)
         case dict(), _:
             return ResourceMatch(
                 match=False,
@@ -42,7 +43,7 @@ def validate_match(
                 # already the compare value.
                 return _validate_set_match(target, actual)
 
-            return _validate_list_match(target, actual, last_applied_value)
+            return _validate_list_match(target, actual, last_applied_value, path)
 
         case (list() | tuple(), _):
             return ResourceMatch(
@@ -126,7 +127,10 @@ def _list_to_object(
 
 
 def _validate_dict_match(
-    target: dict, actual: dict, last_applied_value: dict | None = None
+    target: dict,
+    actual: dict,
+    last_applied_value: dict | None = None,
+    path: tuple[str, ...] = (),
 ) -> ResourceMatch:
     target_keys = set(target.keys()) - KOREO_DIRECTIVE_KEYS
 
@@ -149,10 +153,9 @@ def _validate_dict_match(
         last_applied_value = {}
 
     for target_key in target_keys:
-        # TODO: At some point, this will appear outside metadata and eventually
-        # cause a problem. Perhaps `_extract_last_applied` should instead
-        # mutate the object for compare?
-        if target_key == "ownerReferences":
+        # Owner references are reconciled separately, but only those of the
+        # object itself: elsewhere it is a field like any other.
+        if target_key == "ownerReferences" and path in ((), ("metadata",)):
             continue
 
         # NOTE: I'm not sure this is correct.
@@ -184,6 +187,7 @@ def _validate_dict_match(
                 last_applied_value=_list_to_object(
                     last_applied_value[target_key], map_keys
                 ),
+                path=(*path, target_key),
             )
         else:
             key_match = validate_match(
@@ -191,6 +195,7 @@ def _validate_dict_match(
                 actual=compare_value,
                 last_applied_value=last_applied_value[target_key],
                 compare_list_as_set=(target_key in compare_list_as_set_keys),
+                path=(*path, target_key),
             )
 
         if not key_match.match:
@@ -205,6 +210,7 @@ def _validate_list_match(
     target: list | tuple,
     actual: list | tuple,
     last_applied_value: list | tuple | None = None,
+    path: tuple[str, ...] = (),
 ) -> ResourceMatch:
     if not target and not actual:
         return ResourceMatch(match=True, differences=())
@@ -240,6 +246,7 @@ def _validate_list_match(
             target=target_value,
             actual=actual_value,
             last_applied_value=last_applied_item_value,
+            path=(*path, f"{idx}"),
         )
         if not item_match.match:
             differences = [f"at index '{idx}'"]
-- 
2.43.0


From 58f45d2645f9933f10afc526f10d7576a25de26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 06/22] fix: do not manage a kind through another definition's
 API class

---
 src/koreo/resource_function/prepare.py | 33 ++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index f23b63c..63a307b 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -6,6 +6,7 @@ logger = logging.getLogger("koreo.valuefunction.prepare")
 
 from kr8s._objects import APIObject
 import kr8s
+import kr8s.asyncio.objects
 
 import celpy
 
@@ -221,6 +222,21 @@ def _prepare_api_config(
             # Just needed to set name
             pass
 
+    resource_api = _get_api_class(
+        api_version=api_version, kind=kind, plural=plural, namespaced=namespaced
+    )
+    return (resource_api, resource_id, owned, readonly, delete_if_exists)
+
+
+# API classes created for (apiVersion, kind, plural, namespaced) definitions.
+_API_CLASSES: dict[tuple[str, str, str, bool], type[APIObject]] = {}
+
+
+def _get_api_class(
+    api_version: str, kind: str, plural: str, namespaced: bool
+) -> type[APIObject]:
+    # kr8s ignores the group of a core (`v1`) kind, and may return a class that
+    # was registered for something else. Only its own classes are reliable.
     try:
         resource_api = kr8s.objects.get_class(
             version=api_version,
@@ -228,14 +244,27 @@ def _prepare_api_config(
             _asyncio=True,
         )
     except KeyError:
-        resource_api = kr8s.objects.new_class(
+        resource_api = None
+
+    if (
+        resource_api is not None
+        and resource_api is getattr(kr8s.asyncio.objects, kind, None)
+        and resource_api.version == api_version
+        and resource_api.namespaced == namespaced
+        and plural.lower() in (resource_api.plural, constants.PLURAL_LOOKUP_NEEDED)
+    ):
+        return resource_api
+
+    class_key = (api_version, kind, plural, namespaced)
+    if class_key not in _API_CLASSES:
+        _API_CLASSES[class_key] = kr8s.objects.new_class(
             version=api_version,
             kind=kind,
             plural=plural,
             namespaced=namespaced,
             asyncio=True,
         )
-    return (resource_api, resource_id, owned, readonly, delete_if_exists)
+    return _API_CLASSES[class_key]
 
 
 def _prepare_resource_template(
-- 
2.43.0


From 41bf80dab7d790f4aa0e0bf41aae33d7df24687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 07/22] fix: a patch keeps the live object's owner references

---
 .../resource_function/reconcile/__init__.py   | 38 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index ac137c9..7e95d21 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -355,12 +355,25 @@ async def reconcile_krm_resource(
             )
 
         case structure.UpdatePatch(delay=delay):
+            metadata = converted_resource["metadata"]
+            if "ownerReferences" in metadata:
+                metadata["ownerReferences"] = _merged_owner_refs(
+                    api_resource.raw, metadata["ownerReferences"]
+                )
+
             if should_own and not owner_reffed:
-                owner_refs = _updated_owner_refs(api_resource.raw, owner_ref)
+                owner_refs = _updated_owner_refs(
+                    (
+                        converted_resource
+                        if "ownerReferences" in metadata
+                        else api_resource.raw
+                    ),
+                    owner_ref,
+                )
                 if not is_unwrapped_ok(owner_refs):
                     return ReconcileResult(result=owner_refs, resource_id=resource_id)
 
-                converted_resource["metadata"]["ownerReferences"] = owner_refs
+                metadata["ownerReferences"] = owner_refs
 
             await api_resource.patch(_prepare_for_api(converted_resource))
             return ReconcileResult(
@@ -780,6 +793,27 @@ def _updated_owner_refs(resource_view: dict, owner_ref: dict):
     return updated_owners
 
 
+def _merged_owner_refs(live: dict, target_refs):
+    """The target's references, and every reference already on the live object: a
+    merge patch replaces lists."""
+    live_refs = live.get("metadata", {}).get("ownerReferences") or []
+    if target_refs is None:
+        return live_refs
+
+    if not isinstance(target_refs, (list, tuple)):
+        return target_refs
+
+    live_uids = [ref.get("uid") for ref in live_refs]
+    return [
+        *live_refs,
+        *(
+            ref
+            for ref in target_refs
+            if not isinstance(ref, dict) or ref.get("uid") not in live_uids
+        ),
+    ]
+
+
 def _validate_owner_reffed(resource_view: dict, owner_ref: dict):
     match resource_view:
         case {"metadata": metadata}:
-- 
2.43.0


From ccfd7fa00fcb9c0d1e84ad1c4584602e55e4b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 08/22] fix: last-applied never describes an earlier
 last-applied annotation

---
 .../resource_function/reconcile/__init__.py      | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/__init__.py b/src/koreo/resource_function/reconcile/__init__.py
index 7e95d21..1f09c5e 100644
--- a/src/koreo/resource_function/reconcile/__init__.py
+++ b/src/koreo/resource_function/reconcile/__init__.py
@@ -319,7 +319,7 @@ async def reconcile_krm_resource(
     else:
         owner_reffed = True
 
-    converted_resource = convert_bools(expected_resource)
+    converted_resource = _without_last_applied(convert_bools(expected_resource))
 
     last_applied = _extract_last_applied(api_resource.raw)
 
@@ -876,8 +876,20 @@ def _extract_last_applied(resource: dict) -> dict | None:
         return None
 
 
+def _without_last_applied(obj: dict) -> dict:
+    """Koreo owns this annotation, one copied into a target means nothing."""
+    match obj:
+        case {"metadata": {"annotations": {**annotations}} as metadata} if (
+            LAST_APPLIED_ANNOTATION in annotations
+        ):
+            del annotations[LAST_APPLIED_ANNOTATION]
+            return {**obj, "metadata": {**metadata, "annotations": annotations}}
+
+    return obj
+
+
 def _prepare_for_api(obj: dict) -> dict:
-    prepared = _strip_koreo_directives(obj)
+    prepared = _without_last_applied(_strip_koreo_directives(obj))
 
     dumped = json.dumps(prepared)
 
-- 
2.43.0


From 6e1325a53a8aed1d1e2ca85fb5a72b88512a5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 09/22] fix: an error inside an argument of a custom CEL
 function is not dropped

celpy keeps errors as values within map and list literals. group_ref, to_ref and
config_connect_ready ignored the part of their argument holding one, so a failed
expression produced a wrong value rather than a PermFail.
---
 src/koreo/cel/functions.py | 41 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/koreo/cel/functions.py b/src/koreo/cel/functions.py
index ced8a06..714584b 100644
--- a/src/koreo/cel/functions.py
+++ b/src/koreo/cel/functions.py
@@ -1,4 +1,5 @@
 import copy
+import functools
 import json
 import base64
 
@@ -394,6 +395,41 @@ koreo_function_annotations: dict[str, celpy.Annotation] = {
     "replace": celtypes.FunctionType,
 }
 
+
+def _find_error(value: celtypes.Value) -> celpy.CELEvalError | None:
+    match value:
+        case celpy.CELEvalError():
+            return value
+
+        case dict():
+            for key, subvalue in value.items():
+                if error := _find_error(key) or _find_error(subvalue):
+                    return error
+
+        case list() | tuple():
+            for subvalue in value:
+                if error := _find_error(subvalue):
+                    return error
+
+    return None
+
+
+def _propagate_errors(function: celpy.CELFunction) -> celpy.CELFunction:
+    """celpy passes errors nested within maps and lists along as values. Those
+    must surface, even if the function ignores the part they are within."""
+
+    @functools.wraps(function)
+    def wrapped(*args):
+        for arg in args:
+            error = _find_error(arg)
+            if error is not None:
+                return error
+
+        return function(*args)
+
+    return wrapped
+
+
 koreo_cel_functions: dict[str, celpy.CELFunction] = {
     "to_ref": _to_ref,
     "self_ref": _self_ref,
@@ -415,3 +451,8 @@ koreo_cel_functions: dict[str, celpy.CELFunction] = {
     "b64decode": _b64decode,
     "replace": _replace,
 }
+
+koreo_cel_functions = {
+    name: _propagate_errors(function)
+    for name, function in koreo_cel_functions.items()
+}
-- 
2.43.0


From 053da080d2c9416c2dbd5ec28a17616a3687bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 10/22] fix: forEach and refSwitch accept the values of CEL
 concatenations

celpy's string and list concatenation returns native str and list values, so
switchOn: ='a' + inputs.b and itemIn: =inputs.a + inputs.b failed their steps.
---
 src/koreo/workflow/reconcile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index 70513b2..baaafec 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -437,8 +437,9 @@ async def _reconcile_ref_switch(
     ):
         case result.PermFail() as err:
             return StepResult(result=err)
-        case (celtypes.StringType() | celtypes.IntType()) as switch_value:
-            # Just needed to extract the `switch_on` value
+        case (celtypes.StringType() | str() | celtypes.IntType()) as switch_value:
+            # Just needed to extract the `switch_on` value; celpy's
+            # concatenation gives a native string.
             pass
         case bad_type:
             return StepResult(
@@ -562,7 +563,8 @@ async def _for_each_reconciler(
         case result.PermFail() as failure:
             return StepResult(result=failure)
 
-        case celtypes.ListType() as source_iterator:
+        # celpy's concatenation gives a native list.
+        case (celtypes.ListType() | list()) as source_iterator:
             # Without this, if the source_iterator is empty the task-group
             # raises an exception at context-manager exit.
             if not source_iterator:
-- 
2.43.0


From 002b8609fb8a2120a1964f22ff83a42249b6e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 11/22] fix: conditions of timed-out and crashed workflow steps
 claimed readiness

The step's StepResult, not its outcome, was handed to the condition
helper, which takes anything it does not know for a success.
---
 src/koreo/workflow/reconcile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/koreo/workflow/reconcile.py b/src/koreo/workflow/reconcile.py
index baaafec..5731bdd 100644
--- a/src/koreo/workflow/reconcile.py
+++ b/src/koreo/workflow/reconcile.py
@@ -164,7 +164,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=timeout_outcome,
+                    outcome=timeout_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
@@ -182,7 +182,7 @@ async def _reconcile_steps(
                 _condition_helper(
                     condition_type="Ready",
                     thing_name=f"Workflow {workflow_key}",
-                    outcome=error_outcome,
+                    outcome=error_outcome.result,
                     workflow_key=workflow_key,
                 )
             )
-- 
2.43.0


From 59dd8f6d9242fe99f560af7645e71e4cae39a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 12/22] fix: literal strings and keys reach CEL exactly as
 written

Backslashes, quotes in keys and quotes or escapes next to newlines were not
(or wrongly) escaped, and strings that int() or float() accept without being
decimal numerals (inf, nan, 1_000, ' 12 ', +5, non-ASCII digits) were spliced
into the expression bare.
---
 src/koreo/cel/encoder.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/koreo/cel/encoder.py b/src/koreo/cel/encoder.py
index 98d9727..12a457e 100644
--- a/src/koreo/cel/encoder.py
+++ b/src/koreo/cel/encoder.py
@@ -1,5 +1,6 @@
 from typing import Any
 import base64
+import re
 
 from celpy import celtypes
 
@@ -58,7 +59,7 @@ def convert_bools(
 def encode_cel(value: Any) -> str:
     if isinstance(value, dict):
         return f"{{{ ",".join(
-            f'"{f"{key}".replace('"', '\"')}":{encode_cel(value)}'
+            f"{_encode_str(f"{key}")}:{encode_cel(value)}"
             for key, value in value.items()
         ) }}}"
 
@@ -78,31 +79,26 @@ def encode_cel(value: Any) -> str:
         return '""'
 
     if not value.startswith(CEL_PREFIX):
-        if "\n" in value:
-            return f'r"""{ value.replace('"', '\"') }"""'  # fmt: skip
+        return _encode_str(value)
 
-        if '"' in value:
-            return f'"""{ value.replace('"', r'\"') }"""'  # fmt: skip
+    return value.lstrip(CEL_PREFIX)
 
-        return f'"{value}"'  # fmt: skip
 
-    return value.lstrip(CEL_PREFIX)
+def _encode_str(value: str) -> str:
+    encoded = value.replace("\\", r"\\").replace('"', r"\"").replace("\n", r"\n")
 
+    if '"' in value:
+        return f'"""{encoded}"""'
 
-def _encode_plain(maybe_number) -> bool:
-    if not isinstance(maybe_number, str):
-        return True
+    return f'"{encoded}"'
+
+
+# Digits with an optional leading minus, fraction, and exponent.
+_NUMERAL = re.compile(r"-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?")
 
-    try:
-        int(maybe_number)
-        return True
-    except ValueError:
-        pass
 
-    try:
-        float(maybe_number)
+def _encode_plain(maybe_number) -> bool:
+    if not isinstance(maybe_number, str):
         return True
-    except ValueError:
-        pass
 
-    return False
+    return bool(_NUMERAL.fullmatch(maybe_number))
-- 
2.43.0


From 6dd58de57fc702a64d21bd8a01bce5eb7237a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 13/22] fix: notifying tolerates subscribers whose queue was
 shut down

---
 src/koreo/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/koreo/registry.py b/src/koreo/registry.py
index 1c4f2f8..c703a3b 100644
--- a/src/koreo/registry.py
+++ b/src/koreo/registry.py
@@ -102,6 +102,9 @@ def notify_subscribers(notifier: Resource, event_time: float):
             subscriber.put_nowait(
                 ResourceEvent(resource=notifier, event_time=event_time)
             )
+        except asyncio.QueueShutDown:
+            # Killed, but not (yet) deregistered.
+            continue
         except asyncio.QueueFull:
             pass
             # TODO: I think there is a way to monitor for stalled subscribers
-- 
2.43.0


From 5319f2cfe5d3bc38b2252ab78f9de04cadeef4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 14/22] fix: a deleted and re-offered resource keeps its
 watcher

---
 src/koreo/cache.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index cb99871..8f11311 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -135,8 +135,9 @@ async def delete_from_cache(
     registry.deregister(deregisterer=resource, deregistered_at=deleted_at)
 
     # This shouldn't happen, just an extra check
-    if resource in _REPREPARE_TASKS:
-        _REPREPARE_TASKS[resource].cancel()
+    reprepare_task = _REPREPARE_TASKS.pop(resource, None)
+    if reprepare_task:
+        reprepare_task.cancel()
 
     match queue:
         case None:
@@ -271,8 +272,14 @@ _REPREPARE_TASKS: dict[registry.Resource, asyncio.Task] = {}
 
 def _deletor(resource):
     def do_delete(task: asyncio.Task):
-        del _REPREPARE_TASKS[resource]
-        registry.deregister(resource, time.monotonic())
+        # If the resource was deleted, it may have been offered again and have a
+        # new task (and subscriptions).
+        if _REPREPARE_TASKS.get(resource) is task:
+            del _REPREPARE_TASKS[resource]
+            registry.deregister(resource, time.monotonic())
+
+        if task.cancelled():
+            return
 
         task_exception = task.exception()
         if task_exception:
-- 
2.43.0


From e628c09a06058b5567fb9a57dd30e081486da83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 15/22] fix: a re-prepare in flight does not undo a newer offer
 or a delete

---
 src/koreo/cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 8f11311..9a27003 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -250,6 +250,10 @@ async def _reprepare_and_update_cache(
         prepared_resource = preparer_outcome
         subscriptions = None
 
+    if __CACHE.get(resource_key) is not cached:
+        # Deleted or offered again in the meantime, do not undo that.
+        return
+
     __CACHE[resource_key] = cached._replace(
         resource=prepared_resource, prepared_at=prepare_started_at
     )
-- 
2.43.0


From e35fcd6ddfe66a78ba8188234286f59ab7a442e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 16/22] fix: changes during a preparation reach the newly
 prepared dependent

---
 src/koreo/cache.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/koreo/cache.py b/src/koreo/cache.py
index 9a27003..a892d09 100644
--- a/src/koreo/cache.py
+++ b/src/koreo/cache.py
@@ -128,6 +128,7 @@ async def delete_from_cache(
         return None
 
     deleted_at = time.monotonic()
+    _CHANGE_TIMES[resource_key] = deleted_at
     del __CACHE[resource_key]
 
     resource = registry.Resource(resource_type=resource_class, name=cache_key)
@@ -155,6 +156,7 @@ async def delete_from_cache(
 
 
 _PREPARE_TIMES: dict[registry.Resource, float] = {}
+_CHANGE_TIMES: dict[registry.Resource, float] = {}
 
 
 async def _handle_notifications(
@@ -166,6 +168,7 @@ async def _handle_notifications(
 ):
     # We need to track the earliest possible time of prepare.
     _PREPARE_TIMES[resource] = prepare_started_at
+    _CHANGE_TIMES[resource] = prepare_finished_at
 
     if not subscriptions:
         subscriptions = []
@@ -188,6 +191,15 @@ async def _handle_notifications(
         _REPREPARE_TASKS[resource] = resource_task
         resource_task.add_done_callback(_deletor(resource))
 
+    # Changes that happened while preparing, before this was subscribed to them.
+    for changed in subscriptions:
+        changed_at = _CHANGE_TIMES.get(changed)
+        if changed_at is not None and changed_at > prepare_started_at:
+            registry.register(registerer=resource).put_nowait(
+                registry.ResourceEvent(resource=changed, event_time=changed_at)
+            )
+            break
+
 
 async def _monitor_and_reprepare(
     resource: registry.Resource[T],
-- 
2.43.0


From ecd07f5bee079479eb020c47696ecf331de0d2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 17/22] fix: find references in every expression shape, and
 exactly by name

---
 src/koreo/cel/structure_extractor.py | 168 ++++++++++-----------------
 src/koreo/workflow/prepare.py        |  97 +++++-----------
 2 files changed, 88 insertions(+), 177 deletions(-)

diff --git a/src/koreo/cel/structure_extractor.py b/src/koreo/cel/structure_extractor.py
index 3a8d394..b3e5d89 100644
--- a/src/koreo/cel/structure_extractor.py
+++ b/src/koreo/cel/structure_extractor.py
@@ -1,132 +1,84 @@
+from celpy.evaluation import celstr
 from lark import Tree, Token
 
+_STRING_LITERALS = ("STRING_LIT", "MLSTRING_LIT")
 
-def extract_argument_structure(compiled: Tree) -> set[str]:
-    var_map: set[str] = set()
-    for thing in compiled.iter_subtrees():
-        if thing.data == "member_dot":
-            member_dot: str = _process_member_dot(thing)
-            var_map.add(member_dot)
-
-        if thing.data == "member_index":
-            member_index: str = _process_member_index(thing)
-            var_map.add(member_index)
-
-    return var_map
-
-
-def _process_member_dot(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
 
-    if root.data == "primary":
-        return f"{_process_primary(root)}.{terminal}"
-
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT ROOT TYPE! {root}")
-
-
-def _process_member_dot_arg(tree: Tree):
-    if len(tree.children) != 3:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_DOT_ARG LENGTH! {len(tree.children)}: {tree}")
-
-    # print(f"{len(tree.children)}: {tree.children[0]}")
-
-    terminal = f"{tree.children[1]}"
-
-    root: Tree = tree.children[0].children[0]
-
-    if root.data == "member_dot":
-        return f"{_process_member_dot(root)}.{terminal}"
-
-    if root.data == "member_index":
-        return f"{_process_member_index(root)}.{terminal}"
-
-    if root.data == "member_dot_arg":
-        return f"{_process_member_dot_arg(root)}.{terminal}"
-
-    if root.data == "primary" or root.data == "ident":
-        return f"{_process_primary(root)}.{terminal}"
+def extract_argument_structure(compiled: Tree) -> set[str]:
+    return {".".join(path) for path in extract_argument_paths(compiled)}
 
-    # TODO: Is this possible?
-    raise Exception(f"UNKNOWN MEMBER_DOT_ARG ROOT TYPE! {root}")
 
+def extract_argument_paths(compiled: Tree) -> set[tuple[str, ...]]:
+    """Every statically named access (`a.b`, `a['b']`) as its names."""
+    paths: set[tuple[str, ...]] = set()
+    for thing in compiled.iter_subtrees():
+        if thing.data not in ("member_dot", "member_index"):
+            continue
 
-def _process_member_index(tree: Tree):
-    if len(tree.children) != 2:
-        # TODO: Not sure this is possible?
-        raise Exception(f"UNKNOWN MEMBER_INDEX LENGTH! {len(tree.children)}: {tree}")
+        path = _access_path(thing)
+        if path:
+            paths.add(path)
 
-    # print(f"{len(tree.children)}: {tree.children[0]}")
+    return paths
 
-    terminal: Tree = tree.children[1]
 
-    if terminal.data == "primary":
-        terminal_value: str = _process_primary(terminal)
+def _access_path(tree: Tree) -> tuple[str, ...] | None:
+    """The names accessed, or None if it is not rooted at a variable."""
+    names: list[str] = []
+    while True:
+        match tree.data:
+            case "member_dot" | "member_dot_arg":
+                names.append(f"{tree.children[1]}")
 
-    elif terminal.data == "expr":
-        terminal_value = None
-        while terminal and terminal.children:
-            if terminal.data == "primary":
-                terminal_value = _process_primary(terminal)
-                break
+            case "member_index":
+                name = _index_name(tree.children[1])
+                if name is None:
+                    # Computed, so what is accessed further down is unknown.
+                    names.clear()
+                else:
+                    names.append(name)
 
-            terminal: Tree = terminal.children[0]
+            case "ident" | "dot_ident":
+                names.append(f"{tree.children[0]}")
+                return tuple(reversed(names))
 
-        if not terminal_value:
-            raise Exception(f"CAN NOT PROCESS MEMBER_INDEX terminal expr: {terminal}")
+            case _ if len(tree.children) != 1 or not _is_wrapper(tree):
+                return None
 
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX terminal TYPE: {terminal}")
+        tree = tree.children[0]
 
-    root: Tree = tree.children[0].children[0]
 
-    if root.data == "member_dot":
-        root_value = _process_member_dot(root)
-    elif root.data == "member_index":
-        root_value = _process_member_index(root)
-    elif root.data == "member_dot_arg":
-        root_value = _process_member_dot_arg(root)
-    elif root.data == "primary":
-        root_value: str = _process_primary(root)
-    else:
-        raise Exception(f"UNKNOWN MEMBER_INDEX root TYPE: {root}")
+def _is_wrapper(tree: Tree) -> bool:
+    return isinstance(tree.children[0], Tree) and tree.data not in (
+        "dot_ident_arg",
+        "ident_arg",
+        "list_lit",
+        "map_lit",
+        "member_object",
+    )
 
-    return f"{root_value}.{terminal_value}"
 
+def _index_name(tree: Tree) -> str | None:
+    while True:
+        match tree.data:
+            case "literal":
+                return _literal_name(tree.children[0])
 
-def _process_primary(tree: Tree) -> str:
-    if len(tree.children) != 1:
-        raise Exception(f"UNKNOWN PRIMARY LENGTH! {len(tree.children)}: {tree}")
+            case "ident":
+                return f"{tree.children[0]}"
 
-    primary: Tree = tree.children[0]
+            case _ if len(tree.children) != 1 or not _is_wrapper(tree):
+                return None
 
-    # print(f"{len(tree.children)}: {primary}")
+        tree = tree.children[0]
 
-    if primary.data == "ident":
-        return f"{primary.children[0]}"
 
-    if primary.data == "literal":
-        literal: Token = primary.children[0]
-        if literal.type == "INT_LIT":
-            return literal.value
-        return literal.strip(literal[0])
+def _literal_name(literal: Token) -> str | None:
+    if literal.type not in _STRING_LITERALS:
+        return literal.value
 
-    raise Exception(f"UNKNOWN PRIMARY DATA TYPE! {primary}")
+    try:
+        return f"{celstr(literal)}"
+    except ValueError:
+        # An escape that is not a character.
+        return None
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index 6a3ccbe..cda0006 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -1,6 +1,5 @@
 from typing import Sequence
 import logging
-import re
 
 import celpy
 
@@ -9,7 +8,10 @@ from koreo import schema
 from koreo.cache import get_resource_from_cache
 from koreo.cel.functions import koreo_function_annotations
 from koreo.cel.prepare import prepare_expression, prepare_map_expression
-from koreo.cel.structure_extractor import extract_argument_structure
+from koreo.cel.structure_extractor import (
+    extract_argument_paths,
+    extract_argument_structure,
+)
 from koreo.resource_function.structure import ResourceFunction
 from koreo.result import (
     Ok,
@@ -99,8 +101,14 @@ def _build_crd_ref(crd_ref_spec: dict) -> structure.ConfigCRDRef | None:
     return structure.ConfigCRDRef(api_group=api_group, version=version, kind=kind)
 
 
-PARENT_NAME_PATTERN = re.compile(r"parent.(?P<name>.*)")
-STEPS_NAME_PATTERN = re.compile(r"steps.(?P<name>[^.[]+)?\[?.*")
+def _parent_properties(paths: set[tuple[str, ...]]) -> set[str]:
+    return {
+        ".".join(path[1:]) for path in paths if path[0] == "parent" and len(path) > 1
+    }
+
+
+def _step_labels(paths: set[tuple[str, ...]]) -> set[str]:
+    return {path[1] for path in paths if path[0] == "steps" and len(path) > 1}
 
 
 LogicRegistryResource = registry.Resource[
@@ -202,19 +210,10 @@ def _load_step(
             cel_env=cel_env, logic_switch=logic_ref_switch, location=step_location
         )
         if is_unwrapped_ok(logic):
-            arg_structure = extract_argument_structure(logic.switch_on.ast)
+            arg_structure = extract_argument_paths(logic.switch_on.ast)
 
-            needed_parent_properties.update(
-                match.group("name")
-                for match in (PARENT_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
-
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_parent_properties.update(_parent_properties(arg_structure))
+            needed_steps.update(_step_labels(arg_structure))
 
     if step_label == "<missing label>":
         # Note, this should be impossible due to schema validation.
@@ -269,19 +268,10 @@ def _load_step(
         case None:
             skip_if = None
         case celpy.Runner() as skip_if:
-            arg_structure = extract_argument_structure(skip_if.ast)
+            arg_structure = extract_argument_paths(skip_if.ast)
 
-            needed_parent_properties.update(
-                match.group("name")
-                for match in (PARENT_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
-
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_parent_properties.update(_parent_properties(arg_structure))
+            needed_steps.update(_step_labels(arg_structure))
 
     for_each_spec = step_spec.get("forEach")
     match _prepare_for_each(cel_env=cel_env, step_label=step_label, spec=for_each_spec):
@@ -290,21 +280,8 @@ def _load_step(
         case None:
             for_each = None
         case (structure.ForEach() as for_each, for_each_input_keys):
-            needed_parent_properties.update(
-                match.group("name")
-                for match in (
-                    PARENT_NAME_PATTERN.match(key) for key in for_each_input_keys
-                )
-                if match
-            )
-
-            needed_steps.update(
-                match.group("name")
-                for match in (
-                    STEPS_NAME_PATTERN.match(key) for key in for_each_input_keys
-                )
-                if match
-            )
+            needed_parent_properties.update(_parent_properties(for_each_input_keys))
+            needed_steps.update(_step_labels(for_each_input_keys))
 
     input_mapper_spec = step_spec.get("inputs")
     match prepare_map_expression(
@@ -323,19 +300,10 @@ def _load_step(
         case None:
             input_mapper = None
         case celpy.Runner() as input_mapper:
-            arg_structure = extract_argument_structure(input_mapper.ast)
-
-            needed_parent_properties.update(
-                match.group("name")
-                for match in (PARENT_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            arg_structure = extract_argument_paths(input_mapper.ast)
 
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_parent_properties.update(_parent_properties(arg_structure))
+            needed_steps.update(_step_labels(arg_structure))
 
     condition_spec = step_spec.get("condition")
     if not condition_spec:
@@ -353,19 +321,10 @@ def _load_step(
         case None:
             state = None
         case celpy.Runner() as state:
-            arg_structure = extract_argument_structure(state.ast)
+            arg_structure = extract_argument_paths(state.ast)
 
-            needed_parent_properties.update(
-                match.group("name")
-                for match in (PARENT_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
-
-            needed_steps.update(
-                match.group("name")
-                for match in (STEPS_NAME_PATTERN.match(key) for key in arg_structure)
-                if match
-            )
+            needed_parent_properties.update(_parent_properties(arg_structure))
+            needed_steps.update(_step_labels(arg_structure))
         case PermFail() as failure:
             return (
                 resources,
@@ -412,7 +371,7 @@ def _prepare_for_each(
     cel_env: celpy.Environment,
     step_label: str,
     spec: dict | None,
-) -> None | structure.ErrorStep | tuple[structure.ForEach, set[str]]:
+) -> None | structure.ErrorStep | tuple[structure.ForEach, set[tuple[str, ...]]]:
     if not spec:
         return None
 
@@ -439,7 +398,7 @@ def _prepare_for_each(
                 condition=None,
             )
         case celpy.Runner() as source_iterator:
-            dynamic_input_keys = extract_argument_structure(source_iterator.ast)
+            dynamic_input_keys = extract_argument_paths(source_iterator.ast)
 
     input_key = spec.get("inputKey")
     if not input_key:
-- 
2.43.0


From 18c5e76ae762ba50637f8882e31506e5dd57e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 18/22] fix: watch everything a definition names, also when
 part of it is broken

---
 src/koreo/resource_function/prepare.py | 10 +++---
 src/koreo/workflow/prepare.py          | 48 +++++++++++++-------------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 63a307b..728fb29 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -331,6 +331,12 @@ def _prepare_overlays(
     for idx, overlay_spec in enumerate(spec):
         skip_if_spec = overlay_spec.pop("skipIf", None)
 
+        match overlay_spec:
+            case {"overlayRef": {"name": overlay_name}}:
+                used_value_functions.add(
+                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
+                )
+
         match prepare_expression(
             cel_env=cel_env,
             spec=skip_if_spec,
@@ -381,10 +387,6 @@ def _prepare_overlays(
                         )
 
             case {"overlayRef": {"name": overlay_name}, **extras}:
-                used_value_functions.add(
-                    registry.Resource(resource_type=ValueFunction, name=overlay_name)
-                )
-
                 inputs_spec = extras.pop("inputs", None)
                 if extras:
                     extra_keys = ", ".join(f"{key}" for key in extras.keys())
diff --git a/src/koreo/workflow/prepare.py b/src/koreo/workflow/prepare.py
index cda0006..5b85373 100644
--- a/src/koreo/workflow/prepare.py
+++ b/src/koreo/workflow/prepare.py
@@ -136,20 +136,17 @@ def _load_steps(
     step_outcomes: list[structure.Step | structure.ErrorStep] = []
     for step_spec in steps_spec:
         step_label: str = step_spec.get("label", "<missing label>")
-        if step_label in known_steps:
-            step_outcomes.append(
-                structure.ErrorStep(
-                    label=step_label,
-                    outcome=PermFail(
-                        message=f"Duplicate step-label ({step_label}) can not prepare Workflow."
-                    ),
-                    condition=None,
-                )
-            )
-            continue
         step_resources, step_logic, needed_parent_properties = _load_step(
             cel_env, step_spec, known_steps
         )
+        if step_label in known_steps:
+            step_logic = structure.ErrorStep(
+                label=step_label,
+                outcome=PermFail(
+                    message=f"Duplicate step-label ({step_label}) can not prepare Workflow."
+                ),
+                condition=None,
+            )
         known_steps.add(step_label)
         parent_properties.update(needed_parent_properties)
         step_outcomes.append(step_logic)
@@ -511,19 +508,30 @@ def _load_logic_switch(
 ) -> tuple[set[LogicRegistryResource] | None, PermFail | Retry | structure.LogicSwitch]:
     dynamic_input_keys: set[str] = set()
 
+    # Every case is loaded first, so that all of them are watched.
+    cases_spec = logic_switch.get("cases") or []
+    resources = set[LogicRegistryResource]()
+    case_logic = []
+    for idx, case_spec in enumerate(cases_spec):
+        logic_resources, logic = _load_logic(
+            logic_ref=case_spec, location=f"{location}[{idx}]"
+        )
+        case_logic.append(logic)
+        if logic_resources:
+            resources.update(logic_resources)
+
     switch_on_spec = logic_switch.get("switchOn")
     match prepare_expression(cel_env=cel_env, spec=switch_on_spec, location=location):
         case None:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Missing `{location}.switchOn`, can not prepare Workflow.",
                 location=f"{location}.switchOn",
             )
         case PermFail() as err:
-            return None, err
+            return resources, err
         case celpy.Runner() as switch_on:
             dynamic_input_keys.update(extract_argument_structure(switch_on.ast))
 
-    cases_spec = logic_switch.get("cases")
     if not cases_spec:
         return None, PermFail(
             message=f"Must specify at least one case in `{location}.cases`, can not prepare Workflow.",
@@ -532,20 +540,15 @@ def _load_logic_switch(
 
     default_logic = None
     logic_map = {}
-    resources = set[LogicRegistryResource]()
-    for idx, case_spec in enumerate(cases_spec):
+    for idx, (case_spec, logic) in enumerate(zip(cases_spec, case_logic)):
         case = case_spec.get("case")
         is_default = case_spec.get("default")
         if is_default and default_logic:
-            return None, PermFail(
+            return resources, PermFail(
                 message=f"Only one case in `{location}.cases` may be default, can not prepare Workflow.",
                 location=f"{location}.cases[{idx}].default",
             )
 
-        logic_resources, logic = _load_logic(
-            logic_ref=case_spec, location=f"{location}[{idx}]"
-        )
-
         logic_map[case] = logic
 
         if is_unwrapped_ok(logic):
@@ -559,9 +562,6 @@ def _load_logic_switch(
         if is_default:
             default_logic = logic
 
-        if logic_resources:
-            resources.update(logic_resources)
-
     functions_ready = unwrapped_combine(logic_map.values())
     if is_error(functions_ready):
         return resources, functions_ready
-- 
2.43.0


From 3a96fe64b60f36fa5985be6d18f2d4eb52d21e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 19/22] fix: distinct keys of map-directed lists never collide

---
 src/koreo/resource_function/reconcile/validate.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/koreo/resource_function/reconcile/validate.py b/src/koreo/resource_function/reconcile/validate.py
index 4f9fb7e..7ee5f59 100644
--- a/src/koreo/resource_function/reconcile/validate.py
+++ b/src/koreo/resource_function/reconcile/validate.py
@@ -98,8 +98,17 @@ def validate_match(
         )
 
 
-def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> str:
-    return "$".join(f"{obj.get(field)}".strip() for field in fields)
+def _obj_to_key(obj: dict, fields: Sequence[int | str]) -> tuple:
+    # Distinct field values must never give the same key.
+    return tuple(_key_part(obj.get(field)) for field in fields)
+
+
+def _key_part(value) -> tuple:
+    if isinstance(value, (dict, list, tuple)):
+        return ("nested", f"{value}")
+
+    # Python considers `True == 1` and `False == 0`, JSON does not.
+    return ("bool" if isinstance(value, bool) else "simple", value)
 
 
 def _is_list_of_objects(target, actual) -> bool:
@@ -117,7 +126,7 @@ def _is_list_of_objects(target, actual) -> bool:
 
 def _list_to_object(
     obj_list: Sequence[dict] | None, key_fields: Sequence[int | str]
-) -> dict[str, dict] | None:
+) -> dict[tuple, dict] | None:
     if not obj_list or not isinstance(obj_list, (list, tuple)):
         return None
 
-- 
2.43.0


From 8c66bdab701763f7e591ed3f892f84d8f441cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 20/22] fix: malformed kinds and unrepresentable template
 values are PermFails, not crashes

---
 src/koreo/resource_function/prepare.py | 16 +++++++++++++---
 src/koreo/resource_template/prepare.py | 11 +++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/koreo/resource_function/prepare.py b/src/koreo/resource_function/prepare.py
index 728fb29..661af91 100644
--- a/src/koreo/resource_function/prepare.py
+++ b/src/koreo/resource_function/prepare.py
@@ -222,9 +222,14 @@ def _prepare_api_config(
             # Just needed to set name
             pass
 
-    resource_api = _get_api_class(
-        api_version=api_version, kind=kind, plural=plural, namespaced=namespaced
-    )
+    try:
+        resource_api = _get_api_class(
+            api_version=api_version, kind=kind, plural=plural, namespaced=namespaced
+        )
+    except ValueError as err:
+        return PermFail(
+            message=f"Invalid `apiVersion` or `kind` in `spec.apiConfig`: {err}"
+        )
     return (resource_api, resource_id, owned, readonly, delete_if_exists)
 
 
@@ -235,6 +240,11 @@ _API_CLASSES: dict[tuple[str, str, str, bool], type[APIObject]] = {}
 def _get_api_class(
     api_version: str, kind: str, plural: str, namespaced: bool
 ) -> type[APIObject]:
+    # kr8s would read these as a different kind or version, and a class with such
+    # a version breaks each later lookup.
+    if api_version.count("/") > 1 or "." in kind or "/" in kind:
+        raise ValueError(f"'{api_version}' '{kind}' does not name an API kind")
+
     # kr8s ignores the group of a core (`v1`) kind, and may return a class that
     # was registered for something else. Only its own classes are reliable.
     try:
diff --git a/src/koreo/resource_template/prepare.py b/src/koreo/resource_template/prepare.py
index 35936e3..4c423c4 100644
--- a/src/koreo/resource_template/prepare.py
+++ b/src/koreo/resource_template/prepare.py
@@ -25,7 +25,15 @@ async def prepare_resource_template(
         )
 
     template_spec = spec.get("template", {})
-    template = celpy.json_to_cel(template_spec)
+    try:
+        template = celpy.json_to_cel(template_spec)
+        context = celpy.json_to_cel(spec.get("context", {}))
+    except ValueError as err:
+        return PermFail(
+            message=f"ResourceTemplate '{cache_key}' has a value CEL can not represent: {err}",
+            location=f"prepare:ResourceTemplate:{cache_key}",
+        )
+
     if not template_spec:
         return PermFail(
             message=f"Missing `spec.template` for ResourceTemplate '{cache_key}'.",
@@ -49,7 +57,6 @@ async def prepare_resource_template(
             location=f"prepare:ResourceTemplate:{cache_key}",
         )
 
-    context = celpy.json_to_cel(spec.get("context", {}))
     if not isinstance(context, celtypes.MapType):
         return PermFail(
             message=f"ResourceTemplate '{cache_key}' `spec.context` ('{context}') must be an object.",
-- 
2.43.0


From 483919448944f29397887f5d82e2ec780aa166d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 21/22] fix: a whole-float retry delay is a delay, not a crash

---
 src/koreo/predicate_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/koreo/predicate_helpers.py b/src/koreo/predicate_helpers.py
index 784435b..37fb63e 100644
--- a/src/koreo/predicate_helpers.py
+++ b/src/koreo/predicate_helpers.py
@@ -57,7 +57,7 @@ def predicate_to_koreo_result(
             case {"assert": _, "retry": {"message": message, "delay": delay}}:
                 return result.Retry(
                     message=f"{message}",
-                    delay=int(f"{delay}"),
+                    delay=int(delay),
                     location=location,
                 )
 
-- 
2.43.0


From 2ffb5a231ab41a3c048e0a88506c9b90585caa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 22/22] fix: reporting an evaluation error does not crash on
 message literals

---
 src/koreo/cel/evaluation.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/koreo/cel/evaluation.py b/src/koreo/cel/evaluation.py
index c9b4cee..60947e3 100644
--- a/src/koreo/cel/evaluation.py
+++ b/src/koreo/cel/evaluation.py
@@ -28,7 +28,7 @@ def evaluate(
         return expression_value
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _error_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -61,7 +61,7 @@ def evaluate_predicates(
         return predicate_to_koreo_result(raw_result, location=location)
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _error_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -96,7 +96,7 @@ def evaluate_overlay(
             )
 
     except celpy.CELEvalError as err:
-        tree = tree_dump(err.tree) if err and err.tree else ""
+        tree = _error_tree(err)
         return PermFail(
             message=f"Error evaluating `{location}` (at {tree}) {err.args}",
             location=tree,
@@ -136,12 +136,23 @@ def _overlay_applier(
     return overlaid
 
 
+def _error_tree(err: celpy.CELEvalError) -> str:
+    if not err.tree:
+        return ""
+
+    try:
+        return tree_dump(err.tree)
+    except Exception:
+        # celpy can not dump every tree, such as message construction (`T{}`).
+        return ""
+
+
 def check_for_celevalerror(
     value: celtypes.Value | celpy.CELEvalError, location: str | None
 ) -> None | PermFail:
     match value:
-        case celpy.CELEvalError(tree=error_tree):
-            tree = tree_dump(error_tree) if error_tree else ""
+        case celpy.CELEvalError():
+            tree = _error_tree(value)
             return PermFail(
                 message=f"Error evaluating `{location}` (at {tree}) {value.args}",
                 location=tree,
-- 
2.43.0


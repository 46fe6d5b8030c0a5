From 144a76da20c56e10124191d859e6b949ce96bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 01/66] fix: find calls by content in the database, not only in
 the cache

The cached call storage asked the database for a reference with the call's
content id instead of a call with it, so after a cache clear or in a new
session calls with equal contents but other histories were executed again.
---
 mandala/storage_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 95f0723..6d2c75e 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -640,7 +640,7 @@ class SQLiteCallStorage:
         )
         rows = cursor.fetchall()
         hid = rows[0][0]
-        return self.get_data(hid, conn)
+        return self.get_data(hid, conn=conn)
 
     ### provenance queries
     @transaction
@@ -738,7 +738,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return True
         else:
-            res = self.persistent.exists_ref_hid(cid)
+            res = self.persistent.exists_content(cid)
             return res
 
     def get_data(
@@ -755,7 +755,7 @@ class CachedCallStorage:
         if self.cache.exists_content(cid):
             return self.cache.get_data_content(cid)
         else:
-            return self.persistent.get_data_content(cid, conn)
+            return self.persistent.get_data_content(cid)
 
     def get_creator_hids(self, hids: Iterable[str]) -> Set[str]:
         raise NotImplementedError()
-- 
2.43.0


From 06cd11ee43c3d9481cf7c5f9f4ba8755a7299b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 02/66] fix: load the elements of list references when loading
 the list

load_ref() built the list of loaded elements and then attached the stored
shape instead, so nested lists could not be read back in a later session.
---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a3727cc..35294ff 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -283,7 +283,7 @@ class Storage:
             obj = []
             for i, elt in enumerate(shape):
                 obj.append(self.load_ref(elt.hid, in_memory=in_memory))
-            return shape.attached(obj=shape.obj)
+            return shape.attached(obj=obj)
         elif isinstance(shape, DictRef):
             obj = {}
             for k, v in shape.items():
-- 
2.43.0


From f2d76b50563a19e28832fe89f6f664f5c1196c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 03/66] fix: give elements of collections their own history
 when a call is found by content

A call found through its content id kept the element histories of the other
call in its input and output collections, and the calls linking the output
collections to their elements were not recorded.
---
 mandala/storage.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 35294ff..47f88ee 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -674,6 +674,10 @@ class Storage:
             logger.debug(f"Found call to {op.name} with hid {call_hid}.")
             return self._get_call_from_data(call_data, in_memory=True)
         ### if this fails, look up by content ID, and apply the correct history IDs
+        if op.__structural__:
+            # the elements of a collection have histories of their own, which a
+            # call with the same contents doesn't have; just construct it anew
+            return None
         call_cid = op.get_call_content_id(
             inputs=inputs, semantic_version=semantic_version
         )
@@ -688,8 +692,7 @@ class Storage:
             output_history_ids = op.get_output_history_ids(call_history_id=call_hid, output_names=list(op.get_ordered_outputs(output_dict=output_names_identity)))
             for k, v in call_prototype.outputs.items():
                 v.hid = output_history_ids[k]
-            for k, v in call_prototype.inputs.items():
-                v.hid = inputs[k].hid
+            call_prototype.inputs = {k: inputs[k] for k in call_prototype.inputs}
             return call_prototype
         logger.debug(f"Could not find a call to {op.name} with hid {call_hid} or cid {call_cid}.")
         return None
@@ -823,7 +826,18 @@ class Storage:
             call_hid = call_option.hid
             if not op.__structural__: logger.debug(f"Call to {op.name} with hid {call_hid} already exists.")
             main_call = call_option
-            return main_call.outputs, main_call, input_calls
+            output_calls = []
+            if not op.__structural__ and not self.calls.exists(call_hid):
+                # found by content only: the elements of output collections need
+                # to be given the histories they have as part of this call
+                _, annotations = parse_returns(
+                    sig=inspect.signature(op.f), returns=op.get_ordered_outputs(main_call.outputs),
+                    nout=op.nout, output_names=op.output_names,
+                )
+                for k, v in main_call.outputs.items():
+                    main_call.outputs[k], destr_calls = self.destruct(v, tp=Type.from_annotation(annotations[k]))
+                    output_calls.extend(destr_calls)
+            return main_call.outputs, main_call, input_calls + output_calls
         
         if not self._allow_new_calls:
             # caller should decide how to handle this
-- 
2.43.0


From dc2122090955fefa161cb4fbd21f52256d1d10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 04/66] fix: do not keep using the old call cache after
 clear_cache()

Clearing the cache replaces the in-memory call storage, but dropping,
preloading and reading calls went on using the one created at the start.
---
 mandala/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 47f88ee..23dbc29 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -43,7 +43,6 @@ class Storage:
 
         self.call_storage = SQLiteCallStorage(db=self.db, table_name="calls")
         self.calls = CachedCallStorage(persistent=self.call_storage)
-        self.call_cache = self.calls.cache
 
         self.overflow_dir = overflow_dir
         self.overflow_threshold_MB = overflow_threshold_MB
@@ -145,6 +144,11 @@ class Storage:
             "track_globals": self._track_globals,
         }
     
+    @property
+    def call_cache(self) -> InMemCallStorage:
+        # clearing the cache replaces this object, so it must not be kept around
+        return self.calls.cache
+
     def conn(self) -> sqlite3.Connection:
         return self.db.conn()
 
-- 
2.43.0


From 7655d96c2ec232bb8e266774ed1b3750371c284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 05/66] fix: drop_calls() drops all calls given as an iterator

---
 mandala/storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mandala/storage.py b/mandala/storage.py
index 23dbc29..af3bc4e 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -415,6 +415,7 @@ class Storage:
         hit a false positive.
         """
         # figure out what we're given    
+        calls_or_hids = list(calls_or_hids) # could be an iterator
         if all(isinstance(c, Call) for c in calls_or_hids):
             hids = [c.hid for c in calls_or_hids]
         else:
-- 
2.43.0


From 693b3a98d14cd74410a791056f89fb400bbcd4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 06/66] fix: allow dropping calls that are not committed yet

Such calls stayed marked as unsaved, which made the next commit fail and lose
everything else, and they were not considered as dependents.
---
 mandala/storage.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index af3bc4e..b8ad659 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -422,15 +422,17 @@ class Storage:
             hids = list(calls_or_hids)
         hids = set(hids)
         if delete_dependents:
-            _, dependent_call_hids = self.call_storage.get_dependents(
-                ref_hids=set(), call_hids=hids, conn=conn,
-            )
+            # calls that are not committed yet can be dependents too
+            df = pd.concat([self.call_storage.get_df(conn=conn), self.call_cache.df])
+            _, dependent_call_hids = InMemCallStorage(
+                df=df[~df.index.duplicated()]
+            ).get_dependents(ref_hids=set(), call_hids=hids)
             hids |= dependent_call_hids
         num_dropped_cache = 0
         num_dropped_persistent = 0
         for hid in hids:
             if self.call_cache.exists(hid):
-                self.call_cache.drop(hid)
+                self.calls.drop(hid)
                 num_dropped_cache += 1
         for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
-- 
2.43.0


From 31b6c2b65a58ec3a00f1826246d1d3c5a5d6a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 07/66] fix: unwrapping a reference does not make its value
 count as unsaved

Every read marked the value as uncommitted, so that clear_cache() after it
was refused although there was nothing to commit.
---
 mandala/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index b8ad659..45855fa 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -496,9 +496,8 @@ class Storage:
         # TODO: implement `cache = False` in `load_ref`
         assert isinstance(obj, AtomRef)
         if not obj.in_memory:
+            # (this also caches the atom)
             ref = self.load_ref(hid=obj.hid, in_memory=False)
-            if cache:
-                self.atoms[obj.cid] = serialize(ref.obj)
             return ref.obj
         else:
             return obj.obj
-- 
2.43.0


From 11916b70d705c7f6f1cac4af134c27139d8a8269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 08/66] fix: cleanup_refs() keeps the elements of collections
 that calls refer to

---
 mandala/storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 45855fa..5ee7ca0 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -475,7 +475,17 @@ class Storage:
         all_hids = set(self.shapes.persistent.keys())
         df = self.call_storage.get_df()
         hids_in_calls = df["ref_history_id"].unique()
-        return all_hids - set(hids_in_calls)
+        orphans = all_hids - set(hids_in_calls)
+        # a collection can't be loaded without its elements
+        stack = [hid for hid in hids_in_calls if hid in all_hids]
+        while stack and orphans:
+            shape = self.shapes.persistent[stack.pop()]
+            if isinstance(shape, (ListRef, DictRef)):
+                elts = shape.obj.values() if isinstance(shape, DictRef) else shape.obj
+                elt_hids = {elt.hid for elt in elts} & orphans
+                orphans -= elt_hids
+                stack.extend(elt_hids)
+        return orphans
 
     def get_unreferenced_cids(self) -> Set[str]:
         """
-- 
2.43.0


From 388a42514f4e8a3c1187e158aff62b538e5d3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 09/66] fix: pass keyword arguments to the body as they were
 given

---
 mandala/storage.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 5ee7ca0..8fb988d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -795,7 +795,6 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
-        kwarg_keys: Optional[List[str]] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
@@ -873,23 +872,8 @@ class Storage:
             # cids_before = {k: v.cid for k, v in wrapped_inputs.items()}
             # raw_values = {k: self.unwrap(v) for k, v in wrapped_inputs.items()}
             ### we must run the function
-            kwargs = {}
-            if kwarg_keys is not None:
-                for k in kwarg_keys:
-                    if k in bound_arguments.arguments:
-                        kwargs[k] = bound_arguments.arguments[k]
-                        del bound_arguments.arguments[k]
-                    else: # must be a var keyword
-                        # figure out the name of the var keyword
-                        var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
-                        var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
-                        assert var_keyword is not None
-                        varkwargs = bound_arguments.arguments[var_keyword.name]
-                        kwargs[k] = varkwargs[k]
-                        del varkwargs[k]
-            args, leftover_kwargs = bound_arguments.args, bound_arguments.kwargs
+            args, kwargs = bound_arguments.args, bound_arguments.kwargs
             args = self.unwrap(args)
-            kwargs.update(leftover_kwargs)
             kwargs = self.unwrap(kwargs)
             # replace any ValuePointer instances with their underlying objects
             kwargs = {k: v.obj if isinstance(v, ValuePointer) else v for k, v in kwargs.items()}  
@@ -1193,7 +1177,6 @@ class Storage:
         self, op: Op, args, kwargs, config: Optional[dict] = None
     ) -> Union[Tuple[Ref, ...], Ref]:
         config = {} if config is None else config
-        kwarg_keys = set(kwargs.keys())
         bound_arguments, storage_inputs, storage_annotations = self.parse_args(
             sig=inspect.signature(op.f),
             args=args,
@@ -1220,7 +1203,6 @@ class Storage:
                 storage_inputs = storage_inputs,
                 bound_arguments = bound_arguments,
                 storage_tps=storage_tps,
-                kwarg_keys=kwarg_keys,
             )
             if config.get("save_calls", False):
                 self.save_call(main_call)
-- 
2.43.0


From 6e67a1405fafbe70d9f8b8c1d6dce76d156fe814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 10/66] fix: an explicit Ignore() for an argument in
 ignore_args reached the body

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 8fb988d..07d0680 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -764,7 +764,7 @@ class Storage:
                         storage_inputs[name] = val
                         storage_annotations[name] = var_keyword.annotation
             else:
-                if ignore_args is not None and k in ignore_args:
+                if ignore_args is not None and k in ignore_args and not isinstance(v, _Ignore):
                     v = Ignore(v)
                 # could have a default
                 if isinstance(v, _Ignore):
-- 
2.43.0


From c203814834287fa55a73d0e723b7e0098e7314f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 11/66] fix: keep variadic arguments apart from other arguments
 and outputs of the same name

---
 mandala/storage.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 07d0680..b94a1f7 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -721,7 +721,8 @@ class Storage:
         }
     
     def parse_args(self, sig: inspect.Signature, args, kwargs, apply_defaults: bool, 
-                   ignore_args: Optional[Tuple[str,...]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
+                   ignore_args: Optional[Tuple[str,...]] = None,
+                   output_names: Optional[List[str]] = None) -> Tuple[inspect.BoundArguments, Dict[str, Any], Dict[str, Any]]:
         """
         Given the inputs passed to an @op call (could be wrapped or unwrapped),
         figure out the inputs we should pass to storage functions, their type
@@ -734,6 +735,15 @@ class Storage:
         var_keyword = [p for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
         var_keyword = var_keyword[0] if len(var_keyword) > 0 else None
         default_values = {k: v.default for k, v in sig.parameters.items() if v.default is not inspect.Parameter.empty}
+        # arguments of a variadic parameter must not share a name with others, or with outputs
+        is_vararg_name = lambda name: var_positional is not None and (
+            name.startswith(f"{var_positional.name}_") and name[len(var_positional.name) + 1:].isdigit()
+        )
+        vararg_prefix = "*" if any(is_vararg_name(k) for k in sig.parameters) else ""
+        is_output_name = lambda name: name.startswith("output_") if output_names is None else name in output_names
+        get_varkwarg_name = lambda name: (
+            f"**{name}" if name in sig.parameters or is_vararg_name(name) or is_output_name(name) else name
+        )
         bound_arguments = sig.bind(*args, **kwargs)
         if apply_defaults:
             bound_arguments.apply_defaults()
@@ -747,7 +757,7 @@ class Storage:
                 # we must unwrap any _Ignore instances
                 new_v = [arg.value if isinstance(arg, _Ignore) else arg for arg in v]
                 ignored_mask = [True if isinstance(arg, _Ignore) else False for arg in v]
-                names = [f'{k}_{i}' for i in range(len(new_v))]
+                names = [f'{vararg_prefix}{k}_{i}' for i in range(len(new_v))]
                 #! update the bound arguments inplace
                 bound_arguments.arguments[k] = tuple(new_v)
                 for name, val, ignored in zip(names, new_v, ignored_mask):
@@ -761,8 +771,9 @@ class Storage:
                 bound_arguments.arguments[k] = new_v
                 for name, val in new_v.items():
                     if not ignored_mask[name]:
-                        storage_inputs[name] = val
-                        storage_annotations[name] = var_keyword.annotation
+                        storage_name = get_varkwarg_name(name)
+                        storage_inputs[storage_name] = val
+                        storage_annotations[storage_name] = var_keyword.annotation
             else:
                 if ignore_args is not None and k in ignore_args and not isinstance(v, _Ignore):
                     v = Ignore(v)
@@ -1183,6 +1194,7 @@ class Storage:
             kwargs=kwargs,
             apply_defaults=True,
             ignore_args=op.ignore_args,
+            output_names=op.output_names,
         )
 
         if self.mode == "noop":
-- 
2.43.0


From 91bc80405c8de5b938377dd7ef3c482801d86baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 12/66] fix: dictionaries with a key "dict" can be saved

---
 mandala/model.py   | 11 +++++++++++
 mandala/storage.py |  3 +--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mandala/model.py b/mandala/model.py
index 6e227e4..e5ce813 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -415,7 +415,18 @@ def __make_list__(**items: Any) -> MList[Any]:
         obj=elts,
     )
 
+def escape_dict_key(key: str) -> str:
+    """
+    Inputs of `__make_dict__` are named after the keys of the dictionary, but
+    must be distinct from its output, "dict".
+    """
+    return f"*{key}" if key.lstrip("*") == "dict" else key
+
+def unescape_dict_key(name: str) -> str:
+    return name[1:] if name.lstrip("*") == "dict" else name
+
 def __make_dict__(**kwargs: Any) -> dict:
+    kwargs = {unescape_dict_key(k): v for k, v in kwargs.items()}
     return DictRef(
         cid=get_content_hash(sorted([(k, v.cid) for k, v in kwargs.items()])),
         hid=get_content_hash(sorted([(k, v.hid) for k, v in kwargs.items()])),
diff --git a/mandala/storage.py b/mandala/storage.py
index b94a1f7..90865b4 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -565,8 +565,7 @@ class Storage:
         elif isinstance(tp, DictType):
             # the keys must be strings
             assert all(isinstance(k, str) for k in val.keys())
-            res = val
-            return res
+            return {escape_dict_key(k): v for k, v in val.items()}
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 22d761535064e7952ed9cd56a63673b63b4d2816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 13/66] fix: get_edges_in_paths follows simple paths only

It reported edges of cycles that lie on no simple path, and recursed without
end on some graphs with cycles.
---
 mandala/utils.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mandala/utils.py b/mandala/utils.py
index bee3cac..2baf58c 100644
--- a/mandala/utils.py
+++ b/mandala/utils.py
@@ -451,13 +451,7 @@ def get_edges_in_paths(
         for neighbor in graph[node]:
             if neighbor not in visited:
                 dfs(neighbor, path + [(node, neighbor)])
-            elif (node, neighbor) not in valid_edges and (node, neighbor) not in path:
-                # If we've visited this neighbor before but this edge isn't marked yet,
-                # it might be part of a cycle that leads to B
-                dfs(neighbor, path + [(node, neighbor)])
-        if node in visited:
-            # we may have removed `node` already if it was part of a cycle
-            visited.remove(node)
+        visited.remove(node)
 
     visited = set()
     valid_edges = set()
-- 
2.43.0


From c3bed59860ecb07940370e2f09e8379b8e6e302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 14/66] fix: leaving a block restores the storage that was
 active before it

After a block of one storage inside a block of another one ended, no storage
was active for the rest of the outer block.
---
 mandala/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 90865b4..5ab5f0a 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -125,6 +125,8 @@ class Storage:
         self._exit_hooks = []
         # stack of modes
         self._mode_stack = []
+        # for each open block, the context that was active before it
+        self._outer_contexts = []
         self._next_mode = 'run'
         self._allow_new_calls = True
     
@@ -1230,6 +1232,7 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
+        self._outer_contexts.append(Context.current_context)
         Context.current_context = Context(storage=self)
         self._mode_stack.append(self._next_mode)
         if self.versioned:
@@ -1263,8 +1266,9 @@ class Storage:
         except Exception as e:
             raise e
         finally:
+            # this may be a block of another storage
+            Context.current_context = self._outer_contexts.pop()
             if len(self._mode_stack) == 1: # this is the topmost level
-                Context.current_context = None
                 self.cached_versioner = None
                 self.code_state = None
 
-- 
2.43.0


From 13f1bf423e7ab3774d02b4cd71220132d21c0748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 15/66] fix: named tuples and subclasses of list, dict and set
 reach the body as they are

Unwrapping the arguments of a call turned them into plain tuples, lists,
dictionaries and sets.
---
 mandala/model.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/mandala/model.py b/mandala/model.py
index e5ce813..104d521 100644
--- a/mandala/model.py
+++ b/mandala/model.py
@@ -392,13 +392,30 @@ def recurse_on_ref_collections(f: Callable, obj: Any, **kwargs: Any) -> Any:
     if isinstance(obj, AtomRef):
         return f(obj, **kwargs)
     elif isinstance(obj, (list, ListRef)):
-        return [recurse_on_ref_collections(f, elt, **kwargs) for elt in obj]
+        res = [recurse_on_ref_collections(f, elt, **kwargs) for elt in obj]
+        if type(obj) not in (list, ListRef): # keep subclasses of `list`
+            elts, res = res, copy.copy(obj)
+            res[:] = elts
+        return res
     elif isinstance(obj, (dict, DictRef)):
-        return {k: recurse_on_ref_collections(f, v, **kwargs) for k, v in obj.items()}
+        res = {k: recurse_on_ref_collections(f, v, **kwargs) for k, v in obj.items()}
+        if type(obj) not in (dict, DictRef): # e.g. `OrderedDict`, `defaultdict`
+            items, res = res, copy.copy(obj)
+            for k, v in items.items():
+                res[k] = v
+        return res
     elif isinstance(obj, tuple):
-        return tuple(recurse_on_ref_collections(f, elt, **kwargs) for elt in obj)
+        elts = [recurse_on_ref_collections(f, elt, **kwargs) for elt in obj]
+        if hasattr(obj, "_make"): # a named tuple
+            return obj._make(elts)
+        return tuple(elts)
     elif isinstance(obj, set):
-        return {recurse_on_ref_collections(f, elt, **kwargs) for elt in obj}
+        res = {recurse_on_ref_collections(f, elt, **kwargs) for elt in obj}
+        if type(obj) is not set: # keep subclasses of `set`
+            elts, res = res, copy.copy(obj)
+            res.clear()
+            res.update(elts)
+        return res
     elif isinstance(obj, RefCollection):
         return ValueCollection(values=[recurse_on_ref_collections(f, ref, **kwargs) for ref in obj.refs])
     else:
-- 
2.43.0


From f7d09bba0a17f3d52cbb17d2726df950c3bdbda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 16/66] fix: a failed transaction is rolled back before it is
 tried again

An in-memory database keeps its connection, which stayed inside the failed
transaction, so that every later operation failed.
---
 mandala/storage_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 6d2c75e..6232203 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -66,11 +66,12 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
                 conn.commit()
                 return res
             except sqlite3.OperationalError as e:
+                conn.rollback() # in-memory databases keep their connection
                 delay = base_delay * (2 ** attempt)
                 logging.info(f'Transaction failed with error: {e}. Retrying in {delay:.2f} seconds...')
                 time.sleep(delay)
                 continue
-            except Exception as e:
+            except BaseException as e:
                 conn.rollback()
                 raise e
             finally:
-- 
2.43.0


From 2d1e6c7c46dcb53cc3069690d04d152500cd4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 17/66] fix: what a refused commit was to save stays unsaved
 and is saved by the next one

The caches forgot what was unsaved before the transaction had succeeded, and the
transaction of an in-memory database was not one: each statement was saved at once.
---
 mandala/storage.py       | 20 +++++++++++++-------
 mandala/storage_utils.py |  8 +++++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 5ab5f0a..341b3ad 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -214,14 +214,19 @@ class Storage:
             self.preload_atoms()
 
     def commit(self):
-        with self.conn() as conn:
-            self.atoms.commit(conn=conn)
-            self.shapes.commit(conn=conn)
-            self.ops.commit(conn=conn)
-            if self.versioned:
-                self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
-            self.calls.commit(conn=conn)
+        self._write_uncommitted()
+        # only now is everything on disk
+        for store in (self.atoms, self.shapes, self.ops, self.calls):
+            store.mark_committed()
 
+    @transaction
+    def _write_uncommitted(self, conn: Optional[sqlite3.Connection] = None):
+        self.atoms.commit(conn=conn)
+        self.shapes.commit(conn=conn)
+        self.ops.commit(conn=conn)
+        if self.versioned:
+            self.sources.persistent.set(key='versioner', value=self.sources.cache['versioner'], conn=conn)
+        self.calls.commit(conn=conn)
 
     def __repr__(self):
         # summarize cache sizes
@@ -975,6 +980,7 @@ class Storage:
     def save_versioner(self, versioner: Versioner, conn: Optional[sqlite3.Connection] = None):
         self.sources["versioner"] = versioner
         self.sources.commit(conn=conn)
+        self.sources.mark_committed()
 
     @property
     def versioned(self) -> bool:
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 6232203..097b817 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -292,10 +292,13 @@ class CachedDictStorage(DictStorage):
 
     def commit(self, conn: Optional[sqlite3.Connection] = None) -> None:
         """
-        Persist the values of all dirty keys and clear them
+        Write the values of all dirty keys. They stay dirty until the
+        transaction they are written in has succeeded; see `mark_committed`
         """
         for key in self.dirty_keys:
             self.persistent.set(key, self.cache[key], conn=conn)
+
+    def mark_committed(self) -> None:
         self.dirty_keys.clear()
     
     def clear(self, allow_uncommited: bool = False) -> None:
@@ -770,6 +773,9 @@ class CachedCallStorage:
         # with conn:
         for hid in self.dirty_hids:
             self.persistent.save(self.cache.get_data(hid), conn=conn)
+
+    def mark_committed(self) -> None:
+        # see `CachedDictStorage.commit`
         self.dirty_hids.clear()
     
     def clear(self, allow_uncommited: bool = False):
-- 
2.43.0


From 540607a6e982e966e29cb4c3d10a34381f57f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 18/66] fix: saving a call that is saved already does not fail

Another session may have saved the same call in the meantime, or the
commit that saved it may have been reported as failed.
---
 mandala/storage_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 097b817..919da51 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -551,14 +551,14 @@ class SQLiteCallStorage:
             hid = call_data["input_hids"][k]
             cid = call_data["input_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "in", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
         for k in call_data["output_hids"]:
             hid = call_data["output_hids"][k]
             cid = call_data["output_cids"][k]
             conn.execute(
-                f"INSERT INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
+                f"INSERT OR REPLACE INTO {self.table_name} VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?)",
                 (call_data["hid"], k, "out", call_data["cid"], cid, hid, op_name, semantic_version, content_version),
             )
 
-- 
2.43.0


From 1bc8dec751dbc222a46984439d3498ad4fc96a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 19/66] fix: an interrupted write of a value file does not
 leave a broken file behind

---
 mandala/storage_utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 919da51..d55724e 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -153,7 +153,16 @@ class JoblibDictStorage(DictStorage):
     def set(self, key: str, value: Any) -> None:
         if self.exists(key):
             return # this is a write-once storage
-        joblib.dump(value, self.get_path_for_key(key))
+        # `exists` must not be true of a file that is not completely written
+        path = self.get_path_for_key(key)
+        tmp_path = f'{path}.{uuid.uuid4()}.tmp'
+        try:
+            joblib.dump(value, tmp_path)
+            os.replace(tmp_path, path)
+        except BaseException:
+            if os.path.exists(tmp_path):
+                os.remove(tmp_path)
+            raise
     
     def drop(self, key: str) -> None:
         os.remove(self.get_path_for_key(key))
-- 
2.43.0


From e3558e0752bd8a4d7e87f5fe010e6dba19af7eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:29 +0000
Subject: [PATCH 20/66] fix: an interrupted call does not leave a saved call
 without the calls for its elements

---
 mandala/storage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 341b3ad..c0fba61 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1224,9 +1224,14 @@ class Storage:
                 storage_tps=storage_tps,
             )
             if config.get("save_calls", False):
-                self.save_call(main_call)
+                # the main call comes last: once it is saved, the calls for
+                # the elements of its collections are not made again. Its refs
+                # come first: only they have the right ids of the elements
+                for ref in itertools.chain(main_call.inputs.values(), main_call.outputs.values()):
+                    self.save_ref(ref)
                 for call in calls:
                     self.save_call(call)
+                self.save_call(main_call)
             ord_outputs = op.get_ordered_outputs(main_call.outputs)
             if len(ord_outputs) == 1:
                 return ord_outputs[0]
-- 
2.43.0


From d07dbb4be8c8533d20928bd760dcd3c83a7e19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 21/66] fix: drop_calls() tried again after a refused write
 drops what it was asked to

The calls could be given by an iterator, which is consumed the first time; calls
that are not saved yet were gone from the cache even if the operation failed.
---
 mandala/storage.py       | 25 ++++++++++++++++---------
 mandala/storage_utils.py |  1 +
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index c0fba61..bd9a4ce 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -411,7 +411,6 @@ class Storage:
     def get_call(self, hid: str, lazy: bool) -> Call:
         return self.mget_call([hid], in_memory=lazy)[0]
 
-    @transaction
     def drop_calls(self, calls_or_hids: Union[Iterable[str], Iterable[Call]], delete_dependents: bool, 
                    conn: Optional[sqlite3.Connection] = None):
         """
@@ -427,25 +426,33 @@ class Storage:
             hids = [c.hid for c in calls_or_hids]
         else:
             hids = list(calls_or_hids)
-        hids = set(hids)
+        # the transaction may be tried again or fail; the cache comes after it
+        hids, num_dropped_persistent = self._drop_persistent_calls(
+            set(hids), delete_dependents=delete_dependents, conn=conn
+        )
+        num_dropped_cache = 0
+        for hid in hids:
+            if self.call_cache.exists(hid):
+                self.calls.drop(hid)
+                num_dropped_cache += 1
+        logger.info(f"Dropped {num_dropped_persistent} calls (and {num_dropped_cache} from cache).")
+
+    @transaction
+    def _drop_persistent_calls(self, hids: Set[str], delete_dependents: bool,
+                               conn: Optional[sqlite3.Connection] = None) -> Tuple[Set[str], int]:
         if delete_dependents:
             # calls that are not committed yet can be dependents too
             df = pd.concat([self.call_storage.get_df(conn=conn), self.call_cache.df])
             _, dependent_call_hids = InMemCallStorage(
                 df=df[~df.index.duplicated()]
             ).get_dependents(ref_hids=set(), call_hids=hids)
-            hids |= dependent_call_hids
-        num_dropped_cache = 0
+            hids = hids | dependent_call_hids
         num_dropped_persistent = 0
-        for hid in hids:
-            if self.call_cache.exists(hid):
-                self.calls.drop(hid)
-                num_dropped_cache += 1
         for hid in hids:
             if self.call_storage.exists(hid, conn=conn):
                 self.call_storage.drop(hid, conn=conn)
                 num_dropped_persistent += 1
-        logger.info(f"Dropped {num_dropped_persistent} calls (and {num_dropped_cache} from cache).")
+        return hids, num_dropped_persistent
 
     ############################################################################
     ### provenance queries
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index d55724e..7c60250 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -53,6 +53,7 @@ def transaction(method):  # transaction decorator for classes with a `conn` meth
         if kwargs.get("conn") is not None:  # already in a transaction
             logging.debug("Folding into existing transaction")
             return method(self, *args, **kwargs)
+        kwargs.pop("conn", None)
 
         # 10 attempts with exponential backoff, max. time is ~17 minutes
         max_attempts = 10
-- 
2.43.0


From c7ac9e25c3bef0d1d8f7e5dd6af8d8ecaace12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 22/66] fix: record calls to other ops as dependencies and
 resume tracing after them

A versioned op that called another op either failed (the op is not a tracked
function), or lost the dependencies of the inner call and everything it used
after that call, so that outdated results were returned.
---
 mandala/deps/model.py            |  7 ++++
 mandala/deps/tracers/dec_impl.py |  3 ++
 mandala/storage.py               | 70 +++++++++++++++++++++++++-------
 3 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/mandala/deps/model.py b/mandala/deps/model.py
index 4187c17..d89c4a8 100644
--- a/mandala/deps/model.py
+++ b/mandala/deps/model.py
@@ -329,5 +329,12 @@ class DependencyGraph:
             self.add_node(target)
         self.edges.add((source.key, target.key))
 
+    def update(self, other: "DependencyGraph"):
+        """
+        Add the nodes and edges of another graph to this one
+        """
+        self.nodes.update(other.nodes)
+        self.edges.update(other.edges)
+
 
 from .viz import to_dot, to_string
diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 81eee80..6e673a6 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -54,6 +54,9 @@ class TrackedDict(dict):
         result = self.__original__.__getitem__(__key)
         if TracerState.tracer is not None:
             tracer = TracerState.tracer
+            if type(result).__name__ == Config.func_interface_cls_name:
+                # the storage keeps track of the calls to memoized functions
+                return result
             unwrapped_result = unwrap_decorators(result, strict=False)
             if isinstance(unwrapped_result, (types.FunctionType, type)):
                 is_owned = tracer.is_owned_obj(obj=unwrapped_result)
diff --git a/mandala/storage.py b/mandala/storage.py
index bd9a4ce..775e6f4 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1,4 +1,5 @@
 from .common_imports import *
+from contextlib import contextmanager
 from tqdm import tqdm
 import datetime
 from .model import *
@@ -10,6 +11,7 @@ from .deps.versioner import Versioner, CodeState
 from .deps.utils import get_dep_key_from_func, extract_func_obj
 from .deps.tracers import DecTracer, SysTracer, TracerABC
 from .deps.tracers.dec_impl import track
+from .deps.model import TerminalData
 
 from .storage_utils import (
     DBAdapter,
@@ -819,10 +821,12 @@ class Storage:
         storage_inputs: Dict[str, Any],
         storage_tps: Dict[str, Type],
         bound_arguments: Optional[inspect.BoundArguments] = None,
+        outer_tracer: Optional[TracerABC] = None,
     ) -> Tuple[Dict[str, Ref], Call, List[Call]]:
         """
         Main function to call an op, operating on the representations used
-        internally by the storage.
+        internally by the storage. `outer_tracer` is the tracer of the call that
+        makes this one, if any.
 
         NOTE: this function does NOT save the call to the storage. 
         """
@@ -839,12 +843,6 @@ class Storage:
         if len(input_calls) > 0:
             if not op.__structural__: logger.debug(f"Collected {len(input_calls)} calls for inputs.")
 
-        if must_version_call:
-            suspended_trace_obj = self.cached_versioner.TracerCls.get_active_trace_obj()
-            self.cached_versioner.TracerCls.set_active_trace_obj(trace_obj=None)
-        else:
-            suspended_trace_obj = None
-
         ### check for the call
         pre_call_id = op.get_pre_call_id(wrapped_inputs)
         call_option = self.lookup_call(
@@ -910,7 +908,13 @@ class Storage:
                         f = track(op.f)
                         node = tracer.register_call(func=f)
                     #! call the function
-                    returns = f(*args, **kwargs)
+                    try:
+                        returns = f(*args, **kwargs)
+                    except BaseException:
+                        # the calling op depends on what ran up to here
+                        if outer_tracer is not None:
+                            outer_tracer.graph.update(tracer.graph)
+                        raise
                     if isinstance(tracer, DecTracer):
                         tracer.register_return(node=node)
             else:
@@ -976,6 +980,24 @@ class Storage:
     ############################################################################
     ### versioning
     ############################################################################
+    @contextmanager
+    def _suspended_tracer(self):
+        """
+        Suspend the tracer of the op that is being executed, if any, and resume
+        it in the end.
+        """
+        if not self.versioned:
+            yield None
+            return
+        TracerCls = self.cached_versioner.TracerCls
+        outer_tracer = TracerCls.get_active_trace_obj()
+        TracerCls.set_active_trace_obj(None)
+        try:
+            yield outer_tracer
+        finally:
+            TracerCls.set_active_trace_obj(None)
+            TracerCls.set_active_trace_obj(outer_tracer)
+
     @transaction
     def get_versioner(self, conn: Optional[sqlite3.Connection] = None) -> Versioner:
         result = self.sources["versioner"]
@@ -1219,17 +1241,35 @@ class Storage:
             # now unwrap the values of the arguments
             args = tuple([self.unwrap(arg) for arg in args])
             kwargs = {k: self.unwrap(v) for k, v in kwargs.items()}
-            return op.f(*args, **kwargs)
+            f = op.f
+            if self.versioned and DecTracer.get_active_trace_obj() is not None:
+                # the op being traced depends on this function like on any other
+                f = track(f)
+            return f(*args, **kwargs)
         elif self.mode == "run":
             storage_tps = {
                 k: Type.from_annotation(annotation=v) for k, v in storage_annotations.items()
             }
-            res, main_call, calls = self.call_internal(
-                op=op,
-                storage_inputs = storage_inputs,
-                bound_arguments = bound_arguments,
-                storage_tps=storage_tps,
-            )
+            with self._suspended_tracer() as outer_tracer:
+                res, main_call, calls = self.call_internal(
+                    op=op,
+                    storage_inputs = storage_inputs,
+                    bound_arguments = bound_arguments,
+                    storage_tps=storage_tps,
+                    outer_tracer=outer_tracer,
+                )
+            if outer_tracer is not None:
+                # the calling op depends on the version of this call
+                outer_tracer.register_leaf_event(
+                    trace_obj=outer_tracer,
+                    data=TerminalData(
+                        op_internal_name=op.name,
+                        op_version=op.version,
+                        call_content_version=main_call.content_version,
+                        call_semantic_version=main_call.semantic_version,
+                        dep_key=get_dep_key_from_func(func=op.f),
+                    ),
+                )
             if config.get("save_calls", False):
                 # the main call comes last: once it is saved, the calls for
                 # the elements of its collections are not made again. Its refs
-- 
2.43.0


From 09dcbe0d3ff4cac00d3d34c5c84fc99a546b7ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 23/66] fix: end the tracing of a tracked function also when it
 raises

An exception caught by a caller left the function on the tracer's call stack, and
the return of the caller failed with an AssertionError.
---
 mandala/deps/tracers/dec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 6e673a6..08f8931 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -146,9 +146,10 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
             tracer = DecTracer.get_active_trace_obj()
             if tracer is not None:
                 node = tracer.register_call(func=obj)
-                outcome = obj(*args, **kwargs)
-                tracer.register_return(node)
-                return outcome
+                try:
+                    return obj(*args, **kwargs)
+                finally:
+                    tracer.register_return(node)
             else:
                 return obj(*args, **kwargs)
 
-- 
2.43.0


From eb7b87143b609764a18f9547add8e04714de4664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 24/66] fix: attribute a global variable to the module that it
 belongs to

Code in a lambda or generator can run while a function of another module is on top
of the call stack; the global variable was then recorded under a name that does not
exist, and changes to it went unnoticed.
---
 mandala/deps/tracers/dec_impl.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 08f8931..64700b5 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -44,7 +44,10 @@ class TrackedDict(dict):
     A dictionary that tracks global variable accesses.
     """
     def __init__(self, original: dict, verbose: bool = False):
+        if isinstance(original, TrackedDict):
+            original = original.__original__
         self.__original__ = original
+        self.module_name = original.get("__name__")
         self.verbose = verbose
     
     def __repr__(self) -> str:
@@ -75,7 +78,9 @@ class TrackedDict(dict):
                         f"Function/class {result} from module {unwrapped_result.__module__} is accessed but not tracked"
                     )
             elif is_global_val(result):
-                tracer.register_global_access(key=__key, value=result)
+                tracer.register_global_access(
+                    key=__key, value=result, module_name=self.module_name
+                )
             else:
                 if (
                     DecTracerConfig.restrict_global_accesses
@@ -262,13 +267,18 @@ class DecTracer(TracerABC):
             self.graph.roots.add(node.key)
         return node
 
-    def register_global_access(self, key: str, value: Any):
+    def register_global_access(self, key: str, value: Any, module_name: str):
+        """
+        `module_name` is the module of the global variable; it is not always the
+        module of the function on top of the stack (e.g. for code in lambdas and
+        generators)
+        """
         if not self.track_globals:
             return
         assert len(self.call_stack) > 0
         calling_node = self.call_stack[-1]
         node = GlobalVarNode.from_obj(
-            obj=value, dep_key=(calling_node.module_name, key), 
+            obj=value, dep_key=(module_name, key), 
             skip_unhashable=self.skip_unhashable_globals,
             skip_silently=self.skip_globals_silently
         )
-- 
2.43.0


From b0833b07375842967eab111ae1f1a2ad8461a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 25/66] fix: check the closure variables of the op and not
 those of its wrapper

With strict_tracing=True no op could be called.
---
 mandala/deps/tracers/dec_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 64700b5..01405c9 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -241,16 +241,17 @@ class DecTracer(TracerABC):
     def register_call(self, func: Callable) -> CallableNode:
         module_name = func.__module__
         qualname = func.__qualname__
+        code_obj = extract_code(obj=func)
         # check for closure variables
         closure_names = get_closure_names(
-            code_obj=func.__code__, func_qualname=qualname
+            code_obj=code_obj, func_qualname=qualname
         )
         if len(closure_names) > 0:
             msg = f"Found closure variables accessed by function {module_name}.{qualname}:\n{closure_names}"
             self._process_failure(msg, level='debug')
         ### get call node
         node = CallableNode.from_runtime(
-            module_name=module_name, obj_name=qualname, code_obj=extract_code(obj=func)
+            module_name=module_name, obj_name=qualname, code_obj=code_obj
         )
         self.call_stack.append(node)
         self.graph.add_node(node)
-- 
2.43.0


From 33933c426a465266f00de40ffb288437e0379655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 26/66] fix: do not record methods run to represent a global as
 dependencies

---
 mandala/deps/tracers/dec_impl.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 01405c9..666766d 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -278,11 +278,16 @@ class DecTracer(TracerABC):
             return
         assert len(self.call_stack) > 0
         calling_node = self.call_stack[-1]
-        node = GlobalVarNode.from_obj(
-            obj=value, dep_key=(module_name, key), 
-            skip_unhashable=self.skip_unhashable_globals,
-            skip_silently=self.skip_globals_silently
-        )
+        # the methods used to represent the value are not used by the caller
+        DecTracer.set_active_trace_obj(None)
+        try:
+            node = GlobalVarNode.from_obj(
+                obj=value, dep_key=(module_name, key), 
+                skip_unhashable=self.skip_unhashable_globals,
+                skip_silently=self.skip_globals_silently
+            )
+        finally:
+            DecTracer.set_active_trace_obj(self)
         self.graph.add_edge(calling_node, node)
 
     def register_return(self, node: CallableNode):
-- 
2.43.0


From 91a301b762b7cec76fc2c2cf5d44e91ef357a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 27/66] fix: track static and class methods of a tracked class

They were accepted, but calls to them were not recorded.
---
 mandala/deps/crawler.py          | 2 ++
 mandala/deps/tracers/dec_impl.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 25f109c..4826001 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -24,6 +24,8 @@ def crawl_obj(
     """
     Find functions and optionally methods native to the module of this object.
     """
+    if isinstance(obj, (staticmethod, classmethod)):
+        obj = obj.__func__
     if is_callable_obj(obj=obj, strict=strict):
         if isinstance(unwrap_decorators(obj, strict=False), types.BuiltinFunctionType):
             return
diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index 666766d..b298d72 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -138,6 +138,8 @@ def track(obj: Union[types.FunctionType, type]) -> "obj":
         for k, v in obj.__dict__.items():
             if isinstance(v, (types.FunctionType, type)):
                 setattr(obj, k, track(v))
+            elif isinstance(v, (staticmethod, classmethod)):
+                setattr(obj, k, type(v)(track(v.__func__)))
         TracerState.registry[(obj.__module__, obj.__qualname__)] = obj
         return obj
     elif isinstance(obj, types.FunctionType):
-- 
2.43.0


From 0cd16e001ffdd092b81d7248f4850c85a6a186b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 28/66] fix: do not trace the synchronization of a block inside
 an op

---
 mandala/storage.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 775e6f4..13ae03d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -980,16 +980,17 @@ class Storage:
     ############################################################################
     ### versioning
     ############################################################################
+    @staticmethod
     @contextmanager
-    def _suspended_tracer(self):
+    def _suspended_tracer(versioner: Optional[Versioner]):
         """
         Suspend the tracer of the op that is being executed, if any, and resume
         it in the end.
         """
-        if not self.versioned:
+        if versioner is None:
             yield None
             return
-        TracerCls = self.cached_versioner.TracerCls
+        TracerCls = versioner.TracerCls
         outer_tracer = TracerCls.get_active_trace_obj()
         TracerCls.set_active_trace_obj(None)
         try:
@@ -1028,8 +1029,10 @@ class Storage:
         self, conn: Optional[sqlite3.Connection] = None
     ) -> Tuple[Versioner, CodeState]:
         versioner = self.get_versioner(conn=conn)
-        code_state = self.guess_code_state(versioner=versioner, conn=conn)
-        versioner.sync_codebase(code_state=code_state)
+        # an op may be executing, e.g. one that opens a `noop()` block
+        with self._suspended_tracer(versioner):
+            code_state = self.guess_code_state(versioner=versioner, conn=conn)
+            versioner.sync_codebase(code_state=code_state)
         return versioner, code_state
 
     @transaction
@@ -1250,7 +1253,7 @@ class Storage:
             storage_tps = {
                 k: Type.from_annotation(annotation=v) for k, v in storage_annotations.items()
             }
-            with self._suspended_tracer() as outer_tracer:
+            with self._suspended_tracer(self.cached_versioner) as outer_tracer:
                 res, main_call, calls = self.call_internal(
                     op=op,
                     storage_inputs = storage_inputs,
-- 
2.43.0


From e0abb936a58f605ee4d0a6303cbe5044ee95f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 29/66] fix: a trace only refers to versions of its own storage

---
 mandala/deps/versioner.py | 5 ++++-
 mandala/storage.py        | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 530952e..7661f60 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -140,7 +140,7 @@ class Versioner:
                 self.global_topology.edges.add(edge)
 
     def make_tracer(self) -> TracerABC:
-        return self.TracerCls(
+        tracer = self.TracerCls(
             paths=[Config.mandala_path] + self.paths,
             strict=self.strict,
             allow_methods=self.allow_methods,
@@ -148,6 +148,9 @@ class Versioner:
             skip_unhashable_globals=self.skip_unhashable_globals,
             skip_globals_silently=self.skip_globals_silently,
         )
+        # the versions that the trace can refer to
+        tracer.versioner = self
+        return tracer
 
     def guess_code_state(self) -> CodeState:
         result_graph = DependencyGraph()
diff --git a/mandala/storage.py b/mandala/storage.py
index 13ae03d..a8bf9a8 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -912,7 +912,7 @@ class Storage:
                         returns = f(*args, **kwargs)
                     except BaseException:
                         # the calling op depends on what ran up to here
-                        if outer_tracer is not None:
+                        if isinstance(outer_tracer, DecTracer):
                             outer_tracer.graph.update(tracer.graph)
                         raise
                     if isinstance(tracer, DecTracer):
@@ -1261,9 +1261,11 @@ class Storage:
                     storage_tps=storage_tps,
                     outer_tracer=outer_tracer,
                 )
-            if outer_tracer is not None:
+            if outer_tracer is not None and getattr(
+                outer_tracer, "versioner", self.cached_versioner
+            ) is self.cached_versioner:
                 # the calling op depends on the version of this call
-                outer_tracer.register_leaf_event(
+                self.cached_versioner.TracerCls.register_leaf_event(
                     trace_obj=outer_tracer,
                     data=TerminalData(
                         op_internal_name=op.name,
-- 
2.43.0


From 49ca1ed7a66bdf520743fb715c156317da6b1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 30/66] fix: notice that a name is bound to another function or
 op

---
 mandala/deps/model.py            |  6 ++++++
 mandala/deps/tracers/dec_impl.py | 15 +++++++++++++++
 mandala/deps/utils.py            | 15 +++++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/mandala/deps/model.py b/mandala/deps/model.py
index d89c4a8..6bc2573 100644
--- a/mandala/deps/model.py
+++ b/mandala/deps/model.py
@@ -16,6 +16,8 @@ from .utils import (
     extract_code,
     unknown_function,
     UNKNOWN_GLOBAL_VAR,
+    GlobalClassifier,
+    get_func_address,
 )
 
 
@@ -218,6 +220,10 @@ class GlobalVarNode(Node):
         truncated_repr = textwrap.shorten(text=repr(obj), width=80)
         if isinstance(obj, Ref):
             content_hash = obj.cid
+        elif GlobalClassifier.is_func(obj):
+            # only where it is defined; its code is a component of its own
+            truncated_repr = ".".join(get_func_address(obj))
+            content_hash = get_content_hash(truncated_repr)
         else:
             try:
                 content_hash = get_content_hash(obj=obj)
diff --git a/mandala/deps/tracers/dec_impl.py b/mandala/deps/tracers/dec_impl.py
index b298d72..ce141ec 100644
--- a/mandala/deps/tracers/dec_impl.py
+++ b/mandala/deps/tracers/dec_impl.py
@@ -15,6 +15,7 @@ from ..utils import (
     is_global_val,
     extract_code,
     extract_func_obj,
+    get_func_address,
     DepKey,
     GlobalClassifier,
 )
@@ -59,6 +60,7 @@ class TrackedDict(dict):
             tracer = TracerState.tracer
             if type(result).__name__ == Config.func_interface_cls_name:
                 # the storage keeps track of the calls to memoized functions
+                self.register_alias(tracer=tracer, key=__key, func=result)
                 return result
             unwrapped_result = unwrap_decorators(result, strict=False)
             if isinstance(unwrapped_result, (types.FunctionType, type)):
@@ -77,6 +79,8 @@ class TrackedDict(dict):
                     raise ValueError(
                         f"Function/class {result} from module {unwrapped_result.__module__} is accessed but not tracked"
                     )
+                if isinstance(unwrapped_result, types.FunctionType):
+                    self.register_alias(tracer=tracer, key=__key, func=result)
             elif is_global_val(result):
                 tracer.register_global_access(
                     key=__key, value=result, module_name=self.module_name
@@ -98,6 +102,17 @@ class TrackedDict(dict):
                         logger.debug(msg)
         return result
 
+    def register_alias(self, tracer: "DecTracer", key: str, func: Any):
+        """
+        A name other than the function's own (e.g. an imported one) is a global
+        variable: it can be bound to another function without any change in the
+        source code of the functions involved.
+        """
+        if get_func_address(func) != (self.module_name, key):
+            tracer.register_global_access(
+                key=key, value=func, module_name=self.module_name
+            )
+
 
 def make_tracked_copy(f: types.FunctionType) -> types.FunctionType:
     result = types.FunctionType(
diff --git a/mandala/deps/utils.py b/mandala/deps/utils.py
index c056be9..18f08ff 100644
--- a/mandala/deps/utils.py
+++ b/mandala/deps/utils.py
@@ -31,6 +31,13 @@ class GlobalClassifier:
             or type(obj).__name__ == Config.func_interface_cls_name  #! a hack to exclude memoized functions
         )
 
+    @staticmethod
+    def is_func(obj: Any) -> bool:
+        return (
+            type(obj).__name__ == Config.func_interface_cls_name
+            or isinstance(unwrap_decorators(obj, strict=False), types.FunctionType)
+        )
+
     @staticmethod
     def is_scalar(obj: Any) -> bool:
         result = isinstance(obj, (int, float, str, bool, type(None)))
@@ -209,6 +216,14 @@ def get_dep_key_from_func(func: types.FunctionType) -> DepKey:
     return module_name, qualname
 
 
+def get_func_address(func: Any) -> DepKey:
+    """
+    The place where a function or op is defined
+    """
+    func = extract_func_obj(obj=func, strict=True)
+    return get_dep_key_from_func(func=func)
+
+
 def get_func_qualname(
     func_name: str,
     code: types.CodeType,
-- 
2.43.0


From 117df9211eb0252b556bf6384953cb21a7ec6998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 31/66] fix: a refused synchronization leaves no block open

---
 mandala/storage.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index a8bf9a8..9c86905 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1295,13 +1295,17 @@ class Storage:
         return self
 
     def __enter__(self) -> "Storage":
-        self._outer_contexts.append(Context.current_context)
-        Context.current_context = Context(storage=self)
-        self._mode_stack.append(self._next_mode)
+        mode = self._next_mode
+        self._next_mode = self._mode_stack[-1] if self._mode_stack else 'run'
         if self.versioned:
+            # this can be refused, and then there is no block to exit
             versioner, code_state = self.sync_code()
             self.cached_versioner = versioner
             self.code_state = code_state
+        self._outer_contexts.append(Context.current_context)
+        Context.current_context = Context(storage=self)
+        self._mode_stack.append(mode)
+        self._next_mode = mode
         return self
 
     # def __exit__(self, exc_type, exc_value, traceback) -> None:
-- 
2.43.0


From 5581f7575549a943ec3f2fe7457ff11178d381d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 32/66] fix: save what sync_component() decided

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 9c86905..73dea54 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1051,7 +1051,7 @@ class Storage:
             is_semantic_change=is_semantic_change,
             code_state=code_state,
         )
-        self.sources["versioned"] = versioner
+        self.save_versioner(versioner=versioner, conn=conn)
         return result
 
     @transaction
-- 
2.43.0


From eb8cf2b98757464449c556a4fba1eb820546954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 33/66] fix: a call repeated after its deletion is saved with
 its new result

---
 mandala/storage.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 73dea54..c90c3b4 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -255,14 +255,18 @@ class Storage:
     ############################################################################
     ### refs interface
     ############################################################################
-    def save_ref(self, ref: Ref):
+    def save_ref(self, ref: Ref, replace: bool = False):
         """
         NOTE: the given ref may not be in memory, but may still be a new history
         ID, if there was previously another ref with the same content ID but
         different history ID.
+
+        `replace` is for outputs: what was saved under this history ID can be
+        left from a deleted call that had another result.
         """
         if ref.hid in self.shapes:  # ensure idempotence
-            return
+            if not replace or self.shapes[ref.hid].cid == ref.cid:
+                return
         if isinstance(ref, AtomRef):
             if ref.in_memory: #! ONLY save the atom if it is in memory
                 self.atoms[ref.cid] = serialize(ref.obj)
@@ -270,11 +274,11 @@ class Storage:
         elif isinstance(ref, ListRef):
             self.shapes[ref.hid] = ref.shape()
             for i, elt in enumerate(ref):
-                self.save_ref(elt)
+                self.save_ref(elt, replace=replace)
         elif isinstance(ref, DictRef):
             self.shapes[ref.hid] = ref.shape()
             for k, v in ref.items():
-                self.save_ref(v)
+                self.save_ref(v, replace=replace)
                 # self.save_ref(k)
         else:
             raise NotImplementedError
@@ -356,10 +360,10 @@ class Storage:
             # save the op
             logger.debug(f"Caching new op {call.op.name}.")
             self.ops[call.op.name] = call.op.detached()
-        # (convert the iterator to a list to avoid double iteration)
-        io_refs = list(itertools.chain(call.inputs.values(), call.outputs.values()))
-        for v in io_refs:
+        for v in call.inputs.values():
             self.save_ref(v)
+        for v in call.outputs.values():
+            self.save_ref(v, replace=not call.op.__structural__)
         self.calls.save(call)
     
     def mget_call(self, hids: List[str], in_memory: bool) -> List[Call]:
@@ -1279,8 +1283,10 @@ class Storage:
                 # the main call comes last: once it is saved, the calls for
                 # the elements of its collections are not made again. Its refs
                 # come first: only they have the right ids of the elements
-                for ref in itertools.chain(main_call.inputs.values(), main_call.outputs.values()):
+                for ref in main_call.inputs.values():
                     self.save_ref(ref)
+                for ref in main_call.outputs.values():
+                    self.save_ref(ref, replace=True)
                 for call in calls:
                     self.save_call(call)
                 self.save_call(main_call)
-- 
2.43.0


From dc49e677d9acd5add6d2cf203a1a2263c41b9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 34/66] fix: calls deleted from a versioned storage can be
 computed again

---
 mandala/deps/versioner.py | 11 +++++++++++
 mandala/storage.py        |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index 7661f60..e511815 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -407,6 +407,17 @@ class Versioner:
                     return content_version, semantic_version
             return None
 
+    def forget_calls(self, pre_call_uid: str, exists: Callable[[str], bool]):
+        """
+        Forget the records for the given pre-call uid whose call, as told by
+        their semantic version, doesn't exist (anymore).
+        """
+        candidates = self.df[self.df["pre_call_uid"] == pre_call_uid]
+        gone = [v for v in candidates["semantic_version"].unique() if not exists(v)]
+        if len(gone) > 0:
+            is_gone = candidates["semantic_version"].isin(gone)
+            self.df = self.df.drop(index=candidates.index[is_gone])
+
     def process_trace(
         self,
         graph: DependencyGraph,
diff --git a/mandala/storage.py b/mandala/storage.py
index c90c3b4..7c6902d 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -929,6 +929,13 @@ class Storage:
             self.cached_versioner.apply_state_hypothesis(
                 hypothesis=self.code_state, trace_result=tracer_option.graph.nodes
             )
+            # calls may have been deleted since the versioner recorded them
+            self.cached_versioner.forget_calls(
+                pre_call_uid=pre_call_id,
+                exists=lambda semantic_version: self.calls.exists_content(
+                    op.get_call_content_id(wrapped_inputs, semantic_version=semantic_version)
+                ),
+            )
             # update the global topology and code state
             self.cached_versioner.update_global_topology(graph=tracer_option.graph)
             self.code_state.add_globals_from(graph=tracer_option.graph)
-- 
2.43.0


From cc71b7f3a80ece09720f74df044ee0e2e1a9b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 35/66] fix: drop_version() also drops calls that are not
 committed yet

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 7c6902d..f1ed9f3 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1198,7 +1198,7 @@ class Storage:
         """
         ### delete all calls first (and their dependents)
         # TODO: very inefficient, we should have a DB query for this
-        calls_df = self.calls.persistent.get_df(conn=conn)
+        calls_df = pd.concat([self.call_storage.get_df(conn=conn), self.call_cache.df]) # some may not be committed yet
         calls_df = calls_df.query(f'semantic_version == "{semantic_version}"')
         call_hids = calls_df.index.get_level_values('call_history_id').unique()
         self.drop_calls(calls_or_hids=call_hids, delete_dependents=True, conn=conn)
-- 
2.43.0


From 48f50a187ca4087eee9a686419bd9e42028a04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 36/66] fix: a global that cannot be hashed does not make the
 storage unusable

---
 mandala/deps/versioner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/versioner.py b/mandala/deps/versioner.py
index e511815..51d87f3 100644
--- a/mandala/deps/versioner.py
+++ b/mandala/deps/versioner.py
@@ -162,7 +162,15 @@ class Versioner:
                 and dep_key not in result_graph.nodes.keys()
             ):
                 obj = node.load_obj(skip_missing=self.skip_missing_deps, skip_silently=self.skip_missing_silently)
-                fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
+                if isinstance(node, GlobalVarNode):
+                    # represent it like the tracer does
+                    fallback_result[dep_key] = GlobalVarNode.from_obj(
+                        obj=obj, dep_key=dep_key,
+                        skip_unhashable=self.skip_unhashable_globals,
+                        skip_silently=self.skip_globals_silently,
+                    )
+                else:
+                    fallback_result[dep_key] = node.from_obj(obj=obj, dep_key=dep_key)
         nodes = {**result_graph.nodes, **fallback_result}
         # fill in the gaps with a static crawl
         static_result, objs = crawl_static(
-- 
2.43.0


From 2ea463fa81084745a36a4a1448100ec32bd9ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 37/66] fix: skip functions without source code, such as a
 dataclass's methods

---
 mandala/deps/crawler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mandala/deps/crawler.py b/mandala/deps/crawler.py
index 4826001..7c780bc 100644
--- a/mandala/deps/crawler.py
+++ b/mandala/deps/crawler.py
@@ -34,7 +34,14 @@ def crawl_obj(
             # exclude non-local functions
             return
         dep_key = (module_name, v.__qualname__)
-        node = CallableNode.from_obj(obj=v, dep_key=dep_key)
+        try:
+            node = CallableNode.from_obj(obj=v, dep_key=dep_key)
+        except RuntimeError:
+            # generated code, e.g. the methods of a dataclass, has no source
+            if strict:
+                raise
+            logger.debug(f"Skipping {dep_key}: no source code")
+            return
         result[dep_key] = node
         objs_result[dep_key] = obj
     if isinstance(obj, type):
-- 
2.43.0


From 572e1b0e3b485b018778b47e4aa9cc2ed933d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 38/66] fix: cleanup and simplify of a computation frame remove
 the empty nodes

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 3afb377..9db7ef5 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2061,7 +2061,7 @@ class ComputationFrame:
         """
         for node in list(self.nodes):
             if not self.sets[node]:
-                self.drop_node(node)
+                self.drop_node(node, inplace=True)
         # for node in list(self.nodes):
         #     for other_node in list(self.nodes):
         #         if node == other_node: continue
@@ -2074,7 +2074,7 @@ class ComputationFrame:
         # remove empty nodes
         for node in list(res.nodes):
             if not res.sets[node]:
-                res.drop_node(node)
+                res.drop_node(node, inplace=True)
         return res if not inplace else None
 
     ############################################################################
-- 
2.43.0


From 711f23415638b73d373beb5ccd95d14e89798fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 39/66] fix: dropping a call removes it from its function node
 and tolerates outputs not in the frame

---
 mandala/cf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 9db7ef5..6e15f17 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -298,7 +298,7 @@ class ComputationFrame:
         for (src, dst, label) in res.edges():
             if src == fname or dst == fname:
                 res._drop_edge(src, dst, label)
-        hids = res.fs[fname]
+        hids = list(res.fs[fname])
         for hid in hids:
             res.drop_call(fname, hid)
         del res.fs[fname]
@@ -401,6 +401,7 @@ class ComputationFrame:
         Drop a call from the given function node only. This checks
         if the call is referenced by multiple function nodes.
         """
+        self.fs[fname].remove(hid)
         if (
             len(self.callinv[hid]) == 1
         ):  # if this is the only function containing the call
@@ -408,10 +409,10 @@ class ComputationFrame:
             del self.calls[hid]
             del self.callinv[hid]
             for output in call.outputs.values():
-                del self.creator[output.hid]
+                self.creator.pop(output.hid, None)
             for inp in call.inputs.values():
                 if inp.hid in self.consumers:
-                    self.consumers[inp.hid].remove(hid)
+                    self.consumers[inp.hid].discard(hid)
                     if len(self.consumers[inp.hid]) == 0:
                         del self.consumers[inp.hid]
         else:  # if there are other functions containing the call
-- 
2.43.0


From 0221a62c8777ea0c62978df7e5072357e4f2e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 40/66] fix: dropping the last edge with a label leaves no
 trace of the label

---
 mandala/cf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 6e15f17..bec2f5c 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -326,7 +326,11 @@ class ComputationFrame:
         Internal method to remove an edge from the computation frame inplace.
         """
         self.out[src][label].remove(dst)
+        if not self.out[src][label]:
+            del self.out[src][label]
         self.inp[dst][label].remove(src)
+        if not self.inp[dst][label]:
+            del self.inp[dst][label]
 
     def edges(self) -> List[Tuple[str, str, str]]:
         return [
-- 
2.43.0


From 692b14ec786c00224531c62d33be6be9980c5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 41/66] fix: restricting a computation frame to some elements
 keeps the inverse index right

---
 mandala/cf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index bec2f5c..c7ed9b8 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -666,8 +666,14 @@ class ComputationFrame:
         call_hids_subset = get_nullable_union(*fs.values())
         refs = {hid: res.refs[hid] for hid in ref_hids_subset}
         calls = {hid: res.calls[hid] for hid in call_hids_subset}
-        refinv = {hid: res.refinv[hid] for hid in ref_hids_subset}
-        callinv = {hid: res.callinv[hid] for hid in call_hids_subset}
+        refinv = {
+            hid: {vname for vname in res.refinv[hid] if hid in vs[vname]}
+            for hid in ref_hids_subset
+        }
+        callinv = {
+            hid: {fname for fname in res.callinv[hid] if hid in fs[fname]}
+            for hid in call_hids_subset
+        }
         creator = {
             hid: res.creator[hid]
             for hid in ref_hids_subset
-- 
2.43.0


From c710b1e2bcf321c28de712523b686e029d08e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 42/66] fix: renaming a variable does not destroy another node
 or the variable itself

---
 mandala/cf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index c7ed9b8..54758c3 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -254,7 +254,13 @@ class ComputationFrame:
         return res if not inplace else None
 
     def rename_var(self, vname: str, new_vname: str, inplace: bool = False) -> Optional["ComputationFrame"]:
+        if vname not in self.vs:
+            raise ValueError(f"Variable {vname} not found in the CF")
+        if new_vname != vname and new_vname in self.nodes:
+            raise ValueError(f"Node {new_vname} already exists in the CF")
         res = self if inplace else self.copy()
+        if new_vname == vname:
+            return res if not inplace else None
         res.vs[new_vname] = res.vs[vname]
         res.inp[new_vname] = res.inp[vname]
         res.out[new_vname] = res.out[vname]
-- 
2.43.0


From 6deca4244b0bcaab043dc4ed519aca16b84335dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 43/66] fix: merging a variable into another does not change
 the original frame unless inplace

---
 mandala/cf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 54758c3..a33e316 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1985,9 +1985,9 @@ class ComputationFrame:
             raise ValueError(f"Ref {hid} not in variable {source_vname}")
         res.vs[source_vname].remove(hid)
         res.vs[target_vname].add(hid)
-        #! update self.refinv
-        self.refinv[hid].remove(source_vname)
-        self.refinv[hid].add(target_vname)
+        #! update the inverse index
+        res.refinv[hid].remove(source_vname)
+        res.refinv[hid].add(target_vname)
         return res if not inplace else None
 
     def merge_into(
@@ -2002,7 +2002,7 @@ class ComputationFrame:
         ### first, update the elements
         if not res.sets[node_to_merge] <= res.sets[merge_into]:
             for hid in res.sets[node_to_merge] - res.sets[merge_into]:
-                self.move_ref(node_to_merge, merge_into, hid, inplace=True)
+                res.move_ref(node_to_merge, merge_into, hid, inplace=True)
         # for hid in res.sets[node_to_merge]:
         #     # remove from the refinv
         #     if node_to_merge in res.refinv[hid]:
-- 
2.43.0


From 9779cb8391a72a9bc6c8e482886baf177a8f638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 44/66] fix: neighbors along several edges between the same
 nodes are all found

---
 mandala/cf.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index a33e316..c1fbb87 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -580,22 +580,15 @@ class ComputationFrame:
         are connected to the given elements.
         """
         res = {}
+        #! there can be several edges between a pair of nodes
         if direction in ["back", "both"]:
-            edges = self.in_edges(node)
-            res.update(
-                {
-                    src: self.get_adj_elts_edge((src, dst, label), hids, "back")
-                    for (src, dst, label) in edges
-                }
-            )
+            for edge in self.in_edges(node):
+                elts = self.get_adj_elts_edge(edge, hids, "back")
+                res[edge[0]] = res.get(edge[0], set()) | elts
         if direction in ["forward", "both"]:
-            edges = self.out_edges(node)
-            res.update(
-                {
-                    dst: self.get_adj_elts_edge((src, dst, label), hids, "forward")
-                    for (src, dst, label) in edges
-                }
-            )
+            for edge in self.out_edges(node):
+                elts = self.get_adj_elts_edge(edge, hids, "forward")
+                res[edge[1]] = res.get(edge[1], set()) | elts
         return res
 
     def select_nodes(self, nodes: Iterable[str]) -> "ComputationFrame":
-- 
2.43.0


From 45c890f48a51b4f9556c769f2a0461c7d1c4ea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 45/66] fix: recursive expansion goes on until nothing is
 added, not only while nodes are added

---
 mandala/cf.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c1fbb87..7060440 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1080,6 +1080,12 @@ class ComputationFrame:
         # indexer without actually adding them to the CF
         raise NotImplementedError()
     
+    def _get_size(self) -> Tuple[int, int]:
+        """
+        The numbers of edges and of elements over all nodes
+        """
+        return len(self.edges()), sum(len(elts) for elts in self.sets.values())
+
     def _expand_unidirectional(
             self,
             direction: Literal["back", "forward"],
@@ -1093,7 +1099,7 @@ class ComputationFrame:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
-                current_size = len(res.nodes)
+                current_size = res._get_size()
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1104,7 +1110,7 @@ class ComputationFrame:
                     recursive=recursive,
                     reuse_existing=reuse_existing,
                 )
-                new_size = len(res.nodes)
+                new_size = res._get_size()
                 if new_size == current_size:
                     break
                 if not recursive:
@@ -1120,7 +1126,7 @@ class ComputationFrame:
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-        ref_hids = set.union(*expandable_elts.values())
+        ref_hids = get_nullable_union(*expandable_elts.values())
         calls = res.storage.get_creators(ref_hids) if direction == "back" else res.storage.get_consumers(ref_hids)
         if verbose: print(f'Found {len(calls)} calls to expand')
         if skip_existing:
@@ -1212,11 +1218,15 @@ class ComputationFrame:
         `expand_forward` until a fixed point is reached.
         """
         res = self if inplace else self.copy()
-        cur_size = len(res.refs) + len(res.calls)
+        def get_size():
+            #! without reuse of nodes, the graph can be unfolded indefinitely
+            return res._get_size() if reuse_existing else len(res.refs) + len(res.calls)
+
+        cur_size = get_size()
         while True:
             res.expand_back(inplace=True, skip_existing=skip_existing, verbose=verbose, reuse_existing=reuse_existing, recursive=True)
             res.expand_forward(inplace=True, skip_existing=skip_existing, verbose=verbose, reuse_existing=reuse_existing, recursive=True)
-            new_size = len(res.refs) + len(res.calls)
+            new_size = get_size()
             if new_size == cur_size:
                 break
             else:
-- 
2.43.0


From 35d640890cd87d3d3474e99a2a2d1ce1aae31d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 46/66] fix: a variable and a function of a computation frame
 do not get the same name

---
 mandala/cf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 7060440..e3f8307 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2184,21 +2184,21 @@ class ComputationFrame:
                 # this is a special case
                 return self.get_new_vname('var_0')
             i = int(name_hint.split('_')[-1])
-            while f"{v}_{i}" in self.vs:
+            while f"{v}_{i}" in self.nodes:
                 i += 1
             return f"{v}_{i}"
-        elif name_hint not in self.vs:
+        elif name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.vs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
 
     def get_new_fname(self, name_hint: str) -> str:
-        if name_hint not in self.fs:
+        if name_hint not in self.nodes:
             return name_hint
         i = 0
-        while f"{name_hint}_{i}" in self.fs:
+        while f"{name_hint}_{i}" in self.nodes:
             i += 1
         return f"{name_hint}_{i}"
     
-- 
2.43.0


From 3c0864454ba7ec5ce2f58dbb4c2c465cfa3189a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 47/66] fix: a computation frame can be made from references
 that repeat

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index e3f8307..c51f0fa 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2140,7 +2140,7 @@ class ComputationFrame:
         res = ComputationFrame(storage=storage)
         vname = res._add_var(vname=res.get_new_vname("v"))
         for ref in refs:
-            res.add_ref(vname, ref)
+            res.add_ref(vname, ref, allow_existing=True)
         return res
     
     @staticmethod
@@ -2149,7 +2149,7 @@ class ComputationFrame:
         for vname, refs in vars.items():
             vname = res._add_var(vname=vname)
             for ref in refs:
-                res.add_ref(vname, ref)
+                res.add_ref(vname, ref, allow_existing=True)
         return res
 
     ############################################################################
-- 
2.43.0


From 6bfa11cdc55b4ca4e246a89eeff3d1877970c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 48/66] fix: expansion that reuses a function node links the
 calls already in it

---
 mandala/cf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c51f0fa..8f6e2a8 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -376,7 +376,6 @@ class ComputationFrame:
         if call.hid in self.fs[fname]:
             if not allow_existing:
                 raise ValueError(f"Call {call.hid} already exists")
-            return
         self.calls[call.hid] = call
         self.fs[fname].add(call.hid)
         if call.hid not in self.callinv:
@@ -1067,6 +1066,10 @@ class ComputationFrame:
                 self._add_edge(src, dst, label)
             
             ### finally, add the calls to the CF
+            #! the calls already there must also be linked along the new edges
+            existing_calls = [self.calls[hid] for hid in self.fs[fname]]
+            for call in existing_calls:
+                self.add_call(fname, call, with_refs=True, allow_existing=True)
             for call in group_calls:
                 self.add_call(fname, call, with_refs=True, allow_existing=reuse_existing)
 
-- 
2.43.0


From d8ce12929b19913e0182166c76e8613e1a3ae5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 49/66] fix: making a computation frame from a dictionary
 leaves the dictionary as it is

---
 mandala/storage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index f1ed9f3..47236ad 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -1223,10 +1223,8 @@ class Storage:
         elif all(isinstance(elt, Ref) for elt in source):
             return ComputationFrame.from_refs(refs=source, storage=self)
         elif isinstance(source, dict):
-            for k in source.keys():
-                if isinstance(source[k], Ref):
-                    source[k] = [source[k]]
-            return ComputationFrame.from_vars(vars=source, storage=self)
+            vars = {k: [v] if isinstance(v, Ref) else v for k, v in source.items()}
+            return ComputationFrame.from_vars(vars=vars, storage=self)
         elif all(isinstance(elt, str) for elt in source):
             # must be hids
             refs = [self.load_ref(hid, in_memory=True) for hid in source]
-- 
2.43.0


From 81a67245554e9cae8a74065a8dcfcc9a6849f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 50/66] fix: the difference of computation frames contains no
 calls with missing inputs or outputs

---
 mandala/cf.py | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 8f6e2a8..680b58a 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -150,6 +150,26 @@ class ComputationFrame:
         assert all(k == ref.hid for k, ref in self.refs.items())
         assert all(k == call.hid for k, call in self.calls.items())
 
+    def _get_incomplete_calls(self) -> Dict[str, Set[str]]:
+        """
+        Get the calls in each function node (if any) with an input/output that's
+        missing from a variable connected to the node by an edge for this
+        input/output (see `_check`).
+        """
+        res = {}
+        for fname, call_hids in self.fs.items():
+            for hid in call_hids:
+                call = self.calls[hid]
+                proj = get_name_proj(call.op)
+                if any(
+                    ref.hid not in self.vs[vname]
+                    for io, adj in ((call.inputs, self.inp), (call.outputs, self.out))
+                    for name, ref in io.items()
+                    for vname in adj[fname].get(proj(name), set())
+                ):
+                    res.setdefault(fname, set()).add(hid)
+        return res
+
     @property
     def vnames(self) -> Set[str]:
         return set(self.vs.keys())
@@ -871,7 +891,20 @@ class ComputationFrame:
         res = a.select_subsets(elts=to_keep)
         #! not every symmetric difference results in a valid CF.
         # We fix the mess by enforcing invariants via computational reachability
-        res = res.drop_unreachable(direction="forward", how="strong")
+        while True:
+            incomplete = res._get_incomplete_calls()
+            initial_state = {
+                node: elts - incomplete.get(node, set())
+                for node, elts in res.get_source_elts().items()
+            }
+            to_keep = res.get_reachable_elts(
+                initial_state=initial_state, direction="forward", how="strong"
+            )
+            for fname, hids in incomplete.items():
+                to_keep[fname] -= hids
+            res = res.select_subsets(elts=to_keep)
+            if not incomplete:
+                break
         res.cleanup(inplace=True)
         return res
 
-- 
2.43.0


From d5337f5d68fa6d7644fade23f4d2e67e7f511770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 51/66] fix: expansion links a call with the variables of all
 elements of a list

---
 mandala/cf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 680b58a..c646046 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -974,7 +974,10 @@ class ComputationFrame:
                     connected_vnames = self.refinv[ref.hid] & set(available_nodes)
                     if not connected_vnames:
                         continue
-                    identifying_variables[label] = connected_vnames
+                    #! several inputs/outputs can have the same label
+                    identifying_variables[label] = (
+                        identifying_variables.get(label, set()) | connected_vnames
+                    )
             # get a hashable canonical representation of the group
             group_id = (
                 op_id,
-- 
2.43.0


From 1b4ea8c4ccbd3aca1c5a16d145702a23d73f8757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 52/66] fix: the intersection of computation frames has no
 elements outside its nodes

---
 mandala/cf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c646046..59e28f5 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -870,8 +870,9 @@ class ComputationFrame:
             refs=refs,
             calls=calls,
         )
-        # every intersection is a valid CF
-        return res
+        #! a ref/call can be in both frames, but in no node of both
+        # after leaving these out, every intersection is a valid CF
+        return res.select_nodes(res.nodes)
 
     @staticmethod
     def _binary_setwise_difference(
-- 
2.43.0


From 37ed7c8775ecabf45dcfe800ab526478482b336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 53/66] fix: selecting values in a computation frame with
 unconnected functions

---
 mandala/cf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 59e28f5..c0e7a68 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1971,8 +1971,8 @@ class ComputationFrame:
         return result
 
     def _add_adj_calls(self, vars_view: Dict[str, Set[str]]) -> Dict[str, Set[str]]:
-        res = vars_view.copy()
-        for vname in res.keys():
+        res = {**{fname: set() for fname in self.fnames}, **vars_view}
+        for vname in vars_view.keys():
             new = self.get_adj_elts(node=vname, hids=res[vname], direction="both")
             res = get_setdict_union(res, new)
         return res
-- 
2.43.0


From 53967a8b201d8326e77317a2f69c92e954b71f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 54/66] fix: computation frames with function nodes without
 calls can be printed and expanded

---
 mandala/cf.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c0e7a68..234fe5f 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -180,12 +180,13 @@ class ComputationFrame:
     
     def ops(self) -> Dict[str, Op]:
         """
-        Return a dict of {fname -> Op for the `Call`s in the function node}
+        Return a dict of {fname -> Op for the `Call`s in the function node}, 
+        for the function nodes that have any calls
         """
         res = {}
         for fname, call_hids in self.fs.items():
             if not call_hids:
-                raise NotImplementedError("TODO: handle empty function nodes")
+                continue
             res[fname] = self.calls[next(iter(call_hids))].op
         return res
 
@@ -1034,11 +1035,12 @@ class ComputationFrame:
             if reuse_existing:
                 group_hids = {call.hid for call in group_calls}
                 found_func_match = False
+                ops = self.ops()
                 for fname in sorted(self.fs):
                     if group_hids <= self.fs[fname] or (self.fs[fname] <= group_hids and len(self.fs[fname]) != 0):
                         found_func_match = True
                         break
-                    elif self.ops()[fname].name == op_id:
+                    elif fname in ops and ops[fname].name == op_id:
                         found_func_match = True
                         break
             if found_func_match:
@@ -2259,12 +2261,14 @@ class ComputationFrame:
         if isolated_vars:
             lines.append(", ".join(sorted(isolated_vars)))
         for fname in self.sort_nodes(self.fnames):
-            op = self.ops()[fname]
+            op = self.ops().get(fname)
             input_name_to_vars = self.inp[fname] # input name -> {variables connected}
             output_name_to_vars = self.out[fname] # output name -> {variables connected}
             
             output_names = output_name_to_vars.keys()
-            if op.output_names is not None:
+            if op is None: # no calls to tell the order
+                output_to_idx = {name: name for name in output_names}
+            elif op.output_names is not None:
                 output_to_idx = {name: idx for idx, name in enumerate(op.output_names)}
             else:
                 output_to_idx = {name: int(name.split('_')[1]) for name in output_names}
@@ -2335,8 +2339,9 @@ class ComputationFrame:
                 additional_lines_formats=additional_lines_formats,
             )
         fnodes = {}
+        func_ops = self.ops()
         for fname in self.fnames:
-            op_name = self.calls[next(iter(self.fs[fname]))].op.name
+            op_name = func_ops[fname].name if fname in func_ops else "?"
             if verbose:
                 fname_versions = num_versions[fname]
                 if fname_versions > 1:
-- 
2.43.0


From f38eda376d1da3dbe2f6a2cf032c428d656f347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 55/66] fix: a union in which a variable and a function have
 the same name is refused

---
 mandala/cf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 234fe5f..4148d0d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -127,6 +127,7 @@ class ComputationFrame:
         assert set(self.consumers.keys()) <= set(self.refs.keys())
         assert get_nullable_union(*self.consumers.values()) <= set(self.calls.keys())
         edges = self.edges()
+        assert not self.vs.keys() & self.fs.keys()
         all_nodes = self.vs.keys() | self.fs.keys()
         assert all([src in all_nodes and dst in all_nodes for src, dst, _ in edges])
         # check the calls
-- 
2.43.0


From 42a730c390ec718e5fb85a100e401d9c3b341be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 56/66] fix: the union of computation frames knows the creators
 and consumers of all references

---
 mandala/cf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 4148d0d..1eb57a3 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -840,6 +840,12 @@ class ComputationFrame:
             calls=calls,
         )
         res._check()  #! not every union results in a valid CF
+        # a ref and its creator/consumer can come from different frames
+        for fname, call_hids in res.fs.items():
+            for call_hid in call_hids:
+                res.add_call(
+                    fname, res.calls[call_hid], with_refs=True, allow_existing=True
+                )
         return res
 
     @staticmethod
-- 
2.43.0


From c10149c8033c9e1483b64d6c10e0f4feea358fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 57/66] fix: recursive forward expansion finds all calls that
 use the references it adds

---
 mandala/cf.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mandala/cf.py b/mandala/cf.py
index 1eb57a3..b93f4cb 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1144,11 +1144,13 @@ class ComputationFrame:
             skip_existing: bool = False,
             inplace: bool = False,
             verbose: bool = False,
+            new_hids: Optional[Set[str]] = None, # refs to expand in any case
     ) -> Optional["ComputationFrame"]:
         res = self if inplace else self.copy()
         if varnames is None:
             while True: # recurse until a fixed point is reached
                 current_size = res._get_size()
+                current_hids, current_calls = set(res.refs), set(res.calls)
                 varnames = res.vs.keys()
                 res._expand_unidirectional(
                     direction=direction,
@@ -1158,7 +1160,14 @@ class ComputationFrame:
                     verbose=verbose,
                     recursive=recursive,
                     reuse_existing=reuse_existing,
+                    new_hids=new_hids,
                 )
+                new_calls = [v for k, v in res.calls.items() if k not in current_calls]
+                new_hids = {
+                    ref.hid 
+                    for call in new_calls
+                    for ref in (call.inputs if direction == "back" else call.outputs).values()
+                } - current_hids
                 new_size = res._get_size()
                 if new_size == current_size:
                     break
@@ -1172,6 +1181,12 @@ class ComputationFrame:
         # sink elements, because there may be non-sink elements that don't have
         # all their consumer calls in the CF!
         expandable_elts = res.get_source_elts() if direction == "back" else res.get_sink_elts()
+        #! but none of the refs added by a recursive expansion has been expanded
+        # yet, even if it is an input of a call added on the way
+        if new_hids:
+            expandable_elts = {
+                k: v | (new_hids & res.sets[k]) for k, v in expandable_elts.items()
+            }
         expandable_elts = {k: v for k, v in expandable_elts.items() if k in varnames}
         if verbose:
             print(f'Found the following number elements to expand in direction {direction}:\n{textwrap.indent(pprint.pformat({k: len(v) for k, v in expandable_elts.items()}), "  ")}')
-- 
2.43.0


From 016786e3d6edb8331d491b92906f0f476f8ba146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 58/66] fix: the table of a single node contains values, and
 can be made for a function

---
 mandala/cf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b93f4cb..b215665 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1422,8 +1422,11 @@ class ComputationFrame:
         if len(nodes) == 0:
             nodes = tuple(self.nodes)
         elif len(nodes) == 1:
-            values = list(self.get_var_values(nodes[0]))
-            return pd.DataFrame(values, columns=[nodes[0]])
+            elts = pd.Series(list(self.values[nodes[0]]), dtype=object)
+            df = pd.DataFrame({nodes[0]: elts})
+            if not include_calls and nodes[0] in self.fnames:
+                df = df[[]]
+            return df if values == "refs" else self.eval_df(df, skip_cols=lazy_vars)
         restricted_cf = self.midstream(*nodes)
         if verbose:
             graph_desc = restricted_cf.get_graph_desc()
-- 
2.43.0


From 0bd19e984778b7ed2002424dd04362639103907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 59/66] fix: nodes that are not connected are part of
 midstream() and of tables

---
 mandala/cf.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index b215665..c1d241b 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -778,7 +778,7 @@ class ComputationFrame:
         Get the subprogram "spanned by" the given nodes. 
 
         Specifically, this means:
-        - obtain all nodes on paths between the given nodes;
+        - obtain the given nodes and all nodes on paths between them;
         - restrict to the subgraph induced by these nodes;
         - restrict to the computations which are reachable (in a sense
         controlled by the `how` parameter) from **the source elements in this
@@ -789,7 +789,7 @@ class ComputationFrame:
             for end_node in nodes:
                 if start_node != end_node:
                     edges |= self.get_all_edges_on_paths_between(start_node, end_node)
-        midstream_nodes = get_nullable_union(*[set(edge) for edge in edges])
+        midstream_nodes = set(nodes) | get_nullable_union(*[set(edge) for edge in edges])
         logging.debug(f'Selected {midstream_nodes} from {self.nodes}')
         # first, restrict to the subgraph induced by the midstream nodes
         pre_res = self.select_nodes(midstream_nodes)
@@ -1754,11 +1754,17 @@ class ComputationFrame:
             )
             for vname in sorted_varnames
         ]
-        result = history_dfs[0]
+        # (there may be no variables with final elements)
+        result = history_dfs[0] if len(history_dfs) > 0 else pd.DataFrame()
         for df, varname in zip(history_dfs[1:], sorted_varnames[1:]):
             shared_cols = set(result.columns) & set(df.columns)
             if verbose:
                 print(f'   Merging history for the variable {varname} on columns: {shared_cols}')
+            if len(shared_cols) == 0: # nothing belongs together
+                result = pd.concat([result, df], ignore_index=True)
+                if how == "inner":
+                    result = result.iloc[:0]
+                continue
             result = pd.merge(
                 result, df, how=how, on=list(shared_cols), suffixes=("", "")
             )
-- 
2.43.0


From d7dc0c74745342faec4f7c61a3a386529e579867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 60/66] fix: calls of functions without outputs are part of
 tables

---
 mandala/cf.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index c1d241b..4706289 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1434,10 +1434,12 @@ class ComputationFrame:
             print(
                 f"Extracting tuples from the computation graph:\n{graph_desc}"
             )
+        # variables with final elements, and functions without outputs
         vnames = {
             x
             for x, sink_elts in restricted_cf.get_sink_elts().items()
-            if x in restricted_cf.vnames and len(sink_elts) > 0
+            if len(sink_elts) > 0
+            and (x in restricted_cf.vnames or len(restricted_cf.out_edges(x)) == 0)
         }
         if verbose:
             print(f'Found variables {vnames} containing final elements')
@@ -1554,18 +1556,18 @@ class ComputationFrame:
         are connected to the variable in the appropriate way.
         """
         total_res = {vname: hids}
-        if vname not in self.vnames:
-            raise NotImplementedError()
         for hid in hids:
-            if hid not in self.creator:
+            # (for a function, the history of its calls themselves)
+            is_call = vname in self.fnames
+            if not is_call and hid not in self.creator:
                 continue
             res = {}
-            creator_hid = self.creator[hid]
+            creator_hid = hid if is_call else self.creator[hid]
             creator_call = self.calls[creator_hid]
             creator_inv_proj = get_reverse_proj(creator_call)
             # creator_input_uids = {r.hid for r in creator_call.inputs.values()}
             # nodes where creator call appears
-            creator_fnames = self.callinv[creator_hid] & self.in_neighbors(node=vname)
+            creator_fnames = {vname} if is_call else self.callinv[creator_hid] & self.in_neighbors(node=vname)
             for creator_fname in creator_fnames:
                 if include_calls:
                     if creator_fname not in res:
@@ -1632,7 +1634,7 @@ class ComputationFrame:
         history of all the refs in the variable `vname`.
         """
         rows = []
-        for hid in self.vs[vname]:
+        for hid in self.sets[vname]:
             total_history = self.get_total_history(
                 vname, {hid}, include_calls=include_calls
             )
-- 
2.43.0


From 34d6cb221d6337fc2ed7e3e83fbd95a319d3e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 61/66] fix: rows of a table without common values are not
 joined

---
 mandala/cf.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 4706289..2c9a39d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1762,14 +1762,15 @@ class ComputationFrame:
             shared_cols = set(result.columns) & set(df.columns)
             if verbose:
                 print(f'   Merging history for the variable {varname} on columns: {shared_cols}')
-            if len(shared_cols) == 0: # nothing belongs together
-                result = pd.concat([result, df], ignore_index=True)
-                if how == "inner":
-                    result = result.iloc[:0]
-                continue
-            result = pd.merge(
-                result, df, how=how, on=list(shared_cols), suffixes=("", "")
-            )
+            # rows without any of the shared columns have nothing in common
+            rest = [x[x[list(shared_cols)].isnull().all(axis=1)] for x in (result, df)]
+            result, df = result.drop(rest[0].index), df.drop(rest[1].index)
+            if len(shared_cols) > 0:
+                result = pd.merge(
+                    result, df, how=how, on=list(shared_cols), suffixes=("", "")
+                )
+            if how == "outer":
+                result = pd.concat([result, *rest], ignore_index=True)
         # go back to refs
         result = result.applymap(eval_hids)
         return self._sort_df(result)
-- 
2.43.0


From 44c7865656dd85d94f80c64d1cc0f1f603362b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 62/66] fix: preloading keeps what is not committed yet

---
 mandala/storage.py       | 21 ++++++++++++++-------
 mandala/storage_utils.py |  5 +++++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 47236ad..2ce1ee4 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -196,18 +196,25 @@ class Storage:
 
     def preload_calls(self):
         df = self.call_storage.get_df()
+        # what is not committed yet is only in the cache
+        uncommitted = self.call_cache.df[
+            self.call_cache.df.index.get_level_values(0).isin(self.calls.dirty_hids)
+        ]
+        if len(uncommitted) > 0:
+            df = pd.concat([uncommitted, df])
+            df = df[~df.index.duplicated()]
         self.call_cache.df = df
-        self.call_cache.call_hids = set(df.index.levels[0].unique())
+        self.call_cache.call_hids = set(df.index.get_level_values(0))
     
     def preload_shapes(self):
-        self.shapes.cache = self.shapes.persistent.load_all()
-    
-    def preload_ops(self):
-        self.ops.cache = self.ops.persistent.load_all()
+        self.shapes.preload()
 
-    def preload_atoms(self):
-        self.atoms.cache = self.atoms.persistent.load_all()
+    def preload_ops(self):
+        self.ops.preload()
     
+    def preload_atoms(self):
+        self.atoms.preload()
+
     def preload(self, lazy: bool = True):
         self.preload_calls()
         self.preload_shapes()
diff --git a/mandala/storage_utils.py b/mandala/storage_utils.py
index 7c60250..0b84486 100644
--- a/mandala/storage_utils.py
+++ b/mandala/storage_utils.py
@@ -284,6 +284,11 @@ class CachedDictStorage(DictStorage):
     
     def load_all(self) -> Dict[str, Any]:
         return self.persistent.load_all()
+
+    def preload(self) -> None:
+        # what is not committed yet is only in the cache
+        uncommitted = {key: self.cache[key] for key in self.dirty_keys}
+        self.cache = {**self.load_all(), **uncommitted}
     
     def __len__(self) -> int:
         return len(self.cache)
-- 
2.43.0


From 7234d97c2c4b5ac563e78df690f9f5e90624184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 63/66] fix: saved calls with collections are found where new
 calls are not allowed

---
 mandala/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/storage.py b/mandala/storage.py
index 2ce1ee4..d6b1cff 100644
--- a/mandala/storage.py
+++ b/mandala/storage.py
@@ -887,7 +887,7 @@ class Storage:
                     output_calls.extend(destr_calls)
             return main_call.outputs, main_call, input_calls + output_calls
         
-        if not self._allow_new_calls:
+        if not self._allow_new_calls and not op.__structural__:
             # caller should decide how to handle this
             raise RuntimeError(f"Call to {op.name} does not exist and new calls are not allowed.")
 
-- 
2.43.0


From 81d92e796495e320454e20ca9dbba5b07a01b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 64/66] fix: calls that share a cell of a table are deleted too

---
 mandala/cf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 2c9a39d..43716a5 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -2244,7 +2244,11 @@ class ComputationFrame:
         """
         hids = set()
         for col in df.columns:
-            hids |= {elt.hid for elt in df[col] if isinstance(elt, Call)}
+            for elt in df[col]:
+                if isinstance(elt, Call):
+                    hids.add(elt.hid)
+                elif isinstance(elt, CallCollection):
+                    hids |= {call.hid for call in elt.calls}
         self.storage.drop_calls(calls_or_hids=hids, delete_dependents=True)
 
     ############################################################################
-- 
2.43.0


From dde11996537493852c88e85b9e5c91d70ef9763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 65/66] fix: values are connected with their creators only by
 the output they are

---
 mandala/cf.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 43716a5..79b867d 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -559,8 +559,18 @@ class ComputationFrame:
             ):  # this is a variable node; we are looking for the calls that created the hids
                 assert hids <= self.vs[dst]  # make sure the hids are valid
                 return {
-                    self.creator[hid] for hid in hids if hid in self.creator
-                } & self.fs[src]
+                    self.creator[hid]
+                    for hid in hids
+                    if self.creator.get(hid) in self.fs[src]
+                    #! it can be another output of its creator
+                    and any(
+                        self.calls[self.creator[hid]].outputs[name].hid == hid
+                        for name in self.get_names_projecting_to(
+                            self.creator[hid], label
+                        )
+                        if name in self.calls[self.creator[hid]].outputs
+                    )
+                }
             else:  # this is an op node; we are looking for the inputs of the calls that have the hids as outputs
                 assert hids <= self.fs[dst]  # make sure the hids are valid
                 return self.vs[src] & {
@@ -1567,7 +1577,11 @@ class ComputationFrame:
             creator_inv_proj = get_reverse_proj(creator_call)
             # creator_input_uids = {r.hid for r in creator_call.inputs.values()}
             # nodes where creator call appears
-            creator_fnames = {vname} if is_call else self.callinv[creator_hid] & self.in_neighbors(node=vname)
+            creator_fnames = {vname} if is_call else {
+                edge[0]
+                for edge in self.in_edges(node=vname)
+                if creator_hid in self.get_adj_elts_edge(edge, {hid}, "back")
+            }
             for creator_fname in creator_fnames:
                 if include_calls:
                     if creator_fname not in res:
-- 
2.43.0


From 289c75b750557b2b864e4dccc21fa5c0fc27efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 66/66] fix: attaching a frame loads its references into memory

---
 mandala/cf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandala/cf.py b/mandala/cf.py
index 79b867d..7373420 100644
--- a/mandala/cf.py
+++ b/mandala/cf.py
@@ -1474,7 +1474,7 @@ class ComputationFrame:
     ### evaluation
     ############################################################################
     def attach(self):
-        self.storage.attach(list(self.refs.values()))
+        self.storage.attach(list(self.refs.values()), inplace=True)
 
     def eval_df(self, 
                 df: pd.DataFrame,
-- 
2.43.0


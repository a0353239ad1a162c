From 9d59a254ce6c1bb9d35eee454d39f7a9ec64c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 01/50] fix: release the lock of a shared cell or pool item
 when its update fails

---
 titus/genpy.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..b27c450 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -538,10 +538,9 @@ class Cell(PersistentStorageItem):
     def update(self, state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
         if self.shared:
-            self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            with self.lock:
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value
@@ -570,26 +569,23 @@ class Pool(PersistentStorageItem):
             contents = contents[:27] + "..."
         return "Pool(" + ("shared, " if self.shared else "") + ("rollback, " if self.rollback else "") + contents + ")"
 
+    def itemLock(self, item):
+        with self.locklock:
+            if item not in self.locks:
+                self.locks[item] = threading.Lock()
+            return self.locks[item]
+
     def update(self, state, scope, path, to, init, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
 
         head, tail = path[0], path[1:]
 
         if self.shared:
-            self.locklock.acquire()
-            if head in self.locks:
-                self.locks[head].acquire()
-            else:
-                self.locks[head] = threading.Lock()
-                self.locks[head].acquire()
-            self.locklock.release()
-
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-
-            result = self.value[head]
-            self.locks[head].release()
+            with self.itemLock(head):
+                if head not in self.value:
+                    self.value[head] = init
+                self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value[head]
 
         else:
             if head not in self.value:
-- 
2.43.0


From 4f6fa1e82f2fe0c4ccc9b227aeadd30d45499924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 02/50] fix: a new pool item appears only when the update that
 creates it succeeds

---
 titus/genpy.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index b27c450..1909bdd 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -582,16 +582,14 @@ class Pool(PersistentStorageItem):
 
         if self.shared:
             with self.itemLock(head):
-                if head not in self.value:
-                    self.value[head] = init
-                self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-                result = self.value[head]
+                old = self.value[head] if head in self.value else init
+                result = update(state, scope, old, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                self.value[head] = result
 
         else:
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value[head]
+            old = self.value[head] if head in self.value else init
+            result = update(state, scope, old, tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            self.value[head] = result
 
         return result
 
-- 
2.43.0


From a102b117390bfdbf215a131eebef935ce96c6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 03/50] fix: pool-del on a shared pool waits for an update of
 the same item

---
 titus/genpy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 1909bdd..31fd1d2 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -295,11 +295,7 @@ class GeneratePython(titus.pfaast.Task):
 
             out.append("""
     def pooldel(self, name, item):
-        p = self.pools[name]
-        try:
-            del p.value[item]
-        except KeyError:
-            pass
+        self.pools[name].delete(item)
         return None
 """)
 
@@ -593,6 +589,13 @@ class Pool(PersistentStorageItem):
 
         return result
 
+    def delete(self, item):
+        if self.shared:
+            with self.itemLock(item):
+                self.value.pop(item, None)
+        else:
+            self.value.pop(item, None)
+
     def maybeSaveBackup(self):
         if self.rollback:
             self.oldvalue = dict(self.value)
-- 
2.43.0


From bda7da344e9ebf7dc2a3c8de3afbc9e6418da0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 04/50] fix: deadlock check sees pool-del, function references,
 call and partial arguments in updaters

---
 titus/genpy.py  | 18 ++++++++++++++----
 titus/pfaast.py |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 31fd1d2..7f78073 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1335,23 +1335,33 @@ def checkForDeadlock(engineConfig, engine):
 
     class CellToOrPoolTo(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo))
+            return isinstance(ast, (CellTo, PoolTo, PoolDel))
         def __call__(self, slotTo):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + slotTo.desc)
 
     class SideEffectFunction(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, Call) and engine.hasSideEffects(ast.name)
+            return isinstance(ast, (Call, FcnRef, FcnRefFill)) and engine.hasSideEffects(ast.name)
         def __call__(self, call):
             raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
 
+    class SideEffectCallUserFcn(object):
+        def isDefinedAt(self, ast):
+            return isinstance(ast, CallUserFcn)
+        def __call__(self, call):
+            for fcnName in call.fcnNames:
+                if engine.hasSideEffects("u." + fcnName):
+                    raise PFAInitializationException("inline function in cell-to or pool-to may call function \"u.{0}\", which has side-effects".format(fcnName))
+
     class WithFcnDef(object):
         def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, FcnDef)
+            return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, (FcnDef, FcnRefFill))
         def __call__(self, slotTo):
-            for x in slotTo.to.body:
+            # the arguments of a partially applied function are evaluated whenever it is called
+            for x in slotTo.to.body if isinstance(slotTo.to, FcnDef) else slotTo.to.fill.values():
                 x.collect(CellToOrPoolTo())
                 x.collect(SideEffectFunction())
+                x.collect(SideEffectCallUserFcn())
     engineConfig.collect(WithFcnDef())
 
 class PFAEngine(object):
diff --git a/titus/pfaast.py b/titus/pfaast.py
index f3159b1..d49c6c5 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1834,6 +1834,7 @@ class CallUserFcn(Expression):
             fcnNames = nameContext.retType.symbols
         else:
             raise PFASemanticException("\"call\" name should be an enum, but is " + ts(nameContext.retType), self.pos)
+        self.fcnNames = fcnNames   # for titus.genpy.checkForDeadlock
         nameToNum = dict((x, i) for i, x in enumerate(fcnNames))
 
         scope = symbolTable.newScope(True, True)
-- 
2.43.0


From 673719980ac076cb6d2f7aa0e5e62bdb540d66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 05/50] fix: a.median and a.ntile compare type names by value,
 not by object identity

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..7747f8b 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -760,7 +760,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -807,7 +807,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From 48ec3a488d4ca3eb6f079cc7c6ed9a13263db76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 06/50] fix: begin, end and merge have their own timeouts; a
 loop in merge no longer fails

---
 titus/genpy.py   | 6 +++---
 titus/options.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 7f78073..90c52cf 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -207,7 +207,7 @@ class GeneratePython(titus.pfaast.Task):
             if len(begin) > 0:
                 out.append("""
     def begin(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'begin', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata})
         if self.config.version is not None:
@@ -281,7 +281,7 @@ class GeneratePython(titus.pfaast.Task):
                 
                 out.append("""
     def end(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'end', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
         if self.config.version is not None:
@@ -487,7 +487,7 @@ class ExecutionState(object):
 
         if routine == "begin":
             self.timeout = options.timeout_begin
-        elif routine == "action":
+        elif routine == "action" or routine == "merge":
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
diff --git a/titus/options.py b/titus/options.py
index 38030e9..29127b2 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -41,8 +41,8 @@ class EngineOptions(object):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-        self.timeout_begin = longOpt("timeout", self.timeout)
-        self.timeout_action = longOpt("timeout", self.timeout)
-        self.timeout_end = longOpt("timeout", self.timeout)
+        self.timeout_begin = longOpt("timeout.begin", self.timeout)
+        self.timeout_action = longOpt("timeout.action", self.timeout)
+        self.timeout_end = longOpt("timeout.end", self.timeout)
 
         # ...
-- 
2.43.0


From 3e6fcb7bd951130c63a2286261d79f72c1620aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 07/50] fix: timeouts measure elapsed time, not the wall clock,
 which can be set forward or back

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 90c52cf..f723913 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -492,10 +492,10 @@ class ExecutionState(object):
         elif routine == "end":
             self.timeout = options.timeout_end
 
-        self.startTime = time.time()
+        self.startTime = time.monotonic()
 
     def checkTime(self):
-        if self.timeout > 0 and (time.time() - self.startTime) * 1000 > self.timeout:
+        if self.timeout > 0 and (time.monotonic() - self.startTime) * 1000 > self.timeout:
             raise PFATimeoutException("exceeded timeout of {0} milliseconds".format(self.timeout))
 
 class SharedState(object):
-- 
2.43.0


From 7aa5864a46a05f72e5b774edfbd81a1087c6523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 08/50] fix: try with a filter passes on errors that have no
 message or code

---
 titus/genpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index f723913..ac1a6d8 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1291,7 +1291,8 @@ def tryCatch(state, scope, exprs, filter):
     try:
         return exprs(state, scope)
     except Exception as err:
-        if filter is None or err.message in filter or err.code in filter:
+        # not every error has a message and a code: a timeout, or an error raised by an emit or log callback
+        if filter is None or getattr(err, "message", None) in filter or getattr(err, "code", None) in filter:
             return None
         else:
             raise err
-- 
2.43.0


From f234e18d49ecd58f582529de47eb8ef298b29d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 09/50] fix: set may assign variables of different enclosing
 scopes at once

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index f249227..7d30c59 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -148,7 +148,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From 80db818910f3ffbdddc011ce6076272177e47508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 10/50] fix: the body of try may end with an expression of type
 null

---
 titus/pfaast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index d49c6c5..5d0c410 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -6164,6 +6164,8 @@ class Try(Expression):
         if isinstance(exprType, ExceptionType):
             exprType = AvroNull()
             inferredType = AvroNull()
+        elif isinstance(exprType, AvroNull):
+            inferredType = exprType
         elif isinstance(exprType, AvroUnion):
             if AvroNull() in exprType.types:
                 inferredType = exprType
-- 
2.43.0


From 6462ca0e65aa6f608a6582fb84b24392c92c212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 11/50] fix: a snapshot may hold bytes values, and excludes
 shared state of other documents

---
 titus/genpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index ac1a6d8..bb870f5 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -42,6 +42,7 @@ import titus.version
 
 from titus.pfaast import EngineConfig
 from titus.pfaast import Cell as AstCell
+from titus.pfaast import CellPoolSource
 from titus.pfaast import Pool as AstPool
 from titus.pfaast import FcnDef
 from titus.pfaast import FcnRef
@@ -1643,8 +1644,9 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        # the state may include shared cells and pools of other documents, and bytes are Python bytes
+        newCells = dict((k, AstCell(v.avroPlaceholder, json.dumps(self.cells[k].value, default=titus.util.bytesToString), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.config.cells.items()))
+        newPools = dict((k, AstPool(v.avroPlaceholder, dict((kk, json.dumps(vv, default=titus.util.bytesToString)) for kk, vv in list(self.pools[k].value.items())), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.config.pools.items()))
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 417c00e4422f5d8f4d3b49c538f1b93441873ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 12/50] fix: cells and pools can be initialised from external
 JSON and Avro files

Avro sources called reader.read(), which does not exist, and gave a Python
object where JSON text is expected; pools rejected any source but embedded;
files and connections stayed open; and toJson wrote source: json beside the
embedded data, giving a document that cannot be loaded.
---
 titus/pfaast.py |  8 +++-----
 titus/reader.py | 41 +++++++++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 5d0c410..55ca66e 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1198,8 +1198,7 @@ class Cell(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
-            out["source"] = self.source
+        # the initial data are written in place, whatever source they were read from
         return out
 
     @titus.util.case
@@ -1230,7 +1229,7 @@ class Pool(Ast):
         if not isinstance(avroPlaceholder, (AvroPlaceholder, AvroType)):
             raise PFASyntaxException("\"avroPlaceholder\" must be an AvroPlaceholder or AvroType", pos)
 
-        if not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values())):
+        if not callable(init) and (not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values()))):
             raise PFASyntaxException("\"init\" must be a string or callable", pos)
 
         if not isinstance(shared, bool):
@@ -1298,8 +1297,7 @@ class Pool(Ast):
         out["init"] = self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
-        if self.source != CellPoolSource.EMBEDDED:
-            out["source"] = self.source
+        # the initial data are written in place, whatever source they were read from
         return out
             
     @titus.util.case
diff --git a/titus/reader.py b/titus/reader.py
index 881e38a..8074049 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -28,6 +28,7 @@ from avro.io import DatumReader
 
 import titus.util
 from titus.util import pos, bytesToString
+import titus.datatype
 
 from titus.pfaast import validSymbolName
 from titus.pfaast import validFunctionName
@@ -90,6 +91,7 @@ from titus.pfaast import Error
 from titus.pfaast import Try
 from titus.pfaast import Log
 from titus.errors import PFASyntaxException
+from titus.errors import PFAInitializationException
 from titus.datatype import AvroTypeBuilder
 
 def jsonToAst(jsonInput):
@@ -875,6 +877,21 @@ def _readCells(data, dot, avroTypeBuilder):
     else:
         raise PFASyntaxException("expected map of cells, not " + _trunc(repr(data)), pos(dot, at))
 
+def _readSource(url):
+    """Read the external file of a cell or pool, given by URL or by file name."""
+    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
+        stream = urllib.request.urlopen(url)
+    else:
+        stream = open(url, "rb")
+    with stream:
+        return stream.read()
+
+def _readAvroSource(url, avroType):
+    """Read the first datum of an external Avro file as a JSON string."""
+    for datum in DataFileReader(io.BytesIO(_readSource(url)), DatumReader()):
+        return json.dumps(titus.datatype.checkData(datum, avroType), default=bytesToString)
+    raise PFAInitializationException("no data in Avro file " + url)
+
 def _readCell(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
         at = data.get("@")
@@ -899,8 +916,7 @@ def _readCell(data, dot, avroTypeBuilder):
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
+                    return _readAvroSource(url, avroType)
                 _init = getit
 
             elif _source == "json":
@@ -908,10 +924,7 @@ def _readCell(data, dot, avroTypeBuilder):
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
-                        return urllib.request.urlopen(url).read()
-                    else:
-                        return open(url).read()
+                    return _readSource(url)
                 _init = getit
                 
             elif _source == "embedded":
@@ -949,12 +962,16 @@ def _readPool(data, dot, avroTypeBuilder):
         keys = set(x for x in list(data.keys()) if x != "@")
         for key in keys:
             if key == "type": _avroType = _readAvroPlaceholder(data[key], dot + " -> " + key, avroTypeBuilder)
-            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+            elif key == "init":
+                if data.get("source", "embedded") == "embedded":
+                    _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+                else:
+                    _init = _readJsonToString(data[key], dot + " -> " + key)
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
 
-        if ("type" not in keys) or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
+        if ("type" not in keys) or ("init" not in keys and _source != "embedded") or (not keys.issubset(set(["type", "init", "shared", "rollback", "source"]))):
             raise PFASyntaxException("wrong set of fields for a pool: " + ", ".join(keys), pos(dot, at))
         else:
             if _source == "avro":
@@ -962,8 +979,7 @@ def _readPool(data, dot, avroTypeBuilder):
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    reader = DataFileReader(urllib.request.urlopen(url), DatumReader())
-                    return reader.read()
+                    return _readAvroSource(url, avroType)
                 _init = getit
 
             elif _source == "json":
@@ -971,10 +987,7 @@ def _readPool(data, dot, avroTypeBuilder):
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
                 def getit(avroType):
-                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
-                        return urllib.request.urlopen(url).read()
-                    else:
-                        return open(url).read()
+                    return _readSource(url)
                 _init = getit
                 
             elif _source == "embedded":
-- 
2.43.0


From 6c518b03da1b20343930f3efa1c208ca499ba7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 13/50] fix: engines loaded concurrently over one SharedState
 use the same cells and pools

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index bb870f5..d5425da 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1518,12 +1518,12 @@ class PFAEngine(object):
         for cellName, cellConfig in list(engineConfig.cells.items()):
             if cellConfig.shared and cellName not in sharedState.cells:
                 value = titus.datatype.jsonDecoder(cellConfig.avroType, cellConfig.initJsonNode)
-                sharedState.cells[cellName] = Cell(value, cellConfig.shared, cellConfig.rollback, cellConfig.source)
+                sharedState.cells.setdefault(cellName, Cell(value, cellConfig.shared, cellConfig.rollback, cellConfig.source))
 
         for poolName, poolConfig in list(engineConfig.pools.items()):
             if poolConfig.shared and poolName not in sharedState.pools:
                 value = titus.datatype.jsonDecoder(titus.datatype.AvroMap(poolConfig.avroType), poolConfig.initJsonNode)
-                sharedState.pools[poolName] = Pool(value, poolConfig.shared, poolConfig.rollback, poolConfig.source)
+                sharedState.pools.setdefault(poolName, Pool(value, poolConfig.shared, poolConfig.rollback, poolConfig.source))
 
         out = []
         for index in range(multiplicity):
-- 
2.43.0


From 509f5706af52feec5301b7b0dde52c0c65da84d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 14/50] fix: PrettyPFA and generated names may be used from
 several threads

The ply lexer and parser, and the text that error messages quote, belong to
one module-wide object; names of unnamed records, enums and fixed types were
taken from counters that are not incremented atomically.
---
 titus/prettypfa.py | 45 +++++++++++++++++++++++++--------------------
 titus/util.py      | 23 +++++++++++++++--------
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index dbe7ff3..db0dc86 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -21,6 +21,7 @@ import ast as pythonast
 import base64
 import json as jsonlib
 import re
+import threading
 from collections import OrderedDict
 
 from titus.pfaast import Subs
@@ -1198,6 +1199,7 @@ class Parser(object):
         """
         self.initialized = False
         self.wholeDocument = wholeDocument
+        self.lock = threading.RLock()   # the ply lexer and parser hold the state of one text at a time
 
     def initialize(self, lex, yacc):
         """Initialize the ``Parser`` by passing it the appropriate ply modules.
@@ -2119,10 +2121,11 @@ class Parser(object):
         :return: parsed text as an abstract syntax tree
         """
 
-        self.lexer.lineno = 1
-        self.text = text
-        self.subs = subs
-        out = self.yacc.parse(text, lexer=self.lexer)
+        with self.lock:
+            self.lexer.lineno = 1
+            self.text = text
+            self.subs = subs
+            out = self.yacc.parse(text, lexer=self.lexer)
         if self.wholeDocument:
             return out
         else:
@@ -2178,14 +2181,15 @@ def ast(text, check=True, version=None, subs={}, **subs2):
 
     subs2.update(subs)
 
-    if not parser.initialized:
-        try:
-            import ply.lex as lex
-            import ply.yacc as yacc
-        except ImportError:
-            raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
-        else:
-            parser.initialize(lex, yacc)
+    with parser.lock:
+        if not parser.initialized:
+            try:
+                import ply.lex as lex
+                import ply.yacc as yacc
+            except ImportError:
+                raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
+            else:
+                parser.initialize(lex, yacc)
 
     out = parser.parse(text, subs2)
 
@@ -2280,14 +2284,15 @@ def ppfas(text, subs={}, **subs2):
 
     subs2.update(subs)
 
-    if not exprParser.initialized:
-        try:
-            import ply.lex as lex
-            import ply.yacc as yacc
-        except ImportError:
-            raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
-        else:
-            exprParser.initialize(lex, yacc)
+    with exprParser.lock:
+        if not exprParser.initialized:
+            try:
+                import ply.lex as lex
+                import ply.yacc as yacc
+            except ImportError:
+                raise ImportError("ply (used to parse the PrettyPFA) is not available on your system")
+            else:
+                exprParser.initialize(lex, yacc)
 
     return exprParser.parse(text, subs2)
 
diff --git a/titus/util.py b/titus/util.py
index 7d30c59..caabc50 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -19,6 +19,7 @@
 
 import inspect
 import sys
+import threading
 
 TYPE_ERRORS_IN_PRETTYPFA = True
 def ts(avroType):
@@ -40,29 +41,35 @@ def ts(avroType):
     else:
         return repr(avroType)
 
+uniqueNameLock = threading.Lock()
+
 uniqueEngineNameCounter = 0
 def uniqueEngineName():
     """Provide an engine name, incrementing titus.util.uniqueEngineNameCounter to ensure uniqueness of values supplied by this function."""
-    sys.modules["titus.util"].uniqueEngineNameCounter += 1
-    return "Engine_{0}".format(sys.modules["titus.util"].uniqueEngineNameCounter)
+    with uniqueNameLock:
+        sys.modules["titus.util"].uniqueEngineNameCounter += 1
+        return "Engine_{0}".format(sys.modules["titus.util"].uniqueEngineNameCounter)
 
 uniqueRecordNameCounter = 0
 def uniqueRecordName():
     """Provide a record type name, incrementing titus.util.uniqueRecordNameCounter to ensure uniqueness of values supplied by this function."""
-    sys.modules["titus.util"].uniqueRecordNameCounter += 1
-    return "Record_{0}".format(sys.modules["titus.util"].uniqueRecordNameCounter)
+    with uniqueNameLock:
+        sys.modules["titus.util"].uniqueRecordNameCounter += 1
+        return "Record_{0}".format(sys.modules["titus.util"].uniqueRecordNameCounter)
 
 uniqueEnumNameCounter = 0
 def uniqueEnumName():
     """Provide an enum type name, incrementing titus.util.uniqueEnumNameCounter to ensure uniqueness of values supplied by this function."""
-    sys.modules["titus.util"].uniqueEnumNameCounter += 1
-    return "Enum_{0}".format(sys.modules["titus.util"].uniqueEnumNameCounter)
+    with uniqueNameLock:
+        sys.modules["titus.util"].uniqueEnumNameCounter += 1
+        return "Enum_{0}".format(sys.modules["titus.util"].uniqueEnumNameCounter)
 
 uniqueFixedNameCounter = 0
 def uniqueFixedName():
     """Provide a fixed type name, incrementing titus.util.uniqueFixedNameCounter to ensure uniqueness of values supplied by this function."""
-    sys.modules["titus.util"].uniqueFixedNameCounter += 1
-    return "Fixed_{0}".format(sys.modules["titus.util"].uniqueFixedNameCounter)
+    with uniqueNameLock:
+        sys.modules["titus.util"].uniqueFixedNameCounter += 1
+        return "Fixed_{0}".format(sys.modules["titus.util"].uniqueFixedNameCounter)
 
 def pos(dot, at):
     """Create a human-readable position of a PFA element in a JSON file."""
-- 
2.43.0


From f2e04492edb73aece5877d927f02ecd58cc806ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 15/50] fix: a snapshot with union-typed state can be loaded
 again

Values of union type may be untagged in an engine's memory; they were written untagged into the snapshot's initial
values, which the reader of PFA documents rejects.
---
 titus/datatype.py | 61 +++++++++++++++++++++++++++++++++++++++++++++++
 titus/genpy.py    | 20 +++++++++++++---
 2 files changed, 78 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..ba0f259 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1027,6 +1027,67 @@ def jsonEncoder(avroType, value, tagged=True):
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
 
+def tagUnions(avroType, value):
+    """Return value with every member of a union in the tagged form, ``{tag: value}``, that ``jsonDecoder`` expects.
+
+    Values computed by an engine may be tagged or not.
+
+    :type avroType: titus.datatype.AvroType
+    :param avroType: type of this object
+    :type value: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param value: the object in Python encoding (not modified)
+    :rtype: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :return: the same object, with tagged unions
+    """
+
+    if isinstance(avroType, AvroArray) and isinstance(value, (list, tuple)):
+        return [tagUnions(avroType.items, x) for x in value]
+    elif isinstance(avroType, AvroMap) and isinstance(value, dict):
+        return dict((k, tagUnions(avroType.values, v)) for k, v in list(value.items()))
+    elif isinstance(avroType, AvroRecord) and isinstance(value, dict):
+        types = dict((f.name, f.avroType) for f in avroType.fields)
+        return dict((k, tagUnions(types[k], v) if k in types else v) for k, v in list(value.items()))
+    elif isinstance(avroType, AvroUnion) and value is not None:
+        if isinstance(value, dict) and len(value) == 1:
+            (tag, val), = list(value.items())
+            for t in avroType.types:
+                if t.name == tag and _isMember(t, val):
+                    return {tag: tagUnions(t, val)}
+        for t in avroType.types:
+            if _isMember(t, value):
+                return {t.name: tagUnions(t, value)}
+    return value
+
+def _isMember(avroType, value):
+    if isinstance(avroType, AvroNull):
+        return value is None
+    elif isinstance(avroType, AvroBoolean):
+        return value is True or value is False
+    elif isinstance(avroType, (AvroInt, AvroLong)):
+        return isinstance(value, int) and value is not True and value is not False
+    elif isinstance(avroType, (AvroFloat, AvroDouble)):
+        return isinstance(value, (int, float)) and value is not True and value is not False
+    elif isinstance(avroType, AvroFixed):
+        return isinstance(value, str) and len(value) == avroType.size
+    elif isinstance(avroType, AvroEnum):
+        return isinstance(value, str) and value in avroType.symbols
+    elif isinstance(avroType, (AvroBytes, AvroString)):
+        return isinstance(value, str)
+    elif isinstance(avroType, AvroArray):
+        return isinstance(value, (list, tuple)) and all(_isMember(avroType.items, x) for x in value)
+    elif isinstance(avroType, AvroMap):
+        return isinstance(value, dict) and all(_isMember(avroType.values, x) for x in list(value.values()))
+    elif isinstance(avroType, AvroRecord):
+        return isinstance(value, dict) and set(value) == set(f.name for f in avroType.fields) and all(_isMember(f.avroType, value[f.name]) for f in avroType.fields)
+    elif isinstance(avroType, AvroUnion):
+        if any(_isMember(t, value) for t in avroType.types):
+            return True
+        if isinstance(value, dict) and len(value) == 1:
+            (tag, val), = list(value.items())
+            return any(t.name == tag and _isMember(t, val) for t in avroType.types)
+        return False
+    return False
+
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
 
diff --git a/titus/genpy.py b/titus/genpy.py
index d5425da..3443805 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1366,6 +1366,20 @@ def checkForDeadlock(engineConfig, engine):
                 x.collect(SideEffectCallUserFcn())
     engineConfig.collect(WithFcnDef())
 
+class SnapshotCell(AstCell):
+    """A cell initialized with a value from a running engine, in which members of unions may be untagged."""
+
+    @property
+    def initJsonNode(self):
+        return titus.datatype.tagUnions(self.avroType, json.loads(self.init))
+
+class SnapshotPool(AstPool):
+    """A pool initialized with values from a running engine, in which members of unions may be untagged."""
+
+    @property
+    def initJsonNode(self):
+        return dict((k, titus.datatype.tagUnions(self.avroType, json.loads(v))) for k, v in list(self.init.items()))
+
 class PFAEngine(object):
     """Base class for a Titus scoring engine.
 
@@ -1644,9 +1658,9 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        # the state may include shared cells and pools of other documents, and bytes are Python bytes
-        newCells = dict((k, AstCell(v.avroPlaceholder, json.dumps(self.cells[k].value, default=titus.util.bytesToString), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.config.cells.items()))
-        newPools = dict((k, AstPool(v.avroPlaceholder, dict((kk, json.dumps(vv, default=titus.util.bytesToString)) for kk, vv in list(self.pools[k].value.items())), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.config.pools.items()))
+        # the state may include shared cells and pools of other documents, bytes are Python bytes, and unions may be untagged
+        newCells = dict((k, SnapshotCell(v.avroPlaceholder, json.dumps(self.cells[k].value, default=titus.util.bytesToString), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.config.cells.items()))
+        newPools = dict((k, SnapshotPool(v.avroPlaceholder, dict((kk, json.dumps(vv, default=titus.util.bytesToString)) for kk, vv in list(self.pools[k].value.items())), v.shared, v.rollback, CellPoolSource.EMBEDDED)) for k, v in list(self.config.pools.items()))
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 5268126f7c468c7b1510c45645987c84be85ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 16/50] fix: functions called in attr expressions, pool-to init
 and call-by-name count in the call graph

Without them, hasSideEffects missed updates, and documents whose updaters
reach another update were accepted and could deadlock.
---
 titus/pfaast.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 55ca66e..6daa3d1 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1838,7 +1838,7 @@ class CallUserFcn(Expression):
         scope = symbolTable.newScope(True, True)
         argResults = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.args]
 
-        calls = set("u." + x for x in fcnNames)
+        calls = nameContext.calls.union(set("u." + x for x in fcnNames))
         argTypes = []
         for ctx, res in argResults:
             if isinstance(ctx, ExpressionContext):
@@ -3260,7 +3260,7 @@ class AttrGet(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         retType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
-        context = self.Context(retType, calls.union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
+        context = self.Context(retType, exprContext.calls.union(calls).union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
         return context, task(context, engineOptions)
 
     def jsonNode(self, lineNumbers, memo):
@@ -3378,22 +3378,22 @@ class AttrTo(Expression, HasPath):
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with type {1}".format(ts(setType), ts(toContext.retType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.retType, self.pos)
+            context = self.Context(exprContext.retType, exprContext.calls.union(calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.retType, self.pos)
 
         elif isinstance(toContext, FcnDef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.fcnType, self.pos)
+            context = self.Context(exprContext.retType, exprContext.calls.union(calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, toResult, toContext.fcnType, self.pos)
 
         elif isinstance(toContext, FcnRef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(exprContext.retType, exprContext.calls.union(calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         elif isinstance(toContext, FcnRefFill.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("attr-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(exprContext.retType, calls.union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(exprContext.retType, exprContext.calls.union(calls).union(toContext.calls).union(set([self.desc])), exprResult, exprContext.retType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, self.pos)   # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         return context, task(context, engineOptions)
         
@@ -3856,22 +3856,22 @@ class PoolTo(Expression, HasPath):
         if isinstance(toContext, ExpressionContext):
             if not setType.accepts(toContext.retType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with type {1}".format(ts(setType), ts(toContext.retType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.retType, initResult, shared, self.pos)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.retType, initResult, shared, self.pos)
 
         elif isinstance(toContext, FcnDef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.fcnType, initResult, shared, self.pos)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, toResult, toContext.fcnType, initResult, shared, self.pos)
 
         elif isinstance(toContext, FcnRef.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         elif isinstance(toContext, FcnRefFill.Context):
             if not FcnType([setType], setType).accepts(toContext.fcnType):
                 raise PFASemanticException("pool-and-path has type {0} but attempting to assign with a function of type {1}".format(ts(setType), ts(toContext.fcnType)), self.pos)
-            context = self.Context(poolType, calls.union(toContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
+            context = self.Context(poolType, calls.union(toContext.calls).union(initContext.calls).union(set([self.desc])), self.pool, poolType, setType, pathResult, task(toContext, engineOptions), toContext.fcnType, initResult, shared, self.pos)  # Two-parameter task?  task(toContext, engineOptions, toContext.fcnType)
 
         return context, task(context, engineOptions)
 
-- 
2.43.0


From b2f652de01fdfbc1bca04407446c700fa270bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 17/50] fix: pfainspector closes the files it writes, reports
 errors in them, and forgets what it knew about a document it changed

save and externalize left data in a buffer that was never flushed, and
externalize and internalize kept the engine of the old document.
---
 titus/inspector/main.py      |  9 ++++++---
 titus/inspector/pfagadget.py | 36 ++++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/titus/inspector/main.py b/titus/inspector/main.py
index c524e0d..6fbb80c 100644
--- a/titus/inspector/main.py
+++ b/titus/inspector/main.py
@@ -60,8 +60,9 @@ class InspectorMode(Mode):
                     print(self.help)
                 elif len(args) == 3 and isinstance(args[0], parser.FilePath) and args[1] == parser.Word("as") and isinstance(args[2], parser.Word):
                     try:
-                        data = json.load(open(args[0].text))
-                    except IOError as err:
+                        with open(args[0].text) as inputFile:
+                            data = json.load(inputFile)
+                    except (IOError, ValueError) as err:
                         raise InspectorError(err)
                     self.mode.pfaFiles[args[2].text] = Model(data)
                 else:
@@ -138,7 +139,9 @@ class InspectorMode(Mode):
                     if name not in self.mode.pfaFiles:
                         raise InspectorError("no PFA document named \"{0}\" in memory".format(name))
                     try:
-                        json.dump(self.mode.pfaFiles[name].obj, open(args[2].text, "w"))
+                        data = json.dumps(self.mode.pfaFiles[name].obj)
+                        with open(args[2].text, "w") as outputFile:
+                            outputFile.write(data)
                     except IOError as err:
                         raise InspectorError(err)
                 else:
diff --git a/titus/inspector/pfagadget.py b/titus/inspector/pfagadget.py
index 75a7560..9fbc6ad 100644
--- a/titus/inspector/pfagadget.py
+++ b/titus/inspector/pfagadget.py
@@ -565,10 +565,10 @@ class ExternalizeCommand(Command):
             if len(args) == 3 and all(isinstance(x, parser.Word) for x in args):
                 if args[0].text not in self.mode.pfaFiles:
                     raise InspectorError("no PFA document named \"{0}\" in memory (try 'load <file> as {1}')".format(args[0].text, args[0].text))
-                model = self.mode.pfaFiles[args[0].text].obj
+                model = self.mode.pfaFiles[args[0].text]
 
-                cells = model.get("cells")
-                pools = model.get("pools")
+                cells = model.obj.get("cells")
+                pools = model.obj.get("pools")
                 obj = None
                 which = ""
                 if options["cell"]:
@@ -592,8 +592,14 @@ class ExternalizeCommand(Command):
                     raise InspectorError("{0} \"{1}\" is not currently embedded".format(which, args[1].text))
 
                 print("Externalizing {0} \"{1}\" to {2}".format(which, args[1].text, args[2].text))
-                json.dump(obj.get("init"), open(args[2].text, "w"))
-
+                data = json.dumps(obj.get("init", {}))   # only pools may lack an init
+                try:
+                    with open(args[2].text, "w") as outputFile:
+                        outputFile.write(data)
+                except IOError as err:
+                    raise InspectorError(err)
+
+                model.reset()
                 obj["source"] = "json"
                 obj["init"] = args[2].text
 
@@ -676,10 +682,10 @@ class InternalizeCommand(Command):
             if len(args) == 2 and all(isinstance(x, parser.Word) for x in args):
                 if args[0].text not in self.mode.pfaFiles:
                     raise InspectorError("no PFA document named \"{0}\" in memory (try 'load <file> as {1}')".format(args[0].text, args[0].text))
-                model = self.mode.pfaFiles[args[0].text].obj
+                model = self.mode.pfaFiles[args[0].text]
 
-                cells = model.get("cells")
-                pools = model.get("pools")
+                cells = model.obj.get("cells")
+                pools = model.obj.get("pools")
                 obj = None
                 which = ""
                 if options["cell"]:
@@ -707,11 +713,17 @@ class InternalizeCommand(Command):
                     raise InspectorError("{0} \"{1}\" does not have a string-valued init".format(which, args[1].text))
 
                 print("Internalizing {0} \"{1}\" from {2}".format(which, args[1].text, url))
-                if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
-                    init = json.load(urllib.request.urlopen(url))
-                else:
-                    init = json.load(open(url))
+                try:
+                    if re.match("^[a-zA-Z][a-zA-Z0-9\+\-\.]*://", url) is not None:
+                        inputFile = urllib.request.urlopen(url)
+                    else:
+                        inputFile = open(url)
+                    with inputFile:
+                        init = json.load(inputFile)
+                except (IOError, ValueError) as err:
+                    raise InspectorError(err)
 
+                model.reset()
                 del obj["source"]
                 obj["init"] = init
 
-- 
2.43.0


From 346429ae87d66da5525a52fc872595b033955c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 18/50] fix: pfainspector: renaming a document to its own name
 does not delete it

---
 titus/inspector/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/titus/inspector/main.py b/titus/inspector/main.py
index 6fbb80c..16a769c 100644
--- a/titus/inspector/main.py
+++ b/titus/inspector/main.py
@@ -88,8 +88,7 @@ class InspectorMode(Mode):
                 elif len(args) == 3 and isinstance(args[0], parser.Word) and args[1] == parser.Word("as") and isinstance(args[2], parser.Word):
                     if args[0].text not in self.mode.pfaFiles:
                         raise InspectorError("no PFA document named \"{0}\" in memory".format(args[0].text))
-                    self.mode.pfaFiles[args[2].text] = self.mode.pfaFiles[args[0].text]
-                    del self.mode.pfaFiles[args[0].text]
+                    self.mode.pfaFiles[args[2].text] = self.mode.pfaFiles.pop(args[0].text)
                 else:
                     self.syntaxError()
 
-- 
2.43.0


From 454268ea22936801d5daf34a869374c43097b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 19/50] fix: pfainspector: json change is all or nothing when
 the history file fails, and does not alias its replacements

---
 titus/inspector/defs.py       | 14 +++++++++++---
 titus/inspector/jsongadget.py |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/titus/inspector/defs.py b/titus/inspector/defs.py
index e9e8b26..cd2ae5e 100644
--- a/titus/inspector/defs.py
+++ b/titus/inspector/defs.py
@@ -431,7 +431,11 @@ class Mode(object):
 
     def pause(self):
         """Write the current history to the history file and stop readline."""
-        readline.write_history_file(self.historyPath)
+        if CONFIG_DIRECTORY_EXISTS:
+            try:
+                readline.write_history_file(self.historyPath)
+            except IOError as err:
+                print("could not write {0}: {1}".format(self.historyPath, err))
         readline.clear_history()
         readline.set_completer()
         self.active = False
@@ -439,8 +443,12 @@ class Mode(object):
     def resume(self):
         """Read the history file and restart readline."""
         self.active = True
-        readline.read_history_file(self.historyPath)
-        readline.set_completer(self.tabCompleter.complete)
+        if CONFIG_DIRECTORY_EXISTS:
+            try:
+                readline.read_history_file(self.historyPath)
+            except IOError as err:
+                print("could not read {0}: {1}".format(self.historyPath, err))
+            readline.set_completer(self.tabCompleter.complete)
 
 class Command(object):
     """Trait for pfainspector commands."""
diff --git a/titus/inspector/jsongadget.py b/titus/inspector/jsongadget.py
index 88877ef..48e69e1 100644
--- a/titus/inspector/jsongadget.py
+++ b/titus/inspector/jsongadget.py
@@ -523,7 +523,7 @@ class ChangeCommand(Command):
             def replace(value, groups):
                 if isinstance(value, parser.Replacement):
                     try:
-                        return groups[value.name]
+                        return copy.deepcopy(groups[value.name])
                     except KeyError:
                         raise InspectorError("group ({0}) not found in regular expression".format(value.name))
 
-- 
2.43.0


From a705b0231d7abf1437468c21d07e655f2aae4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 20/50] fix: pfainspector: pools, help, ls, long listings and
 argument counts no longer crash

---
 titus/inspector/defs.py       | 10 +++++-----
 titus/inspector/jsongadget.py |  2 +-
 titus/inspector/pfagadget.py  |  4 +++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/titus/inspector/defs.py b/titus/inspector/defs.py
index cd2ae5e..6c9e3ae 100644
--- a/titus/inspector/defs.py
+++ b/titus/inspector/defs.py
@@ -304,9 +304,9 @@ def run(command, *args):
             whole.extend(g)
         else:
             whole.append(arg)
-    proc = subprocess.Popen(whole, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
-    returnCode = proc.wait()
-    output = proc.stdout.read()
+    proc = subprocess.Popen(whole, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
+    output, _ = proc.communicate()
+    returnCode = proc.returncode
     if returnCode != 0:
         output += "\nsubprocesses failed with exit code {0}".format(returnCode)
     return output
@@ -319,7 +319,7 @@ def pipe(command):
     :rtype: subprocess.Popen object
     :return: piped subprocess (for further processing)
     """
-    return subprocess.Popen(command, stdin=subprocess.PIPE)
+    return subprocess.Popen(command, stdin=subprocess.PIPE, universal_newlines=True)
 
 def pipewait(proc):
     """Helper function to wait for a subprocess.Popen to complete.
@@ -533,7 +533,7 @@ class SimpleCommand(Command):
 
             if self.minargs is not None and len(args) < self.minargs:
                 raise InspectorError("too few arguments (at least {0} are required)".format(self.minargs))
-            if self.maxargs is not None and len(args) < self.maxargs:
+            if self.maxargs is not None and len(args) > self.maxargs:
                 raise InspectorError("too many arguments (at most {0} are required)".format(self.maxargs))
 
             out = self._action(*[x.text for x in args])
diff --git a/titus/inspector/jsongadget.py b/titus/inspector/jsongadget.py
index 48e69e1..6b3408a 100644
--- a/titus/inspector/jsongadget.py
+++ b/titus/inspector/jsongadget.py
@@ -366,7 +366,7 @@ class FindCommand(Command):
                     except TypeError:
                         raise InspectorError("illegal value for {0}".format(opt.word.text))
                 else:
-                    raise InspectorError("option {1} unrecognized".format(opt.word.text))
+                    raise InspectorError("option {0} unrecognized".format(opt.word.text))
 
             if not isinstance(options["maxDepth"], int) or options["maxDepth"] <= 0:
                 raise InspectorError("maxDepth must be a positive integer")
diff --git a/titus/inspector/pfagadget.py b/titus/inspector/pfagadget.py
index 9fbc6ad..d92bab7 100644
--- a/titus/inspector/pfagadget.py
+++ b/titus/inspector/pfagadget.py
@@ -66,6 +66,7 @@ class ValidCommand(Command):
 
         if len(args) == 1 and args[0] == parser.Word("help"):
             print(self.help)
+            return
 
         elif len(args) == 1 and isinstance(args[0], parser.Word):
             if args[0].text not in self.mode.pfaFiles:
@@ -380,6 +381,7 @@ class CallsCommand(Command):
 
         if len(args) == 1 and args[0] == parser.Word("help"):
             print(self.help)
+            return
 
         elif len(args) == 1 and isinstance(args[0], parser.Word):
             if args[0].text not in self.mode.pfaFiles:
@@ -469,7 +471,7 @@ class CellsPoolsCommand(Command):
                 if self.name == "cells":
                     preamble = "{0}: shared={1} rollback={2} type=".format(name, json.dumps(obj.shared), json.dumps(obj.rollback))
                 elif self.name == "pools":
-                    preamble = "{0}: shared={1} rollback={2} elements={3} type=".format(name, json.dumps(obj.shared), json.dumps(obj.rollback), len(json.loads(obj.init)))
+                    preamble = "{0}: shared={1} rollback={2} elements={3} type=".format(name, json.dumps(obj.shared), json.dumps(obj.rollback), len(obj.initJsonNode))
 
                 ptype = obj.avroType
                 if options["pretty"]:
-- 
2.43.0


From d22f76618f552ef80eebd4c1726029e9dd0889be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 21/50] fix: external state is read once per document, and a
 load that fails leaves no shared state behind

---
 titus/genpy.py  | 18 ++++++++++++++++--
 titus/reader.py | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 3443805..2d0f36e 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1529,15 +1529,19 @@ class PFAEngine(object):
         if sharedState is None:
             sharedState = SharedState()
 
+        # new shared cells and pools are published only when all engines have been built, so that a failure leaves nothing behind
+        sharedCells = {}
+        sharedPools = {}
+
         for cellName, cellConfig in list(engineConfig.cells.items()):
             if cellConfig.shared and cellName not in sharedState.cells:
                 value = titus.datatype.jsonDecoder(cellConfig.avroType, cellConfig.initJsonNode)
-                sharedState.cells.setdefault(cellName, Cell(value, cellConfig.shared, cellConfig.rollback, cellConfig.source))
+                sharedCells[cellName] = Cell(value, cellConfig.shared, cellConfig.rollback, cellConfig.source)
 
         for poolName, poolConfig in list(engineConfig.pools.items()):
             if poolConfig.shared and poolName not in sharedState.pools:
                 value = titus.datatype.jsonDecoder(titus.datatype.AvroMap(poolConfig.avroType), poolConfig.initJsonNode)
-                sharedState.pools.setdefault(poolName, Pool(value, poolConfig.shared, poolConfig.rollback, poolConfig.source))
+                sharedPools[poolName] = Pool(value, poolConfig.shared, poolConfig.rollback, poolConfig.source)
 
         out = []
         for index in range(multiplicity):
@@ -1579,6 +1583,16 @@ class PFAEngine(object):
 
             out.append(engine)
 
+        for cellName, cell in list(sharedCells.items()):
+            cell = sharedState.cells.setdefault(cellName, cell)
+            for engine in out:
+                engine.cells[cellName] = cell
+
+        for poolName, pool in list(sharedPools.items()):
+            pool = sharedState.pools.setdefault(poolName, pool)
+            for engine in out:
+                engine.pools[poolName] = pool
+
         return out
 
     @staticmethod
diff --git a/titus/reader.py b/titus/reader.py
index 8074049..62c3c65 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -22,6 +22,7 @@ import base64
 import urllib.request, urllib.parse, urllib.error
 import io
 import re
+import threading
 
 from avro.datafile import DataFileReader
 from avro.io import DatumReader
@@ -892,6 +893,17 @@ def _readAvroSource(url, avroType):
         return json.dumps(titus.datatype.checkData(datum, avroType), default=bytesToString)
     raise PFAInitializationException("no data in Avro file " + url)
 
+def _readOnce(read):
+    """Make a callable that reads its content the first time it succeeds and keeps it, so that everything built from one document sees the same content."""
+    content = []
+    lock = threading.Lock()
+    def getit(avroType):
+        with lock:
+            if len(content) == 0:
+                content.append(read(avroType))
+            return content[0]
+    return getit
+
 def _readCell(data, dot, avroTypeBuilder):
     if isinstance(data, dict):
         at = data.get("@")
@@ -915,17 +927,13 @@ def _readCell(data, dot, avroTypeBuilder):
                 url = json.loads(_init)
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    return _readAvroSource(url, avroType)
-                _init = getit
+                _init = _readOnce(lambda avroType: _readAvroSource(url, avroType))
 
             elif _source == "json":
                 url = json.loads(_init)
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    return _readSource(url)
-                _init = getit
+                _init = _readOnce(lambda avroType: _readSource(url))
                 
             elif _source == "embedded":
                 pass
@@ -978,17 +986,13 @@ def _readPool(data, dot, avroTypeBuilder):
                 url = json.loads(_init)
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: avro requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    return _readAvroSource(url, avroType)
-                _init = getit
+                _init = _readOnce(lambda avroType: _readAvroSource(url, avroType))
 
             elif _source == "json":
                 url = json.loads(_init)
                 if not isinstance(url, str):
                     raise PFASyntaxException("source: json requires init to be a string", pos(dot, at))
-                def getit(avroType):
-                    return _readSource(url)
-                _init = getit
+                _init = _readOnce(lambda avroType: _readSource(url))
                 
             elif _source == "embedded":
                 pass
-- 
2.43.0


From 289623c0446b431c921a900fab22dbc25be6ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 22/50] fix: data that are a member of a union as they stand
 are not converted to another member

---
 titus/datatype.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index ba0f259..3734a39 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1058,33 +1058,38 @@ def tagUnions(avroType, value):
                 return {t.name: tagUnions(t, value)}
     return value
 
-def _isMember(avroType, value):
+def _isMember(avroType, value, exact=False):
+    # exact: as read from Avro (bytes are Python bytes, floating point numbers are not integers, int and long have their ranges)
     if isinstance(avroType, AvroNull):
         return value is None
     elif isinstance(avroType, AvroBoolean):
         return value is True or value is False
     elif isinstance(avroType, (AvroInt, AvroLong)):
+        if exact and isinstance(value, int) and not -2**(31 if isinstance(avroType, AvroInt) else 63) <= value < 2**(31 if isinstance(avroType, AvroInt) else 63):
+            return False
         return isinstance(value, int) and value is not True and value is not False
     elif isinstance(avroType, (AvroFloat, AvroDouble)):
-        return isinstance(value, (int, float)) and value is not True and value is not False
+        return isinstance(value, float if exact else (int, float)) and value is not True and value is not False
     elif isinstance(avroType, AvroFixed):
-        return isinstance(value, str) and len(value) == avroType.size
+        return isinstance(value, bytes if exact else str) and len(value) == avroType.size
     elif isinstance(avroType, AvroEnum):
         return isinstance(value, str) and value in avroType.symbols
-    elif isinstance(avroType, (AvroBytes, AvroString)):
+    elif isinstance(avroType, AvroBytes):
+        return isinstance(value, bytes if exact else str)
+    elif isinstance(avroType, AvroString):
         return isinstance(value, str)
     elif isinstance(avroType, AvroArray):
-        return isinstance(value, (list, tuple)) and all(_isMember(avroType.items, x) for x in value)
+        return isinstance(value, (list, tuple)) and all(_isMember(avroType.items, x, exact) for x in value)
     elif isinstance(avroType, AvroMap):
-        return isinstance(value, dict) and all(_isMember(avroType.values, x) for x in list(value.values()))
+        return isinstance(value, dict) and all(_isMember(avroType.values, x, exact) for x in list(value.values()))
     elif isinstance(avroType, AvroRecord):
-        return isinstance(value, dict) and set(value) == set(f.name for f in avroType.fields) and all(_isMember(f.avroType, value[f.name]) for f in avroType.fields)
+        return isinstance(value, dict) and set(value) == set(f.name for f in avroType.fields) and all(_isMember(f.avroType, value[f.name], exact) for f in avroType.fields)
     elif isinstance(avroType, AvroUnion):
-        if any(_isMember(t, value) for t in avroType.types):
+        if any(_isMember(t, value, exact) for t in avroType.types):
             return True
         if isinstance(value, dict) and len(value) == 1:
             (tag, val), = list(value.items())
-            return any(t.name == tag and _isMember(t, val) for t in avroType.types)
+            return any(t.name == tag and _isMember(t, val, exact) for t in avroType.types)
         return False
     return False
 
@@ -1374,13 +1379,17 @@ def checkData(data, avroType):
             value, = list(data.values())
             for tpe in avroType.types:
                 if tpe.name == tag:
+                    try:
+                        newData = checkData(value, tpe)
+                    except TypeError:
+                        break
                     if tag == "null":
-                        return checkData(value, tpe)
+                        return newData
                     else:
-                        return {tag: checkData(value, tpe)}
-            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+                        return {tag: newData}
 
-        for tpe in avroType.types:
+        # a member of the union as it stands, before one that it could be converted to
+        for tpe in [x for x in avroType.types if _isMember(x, data, exact=True)] + list(avroType.types):
             try:
                 newData = checkData(data, tpe)
             except TypeError:
-- 
2.43.0


From 765f788a41b014982d9d7fcc15cc1f06a07feb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 23/50] fix: pfainspector: an integer in an extraction path
 only selects from a list (a string gave one of its letters, a map a stray
 KeyError)

---
 titus/inspector/defs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/inspector/defs.py b/titus/inspector/defs.py
index 6c9e3ae..9ca5249 100644
--- a/titus/inspector/defs.py
+++ b/titus/inspector/defs.py
@@ -278,6 +278,8 @@ def extaction(args0, node, items):
                 raise InspectorError("{0} has no key {1}".format(args0.strto(index), str(item)))
         elif isinstance(item, parser.Integer):
             try:
+                if not isinstance(node, (list, tuple)):
+                    raise TypeError
                 node = node[item.num]
             except (IndexError, TypeError):
                 raise InspectorError("{0} has no index {1}".format(args0.strto(index), str(item)))
-- 
2.43.0


From 702c42c2d8f54798bf00e481c234f1736d7f3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 24/50] fix: an interrupted action or merge rolls back as a
 failed one does (KeyboardInterrupt, SystemExit are no Exceptions)

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 2d0f36e..e41a7db 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -244,7 +244,7 @@ class GeneratePython(titus.pfaast.Task):
                 scope.let({'version': self.config.version})
 """ + commands)
 
-            out.append("""        except Exception:
+            out.append("""        except BaseException:
             for cell in self.cells.values():
                 cell.maybeRestoreBackup()
             for pool in self.pools.values():
@@ -267,7 +267,7 @@ class GeneratePython(titus.pfaast.Task):
                 scope.let({'version': self.config.version})
 """ + self.commandsFoldMerge(mergeTasks, "            "))
 
-                out.append("""        except Exception:
+                out.append("""        except BaseException:
             for cell in self.cells.values():
                 cell.maybeRestoreBackup()
             for pool in self.pools.values():
-- 
2.43.0


From 55c81a5e4bd1639effa7139451747af492088378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 25/50] fix: avroOutputDataFileWriter opened its file for text
 and refused the tagged unions that action returns

---
 titus/genpy.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index e41a7db..23dbea2 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1401,7 +1401,7 @@ class PFAEngine(object):
 
         assert(engine.config.method == "map")
 
-        inputDataStream = engine.avroInputIterator(open("inputData.avro"))
+        inputDataStream = engine.avroInputIterator(open("inputData.avro", "rb"))
         outputDataStream = engine.avroOutputDataFileWriter("outputData.avro")
 
         engine.begin()
@@ -1810,7 +1810,26 @@ class PFAEngine(object):
         :return: an output stream with an ``append`` method for appending output data objects
         """
 
-        return DataFileWriter(open(fileName, "w"), DatumWriter(), self.config.output.schema)
+        return DataFileWriter(open(fileName, "wb"), OutputDatumWriter(self.config.output), self.config.output.schema)
+
+class OutputDatumWriter(DatumWriter):
+    """Writes data in the form that ``action`` returns and ``emit`` receives, in which members of unions are tagged by their type."""
+
+    def __init__(self, avroType):
+        super(OutputDatumWriter, self).__init__(avroType.schema)
+        self.avroType = avroType
+
+    def write(self, datum, encoder):
+        self.write_data(self.writer_schema, titus.datatype.checkData(datum, self.avroType), encoder)
+
+    def write_union(self, writer_schema, datum, encoder):
+        tag, value = ("null", None) if datum is None else list(datum.items())[0]
+        for index, member in enumerate(writer_schema.schemas):
+            if tag == getattr(member, "name", None) or tag == member.type:
+                encoder.write_long(index)
+                self.write_data(member, value, encoder)
+                return
+        raise TypeError("expecting {0}, found {1}".format(writer_schema, datum))
 
 class FastAvroCorrector(object):
     """The fastavro library reads Avro strings as non-Unicode and doesn't tag unions. This wrapper class corrects it."""
-- 
2.43.0


From 41e3d751be608dcaf8188885e2caa343404e8d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 26/50] fix: {"fcn": "emit"} could not be loaded (emit has no
 name and could not be called as a reference)

---
 titus/genpy.py  | 3 +++
 titus/pfaast.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 23dbea2..94939d7 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1313,6 +1313,9 @@ class FakeEmitForExecution(titus.fcn.Fcn):
     """Placeholder so that the ``emit`` function looks like any other function to PFA."""
     def __init__(self, engine):
         self.engine = engine
+    def __call__(self, state, scope, pos, paramTypes, output):
+        """Called when ``emit`` is passed as a function reference, ``{"fcn": "emit"}``."""
+        self.engine.emit(output)
 
 def genericEmit(x):
     """Generic emit function for use in PFAEngine.emit.
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 6daa3d1..8361288 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -349,6 +349,7 @@ class EmitFcn(Fcn):
         """:type outputType: titus.datatype.AvroType
         :param outputType: output type of the PFA document, which is also the signature of the ``emit`` function
         """
+        self.name = "emit"
         self.sig = Sig([{"output": P.fromType(outputType)}], P.Null())
 
     def genpy(self, paramTypes, args, pos=None):
-- 
2.43.0


From 71560fae4a7951faa17d84949f7494f6bb41335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 27/50] fix: chain left pool deletions and new arrays of a step
 unrenamed

---
 titus/producer/chain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 9fc1ac0..68e6a88 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -69,6 +69,7 @@ from titus.pfaast import CellGet
 from titus.pfaast import CellTo
 from titus.pfaast import PoolGet
 from titus.pfaast import PoolTo
+from titus.pfaast import PoolDel
 from titus.pfaast import CastCase
 from titus.pfaast import Upcast
 
@@ -504,6 +505,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               expr.to.replace(self),
                               expr.init.replace(self),
                               expr.pos)
+            elif isinstance(expr, PoolDel):
+                return PoolDel(prefixPool(i, pfa, expr.pool),
+                               expr.dell.replace(self),
+                               expr.pos)
             elif isinstance(expr, CastCase):
                 return CastCase(newPlaceholder(i, expr.avroType),
                                 expr.named,
@@ -513,7 +518,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
-- 
2.43.0


From 4cca4a6cdec68479585c85a4018d1af25a5bcd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 28/50] fix: chain.engine passed the shared state as the
 version and the multiplicity as the shared state

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 68e6a88..a055788 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -167,7 +167,7 @@ def engine(pfas, name=None, randseed=None, doc=None, version=None, metadata={},
     :rtype: titus.genpy.EngineConfig
     :return: a PFA document representing the chained workflow
     """
-    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState, multiplicity, style, debug)
+    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, None, sharedState, multiplicity, style, debug)
 
 def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, metadata={}, options={}, tryYaml=False, verbose=False):
     """Create a single PFA from a chained workflow, returning the result as an abstract syntax tree.
-- 
2.43.0


From 8107c19bd09aa56be8f0872f67ca50c058da6b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 29/50] fix: chain refused matching types that occur twice,
 confused the records of a union and renamed the types of the last output

---
 titus/producer/chain.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index a055788..1053aa8 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -281,11 +281,13 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 for f in avroType.fields:
                     trivialName(i, f.avroType, memo)
                 originalNameToNewName[i][t] = t
+    prefixedName = dict((i, dict(names)) for i, names in list(originalNameToNewName.items()))
     trivialName(0, pfas[0].input, set())
     trivialName(len(pfas) - 1, pfas[-1].output, set())
 
     # ensure that chained types match and will be given the same names
     if verbose: sys.stderr.write(time.asctime() + " Verifying that input/output schemas match along the chain\n")
+    samePairs = []
     def chainPair(i, first, second, memo):
         if isinstance(first, AvroNull) and isinstance(second, AvroNull):
             return True
@@ -303,7 +305,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return True
         elif isinstance(first, AvroFixed) and isinstance(second, AvroFixed):
             if first.size == second.size:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
+                samePairs.append((i, first.fullName, second.fullName))
                 return True
             else:
                 return False
@@ -311,7 +313,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return True
         elif isinstance(first, AvroEnum) and isinstance(second, AvroEnum):
             if first.symbols == second.symbols:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
+                samePairs.append((i, first.fullName, second.fullName))
                 return True
             else:
                 return False
@@ -320,17 +322,16 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         elif isinstance(first, AvroMap) and isinstance(second, AvroMap):
             return chainPair(i, first.values, second.values, memo)
         elif isinstance(first, AvroRecord) and isinstance(second, AvroRecord):
-            if first.fullName not in memo:
-                memo.add(first.fullName)
-                if len(first.fields) != len(second.fields):
+            pair = (first.fullName, second.fullName)
+            if pair not in memo:
+                before = len(samePairs)
+                memo.add(pair)      # recursive records match if nothing else about them differs
+                if len(first.fields) != len(second.fields) or not all(f1.name == f2.name and chainPair(i, f1.avroType, f2.avroType, memo) for f1, f2 in zip(first.fields, second.fields)):
+                    memo.remove(pair)
+                    del samePairs[before:]
                     return False
-                for f1, f2 in zip(first.fields, second.fields):
-                    if f1.name != f2.name:
-                        return False
-                    elif not chainPair(i, f1.avroType, f2.avroType, memo):
-                        return False
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
+            samePairs.append((i, first.fullName, second.fullName))
+            return True
         elif isinstance(first, AvroUnion) and isinstance(second, AvroUnion):
             for yt in second.types:
                 if not any(chainPair(i, xt, yt, memo) for xt in first.types):
@@ -344,6 +345,13 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         if not chainPair(i, first, second, set()):
             raise PFAChainError("output of engine {0}: {1} not compatible with input of engine {2}: {3}".format(i + 1, ts(first), i + 2, ts(second)))
 
+    # a name that should not be changed holds for the same type in earlier engines, then each engine takes its names from the one before
+    for i, firstName, secondName in reversed(samePairs):
+        if originalNameToNewName[i][firstName] == prefixedName[i][firstName] and originalNameToNewName[i + 1][secondName] != prefixedName[i + 1][secondName]:
+            originalNameToNewName[i][firstName] = originalNameToNewName[i + 1][secondName]
+    for i, firstName, secondName in samePairs:
+        originalNameToNewName[i + 1][secondName] = originalNameToNewName[i][firstName]
+
     def rename(i, avroType, memo):
         if isinstance(avroType, AvroArray):
             return {"type": "array", "items": rename(i, avroType.items, memo)}
-- 
2.43.0


From 94998d22168211a9842e9ebe10850e72d1c86be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 30/50] fix: chain defined an enum or fixed that a record uses
 twice twice

---
 titus/producer/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 1053aa8..0de6bb0 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -359,14 +359,18 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             return {"type": "map", "values": rename(i, avroType.values, memo)}
         elif isinstance(avroType, AvroUnion):
             return [rename(i, t, memo) for t in avroType.types]
+        elif isinstance(avroType, (AvroFixed, AvroEnum)) and originalNameToNewName[i][avroType.fullName] in memo:
+            return memo[originalNameToNewName[i][avroType.fullName]]
         elif isinstance(avroType, AvroFixed):
             ns, n = split(originalNameToNewName[i][avroType.fullName])
+            memo[join(ns, n)] = join(ns, n)
             out = {"type": "fixed", "name": n, "size": avroType.size}
             if ns is not None:
                 out["namespace"] = ns
             return out
         elif isinstance(avroType, AvroEnum):
             ns, n = split(originalNameToNewName[i][avroType.fullName])
+            memo[join(ns, n)] = join(ns, n)
             out = {"type": "enum", "name": n, "symbols": avroType.symbols}
             if ns is not None:
                 out["namespace"] = ns
-- 
2.43.0


From 5900e0aff55dec5a73539226b13fbbc9dec3193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 31/50] fix: chain could not convert the initial values of
 pools, nor data tagged with the name of a renamed type

---
 titus/producer/chain.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 0de6bb0..76c8a22 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -396,6 +396,26 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         else:
             return jsonlib.loads(repr(avroType))
 
+    # data that are tagged with the name of a type must follow when the type gets a new name
+    def renameData(i, avroType, data):
+        if isinstance(avroType, AvroArray):
+            return [renameData(i, avroType.items, x) for x in data]
+        elif isinstance(avroType, AvroMap):
+            return dict((k, renameData(i, avroType.values, v)) for k, v in list(data.items()))
+        elif isinstance(avroType, AvroRecord):
+            types = dict((f.name, f.avroType) for f in avroType.fields)
+            return dict((k, renameData(i, types[k], v) if k in types else v) for k, v in list(data.items()))
+        elif isinstance(avroType, AvroUnion) and isinstance(data, dict) and len(data) == 1:
+            (tag, value), = list(data.items())
+            for t in avroType.types:
+                if isinstance(t, (AvroFixed, AvroEnum, AvroRecord)) and t.fullName == tag:
+                    return {originalNameToNewName[i][tag]: renameData(i, t, value)}
+                elif isinstance(t, (AvroArray, AvroMap)) and t.name == tag:
+                    return {tag: renameData(i, t, value)}
+            return data
+        else:
+            return data
+
     avroTypeBuilder = AvroTypeBuilder()
     memo = {}
     def newPlaceholder(i, oldAvroType):
@@ -488,7 +508,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                                 expr.pos)
             elif isinstance(expr, Literal):
                 return Literal(newPlaceholder(i, expr.avroType),
-                               expr.value,
+                               jsonlib.dumps(renameData(i, expr.avroType, jsonlib.loads(expr.value))),
                                expr.pos)
             elif isinstance(expr, NewObject):
                 return NewObject(dict((k, v.replace(self)) for k, v in list(expr.fields.items())),
@@ -616,7 +636,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             cells[prefixCell(i, pfa, cellName)] = newCell
             if cell.source == "embedded":
                 def converter(avroType):
-                    original = jsonDecoder(cell.avroType, jsonlib.loads(cell.init))
+                    original = renameData(i, cell.avroType, jsonDecoder(cell.avroType, jsonlib.loads(cell.init)))
                     return jsonlib.dumps(jsonEncoder(avroType, original))
                 newCell.converter = converter
                 
@@ -628,8 +648,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             pools[prefixPool(i, pfa, poolName)] = newPool
             if pool.source == "embedded":
                 def converter(avroType):
-                    original = jsonDecoder(pool.avroType, jsonlib.loads(pool.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
+                    original = renameData(i, AvroMap(pool.avroType), jsonDecoder(AvroMap(pool.avroType), pool.initJsonNode))
+                    return dict((k, jsonlib.dumps(v)) for k, v in list(jsonEncoder(AvroMap(avroType), original).items()))
                 newPool.converter = converter
                 
     # make sure all the types work together
-- 
2.43.0


From 7ca7468290167a03f3e44aaa02c47941d79b4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 32/50] fix: chain with a version had an initial value that is
 not JSON

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 76c8a22..19f4941 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -450,7 +450,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
              "actionsStarted": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED),
              "actionsFinished": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)}
     if version is not None:
-        cells["version"] = Cell(newPlaceholder(0, AvroInt()), 0, False, False, CellPoolSource.EMBEDDED)
+        cells["version"] = Cell(newPlaceholder(0, AvroInt()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)
     pools = {}
 
     if verbose: sys.stderr.write(time.asctime() + " Converting scoring engine algorithm\n")
-- 
2.43.0


From 2f0ca74d09a689073cde3899c438c4dfac28febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 33/50] fix: chain sent a value emitted through {"fcn": "emit"}
 to the output instead of the next step

---
 titus/producer/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 19f4941..ee4f2a0 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -488,7 +488,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
                               expr.pos)
             elif isinstance(expr, FcnRef):
-                return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
+                if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
+                    return FcnRef("u." + nextActionFcnName, expr.pos)
+                else:
+                    return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
                                   dict((k, v.replace(self)) for k, v in list(expr.fill.items())),
-- 
2.43.0


From b4fdc1a1b45f0b13358513a97bee47e9aa5c6e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 34/50] fix: chain made one scope of all begin (and end)
 statements, and inline functions lost sight of name, instance, metadata and
 the counters

---
 titus/producer/chain.py | 57 ++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index ee4f2a0..b1a585f 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -480,12 +480,11 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             nextActionFcnName = None
 
         # this is a closure; it must be defined in the loop to pick up free variables
-        lazyFcnReplacer = None
         def genericReplacer(expr, self):
             if isinstance(expr, FcnDef):
                 return FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in expr.params],
                               newPlaceholder(i, expr.ret),
-                              [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
+                              [x.replace(self.inside(expr)) for x in expr.body],   # an inline function sees the symbols around it, except those its parameters hide
                               expr.pos)
             elif isinstance(expr, FcnRef):
                 if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
@@ -558,43 +557,37 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
         fcnReplacer.isDefinedAt = genericReplacer.isDefinedAt
+        fcnReplacer.inside = lambda fcnDef: fcnReplacer
+
+        # symbols that the engine provides are model parameters of the chain
+        def symbolReplacer(symbols):
+            def replacer(expr):
+                if isinstance(expr, Ref):
+                    if expr.name in symbols:
+                        return CellGet(expr.name, [], expr.pos)
+                    else:
+                        return expr
+                else:
+                    return genericReplacer(expr, replacer)
+            replacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
+            replacer.inside = lambda fcnDef: symbolReplacer(symbols.difference(list(t.keys())[0] for t in fcnDef.params))
+            return replacer
 
-        lazyFcnReplacer = fcnReplacer
+        beginSymbols = set(["name", "instance", "metadata"] + (["version"] if version is not None else []))
+        actionSymbols = beginSymbols.union(["actionsStarted", "actionsFinished"])
 
         # add statements to begin
-        def beginReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, beginReplacer)
-        beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        begin.extend([x.replace(beginReplacer) for x in pfa.begin])
+        beginReplacer = symbolReplacer(beginSymbols)
+        if len(pfa.begin) > 0:
+            begin.append(Do([x.replace(beginReplacer) for x in pfa.begin]))    # each step has its own scope
 
         # add statements to end
-        def endReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, endReplacer)
-        endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        end.extend([x.replace(endReplacer) for x in pfa.end])
+        endReplacer = symbolReplacer(actionSymbols)
+        if len(pfa.end) > 0:
+            end.append(Do([x.replace(endReplacer) for x in pfa.end]))
 
         # convert the action into a user function
-        def actionReplacer(expr):
-            if isinstance(expr, Ref):
-                if expr.name in ("name", "instance", "metadata", "actionsStarted", "actionsFinished") or (version is not None and expr.name == "version"):
-                    return CellGet(expr.name, [], expr.pos)
-                else:
-                    return expr
-            else:
-                return genericReplacer(expr, actionReplacer)
-        actionReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
+        actionReplacer = symbolReplacer(actionSymbols)
 
         body = [x.replace(actionReplacer) for x in pfa.action]
 
-- 
2.43.0


From c5efd7caeaed7d1083d7520c61a5cf5fd4895561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 35/50] fix: chain could not rename the parameter types of user
 functions

---
 titus/producer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index b1a585f..bae06fb 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -617,7 +617,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         # convert all of the user functions into user functions
         for fcnName, fcnDef in list(pfa.fcns.items()):
             # note: some of these user-defined functions may call emit; if so, they'll call the right emit
-            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.paramsPlaceholder],
+            fcns[prefixFcnDef(i, pfa, fcnName)] = FcnDef([{list(t.keys())[0]: newPlaceholder(i, list(t.values())[0])} for t in fcnDef.params],
                                                          newPlaceholder(i, fcnDef.ret),
                                                          [x.replace(fcnReplacer) for x in fcnDef.body],
                                                          fcnDef.pos)
-- 
2.43.0


From ddf0415af6cb28665be4636f4c85a8bd2454841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 36/50] fix: bytes given as input never equalled, and could not
 be compared with or used like, bytes of cells, literals and library functions

---
 titus/datatype.py  | 31 ++++++++++++++++++++++++++++---
 titus/genpy.py     | 31 +++++++++++--------------------
 titus/lib/bytes.py |  2 ++
 titus/lib/cast.py  |  6 ++----
 titus/lib/map.py   |  5 ++---
 5 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 3734a39..e580f3a 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,7 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, stringToBytes, bytesToString
 
 ######################################################### the most general types
 
@@ -1027,6 +1027,30 @@ def jsonEncoder(avroType, value, tagged=True):
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
 
+class TaggedDatumWriter(avro.io.DatumWriter):
+    """Writes data in the form that engines handle them, in which members of unions are tagged by their type and bytes are strings."""
+
+    def __init__(self, avroType):
+        super(TaggedDatumWriter, self).__init__(avroType.schema)
+        self.avroType = avroType
+
+    def write(self, datum, encoder):
+        self.write_data(self.writer_schema, tagUnions(self.avroType, datum), encoder)
+
+    def write_data(self, writer_schema, datum, encoder):
+        if writer_schema.type in ("bytes", "fixed") and isinstance(datum, str):
+            datum = stringToBytes(datum)
+        super(TaggedDatumWriter, self).write_data(writer_schema, datum, encoder)
+
+    def write_union(self, writer_schema, datum, encoder):
+        tag, value = ("null", None) if datum is None else list(datum.items())[0]
+        for index, member in enumerate(writer_schema.schemas):
+            if tag == getattr(member, "name", None) or tag == member.type:
+                encoder.write_long(index)
+                self.write_data(member, value, encoder)
+                return
+        raise TypeError("expecting {0}, found {1}".format(writer_schema, datum))
+
 def tagUnions(avroType, value):
     """Return value with every member of a union in the tagged form, ``{tag: value}``, that ``jsonDecoder`` expects.
 
@@ -1326,10 +1350,11 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
+        # engines handle bytes in their JSON form, a string of characters up to 0xff
         if isinstance(data, bytes):
-            return data
+            return bytesToString(data)
         elif isinstance(data, str):
-            return stringToBytes(data)
+            return bytesToString(stringToBytes(data))
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
diff --git a/titus/genpy.py b/titus/genpy.py
index 94939d7..dbe8b78 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -26,7 +26,7 @@ import random
 import struct
 
 from avro.datafile import DataFileReader, DataFileWriter
-from avro.io import DatumReader, DatumWriter
+from avro.io import DatumReader
 
 from titus.errors import *
 import titus.pfaast
@@ -1151,7 +1151,7 @@ def pack(state, scope, exprsDeclareRes, pos):
         else:
             out.append(struct.pack(f, value))
     
-    return b"".join(out)
+    return titus.util.bytesToString(b"".join(out))
 
 class MisalignedPacking(Exception):
     """Exception to raise if the packed length doesn't fit the format."""
@@ -1164,7 +1164,7 @@ def unpackOne(byte_s, scope, s, f, l):
         this, that = byte_s[:l], byte_s[l:]
         if len(this) != l:
             raise MisalignedPacking()
-        scope.let({s: this})
+        scope.let({s: titus.util.bytesToString(this)})
 
     elif f == "tonull":
         try:
@@ -1174,7 +1174,7 @@ def unpackOne(byte_s, scope, s, f, l):
         else:
             this = byte_s[:nullbyte]
             that = byte_s[(nullbyte + 1):]
-            scope.let({s: this})
+            scope.let({s: titus.util.bytesToString(this)})
 
     elif f == "prefixed":
         if len(byte_s) < 1:
@@ -1187,7 +1187,7 @@ def unpackOne(byte_s, scope, s, f, l):
         that = byte_s[(length + 1):]
         if len(this) != length:
             raise MisalignedPacking()
-        scope.let({s: this})
+        scope.let({s: titus.util.bytesToString(this)})
 
     elif f == "x":
         this, that = byte_s[:l], byte_s[l:]
@@ -1221,6 +1221,8 @@ def unpack(state, scope, byte_s, format, thenClause):
     :return: nothing
     """
 
+    if isinstance(byte_s, str):
+        byte_s = titus.util.stringToBytes(byte_s)
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
@@ -1249,6 +1251,8 @@ def unpackElse(state, scope, byte_s, format, thenClause, elseClause):
     :return: if there was no titus.genpy.MisalignedPacking exception, returns result of ``thenClause``, otherwise, returns result of ``elseClause``
     """
 
+    if isinstance(byte_s, str):
+        byte_s = titus.util.stringToBytes(byte_s)
     thenScope = DynamicScope(scope)
     try:
         for s, f, l in format:
@@ -1815,25 +1819,12 @@ class PFAEngine(object):
 
         return DataFileWriter(open(fileName, "wb"), OutputDatumWriter(self.config.output), self.config.output.schema)
 
-class OutputDatumWriter(DatumWriter):
-    """Writes data in the form that ``action`` returns and ``emit`` receives, in which members of unions are tagged by their type."""
-
-    def __init__(self, avroType):
-        super(OutputDatumWriter, self).__init__(avroType.schema)
-        self.avroType = avroType
+class OutputDatumWriter(titus.datatype.TaggedDatumWriter):
+    """Writes data in the form that ``action`` returns and ``emit`` receives."""
 
     def write(self, datum, encoder):
         self.write_data(self.writer_schema, titus.datatype.checkData(datum, self.avroType), encoder)
 
-    def write_union(self, writer_schema, datum, encoder):
-        tag, value = ("null", None) if datum is None else list(datum.items())[0]
-        for index, member in enumerate(writer_schema.schemas):
-            if tag == getattr(member, "name", None) or tag == member.type:
-                encoder.write_long(index)
-                self.write_data(member, value, encoder)
-                return
-        raise TypeError("expecting {0}, found {1}".format(writer_schema, datum))
-
 class FastAvroCorrector(object):
     """The fastavro library reads Avro strings as non-Unicode and doesn't tag unions. This wrapper class corrects it."""
 
diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 92799e8..af757b3 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -83,6 +83,8 @@ class Tester(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x):
         if paramTypes[0] == "bytes" or paramTypes[0] == {"type": "bytes"}:
             try:
+                if isinstance(x, str):
+                    x = stringToBytes(x)
                 codecs.decode(x, self.codec, "strict")
             except UnicodeDecodeError:
                 return False
diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 5910d7d..86f396c 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -22,7 +22,7 @@ import io
 import json
 
 import avro.schema
-from avro.io import BinaryEncoder, DatumWriter
+from avro.io import BinaryEncoder
 
 from titus.util import untagUnion, bytesToString
 from titus.datatype import schemaToAvroType
@@ -274,10 +274,8 @@ class CastAvro(LibFcn):
     sig = Sig([{"x": P.Wildcard("A")}], P.Bytes())
     errcodeBase = 17110
     def __call__(self, state, scope, pos, paramTypes, x):
-        schema = avro.schema.Parse(json.dumps(paramTypes[0]))
-        x = untagUnion(x, paramTypes[0])
         bytes_io = io.BytesIO()
-        writer = DatumWriter(schema)
+        writer = TaggedDatumWriter(jsonNodeToAvroType(paramTypes[0]))
         writer.write(x, BinaryEncoder(bytes_io))
         bytes_io.flush()
         return bytesToString(bytes_io.getvalue())
diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..fb6d07f 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -22,7 +22,7 @@ import io
 import json
 
 import avro.schema
-from avro.io import BinaryEncoder, BinaryDecoder, DatumReader, DatumWriter
+from avro.io import BinaryEncoder, BinaryDecoder, DatumReader
 
 from titus.fcn import Fcn
 from titus.fcn import LibFcn
@@ -41,9 +41,8 @@ prefix = "map."
 
 class ObjKey(object):
     def toKey(self, x, avroType):
-        x = jsonEncoder(avroType, x, False)
         bytes = io.BytesIO()
-        writer = DatumWriter(avroType.schema)
+        writer = TaggedDatumWriter(avroType)
         writer.write(x, BinaryEncoder(bytes))
         bytes.flush()
         return (base64.b64encode(bytes.getvalue())).decode()
-- 
2.43.0


From f59e6e3103afd513b4315f7bfa85fd94f595daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 37/50] fix: pack and unpack took int64, float64 and the like
 for their 4-byte namesakes, and failed on unknown formats with a NameError

---
 titus/pfaast.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 8361288..d4f0132 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5668,28 +5668,28 @@ class BinaryFormatter(object):
         :return: format declarer
         """
 
-        if re.match(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
-        elif re.match(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
-        elif re.match(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
-        elif re.match(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
-        elif re.match(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.match(BinaryFormatter.formatRawSize, f).group(1)))
-        elif re.match(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
-        elif re.match(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
-        elif re.match(BinaryFormatter.formatRaw, f):
+        if re.fullmatch(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
+        elif re.fullmatch(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
+        elif re.fullmatch(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
+        elif re.fullmatch(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.fullmatch(BinaryFormatter.formatRawSize, f).group(1)))
+        elif re.fullmatch(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
+        elif re.fullmatch(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
+        elif re.fullmatch(BinaryFormatter.formatRaw, f):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", self.pos)
+                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", pos)
         else:
-            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), self.pos)
+            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), pos)
 
 @titus.util.case
 class Pack(Expression):
-- 
2.43.0


From 90d872c7a91c5a95b87ab6d2767c131d2e2922bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 38/50] fix: a float that is not a number compared equal to
 every number

---
 titus/datatype.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index e580f3a..519913d 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1141,7 +1141,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
-- 
2.43.0


From d7131f78fb0d4555a2611cca099a32813d9c5396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 39/50] fix: jsonEncoder wrote a tagged member of a union as
 another member that it could be taken for

---
 titus/datatype.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 519913d..7ee56e2 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1004,8 +1004,9 @@ def jsonEncoder(avroType, value, tagged=True):
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
-            val, = list(value.values())
-            for t in avroType.types:
+            (tag, val), = list(value.items())
+            # the member that it is tagged as before one that it could be taken for
+            for t in [x for x in avroType.types if x.name == tag] + list(avroType.types):
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
-- 
2.43.0


From d884e19c6457d12390fffa5ee7df7e035fd5e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 40/50] fix: values of unions of several number types could not
 be compared (IndexError)

---
 titus/datatype.py  | 59 +++++++++++++++++++++++-----------------------
 titus/signature.py |  3 +++
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 7ee56e2..c76346d 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1050,6 +1050,12 @@ class TaggedDatumWriter(avro.io.DatumWriter):
                 encoder.write_long(index)
                 self.write_data(member, value, encoder)
                 return
+        for index, member in enumerate(writer_schema.schemas):
+            # a union of numbers may have been taken for its broadest member
+            if tag in ("int", "long", "float") and member.type in ("long", "float", "double"):
+                encoder.write_long(index)
+                self.write_data(member, value, encoder)
+                return
         raise TypeError("expecting {0}, found {1}".format(writer_schema, datum))
 
 def tagUnions(avroType, value):
@@ -1118,6 +1124,27 @@ def _isMember(avroType, value, exact=False):
         return False
     return False
 
+def _whichMember(avroType, value):
+    # the member of a union that a value is: (index, type, value without tag)
+    if isinstance(value, dict) and len(value) == 1:
+        (tag, val), = list(value.items())
+        for i, t in enumerate(avroType.types):
+            if t.name == tag:
+                return i, t, val
+        if tag in ("int", "long", "float"):
+            value = val    # a union of numbers may have been taken for its broadest member
+    found = None
+    for i, t in enumerate(avroType.types):
+        try:
+            jsonEncoder(t, value)
+        except titus.errors.AvroException:
+            pass
+        else:
+            found = i, t, value
+    if found is not None:
+        return found
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
 
@@ -1202,36 +1229,8 @@ def compare(avroType, x, y):
                     return comparison
         return 0
     elif isinstance(avroType, AvroUnion):
-        if isinstance(x, dict) and len(x) == 1:
-            (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == xtag][0]
-        else:
-            xtypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, x)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    xtypei = ti
-                    xtype = t
-            if xtypei is None:
-                raise titus.errors.AvroException()
-        if isinstance(y, dict) and len(y) == 1:
-            (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == ytag][0]
-        else:
-            ytypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, y)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    ytypei = ti
-                    ytype = t
-            if ytypei is None:
-                raise titus.errors.AvroException()
+        xtypei, xtype, x = _whichMember(avroType, x)
+        ytypei, ytype, y = _whichMember(avroType, y)
         if xtypei == ytypei:
             return compare(xtype, x, y)
         else:
diff --git a/titus/signature.py b/titus/signature.py
index 41f62e0..26ff254 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -207,6 +207,9 @@ class LabelData(object):
         elif len(realCandidates) == 0:
             return ValueError("list of types consists only of exception type")
 
+        elif all(isinstance(x, AvroUnion) and x == realCandidates[0] for x in realCandidates):
+            return realCandidates[0]
+
         elif all(isinstance(x, AvroNull) for x in realCandidates):
             return realCandidates[0]
         elif all(isinstance(x, AvroBoolean) for x in realCandidates):
-- 
2.43.0


From c696292874c3a4d38e2806a107231ceff84e118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 41/50] fix: input that is no datum of the input type was taken
 for one (booleans for numbers, numbers out of range, unknown enum symbols,
 fixed of the wrong size, strings and maps for arrays)

---
 titus/datatype.py | 50 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index c76346d..adc42e6 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1089,6 +1089,10 @@ def tagUnions(avroType, value):
                 return {t.name: tagUnions(t, value)}
     return value
 
+def _inRange(avroType, value):
+    bits = 31 if isinstance(avroType, AvroInt) else 63
+    return -2**bits <= value < 2**bits
+
 def _isMember(avroType, value, exact=False):
     # exact: as read from Avro (bytes are Python bytes, floating point numbers are not integers, int and long have their ranges)
     if isinstance(avroType, AvroNull):
@@ -1096,7 +1100,7 @@ def _isMember(avroType, value, exact=False):
     elif isinstance(avroType, AvroBoolean):
         return value is True or value is False
     elif isinstance(avroType, (AvroInt, AvroLong)):
-        if exact and isinstance(value, int) and not -2**(31 if isinstance(avroType, AvroInt) else 63) <= value < 2**(31 if isinstance(avroType, AvroInt) else 63):
+        if exact and isinstance(value, int) and not _inRange(avroType, value):
             return False
         return isinstance(value, int) and value is not True and value is not False
     elif isinstance(avroType, (AvroFloat, AvroDouble)):
@@ -1292,7 +1296,7 @@ def checkData(data, avroType):
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
-    elif isinstance(avroType, AvroInt):
+    elif isinstance(avroType, (AvroInt, AvroLong)):
         if isinstance(data, str):
             try:
                 data = int(data)
@@ -1300,24 +1304,14 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        elif not isinstance(data, int) or data is True or data is False:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
-
-    elif isinstance(avroType, AvroLong):
-        if isinstance(data, str):
-            try:
-                data = int(data)
-            except ValueError:
-                raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
-        elif isinstance(data, integerTypes):
-            data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        if not _inRange(avroType, data):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
+    elif isinstance(avroType, (AvroFloat, AvroDouble)) and (data is True or data is False):
+        raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+
     elif isinstance(avroType, AvroFloat):
         if isinstance(data, str):
             try:
@@ -1351,26 +1345,34 @@ def checkData(data, avroType):
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
         # engines handle bytes in their JSON form, a string of characters up to 0xff
         if isinstance(data, bytes):
-            return bytesToString(data)
+            data = bytesToString(data)
         elif isinstance(data, str):
-            return bytesToString(stringToBytes(data))
+            data = bytesToString(stringToBytes(data))
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if isinstance(avroType, AvroFixed) and len(data) != avroType.size:
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+
+    elif isinstance(avroType, AvroEnum):
+        if not isinstance(data, str):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if data not in avroType.symbols:
+            raise titus.errors.AvroException("expecting {0}, found {1}".format(ts(avroType), data))
 
-    elif isinstance(avroType, (AvroString, AvroEnum)):
+    elif isinstance(avroType, AvroString):
         if isinstance(data, str):
             return data
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroArray):
-        if hasattr(data, "__iter__"):
+        if hasattr(data, "__iter__") and not isinstance(data, (str, bytes, dict)):
             return [checkData(x, avroType.items) for x in data]
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
@@ -1405,7 +1407,7 @@ def checkData(data, avroType):
                 if tpe.name == tag:
                     try:
                         newData = checkData(value, tpe)
-                    except TypeError:
+                    except (TypeError, titus.errors.AvroException):
                         break
                     if tag == "null":
                         return newData
@@ -1416,7 +1418,7 @@ def checkData(data, avroType):
         for tpe in [x for x in avroType.types if _isMember(x, data, exact=True)] + list(avroType.types):
             try:
                 newData = checkData(data, tpe)
-            except TypeError:
+            except (TypeError, titus.errors.AvroException):
                 pass
             else:
                 if tpe.name == "null":
-- 
2.43.0


From eda4fcd828070233dcc0e5edd32d8ca2b753e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 42/50] fix: cast took map types for arrays: a map never
 matched its case, and unions of arrays and maps failed

---
 titus/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index adc42e6..9edca8b 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -802,7 +802,7 @@ class ForwardDeclarationParser(object):
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
             elif description.get("type") == "map" and "values" in description:
-                return AvroArray(self.getAvroType(description["values"]))
+                return AvroMap(self.getAvroType(description["values"]))
             elif description.get("type") in ("fixed", "enum", "record"):
                 if self.names.has_name(description.get("name"), description.get("namespace")):
                     return schemaToAvroType(self.names.get_name(description.get("name"), description.get("namespace")))
-- 
2.43.0


From b2a41e8470e52d21f5a204a46d8f855eef343119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 43/50] fix: pfaexternalize and pfasize failed on every
 document (iterators have no method next)

---
 scripts/pfaexternalize | 2 +-
 scripts/pfasize        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pfaexternalize b/scripts/pfaexternalize
index 79d1732..3c24f92 100644
--- a/scripts/pfaexternalize
+++ b/scripts/pfaexternalize
@@ -95,7 +95,7 @@ def doMap(parser, writer, stack, extractCells, extractPools, progress):
                 file = None
                 subwriter = writer
 
-            prefix, event, value = parser.next()
+            prefix, event, value = next(parser)
             doValue(event, value, parser, subwriter, stack + [key], extractCells, extractPools, progress)
 
             if file is not None:
diff --git a/scripts/pfasize b/scripts/pfasize
index 931382d..74c602c 100644
--- a/scripts/pfasize
+++ b/scripts/pfasize
@@ -100,7 +100,7 @@ def doMap(parser, stack, currentCounter):
                     print("Pool: {0}".format(stack[1]))
                 currentCounter = CurrentCounter()
 
-            prefix, event, value = parser.next()
+            prefix, event, value = next(parser)
             doValue(event, value, parser, stack + [key], currentCounter)
 
             if shouldTrack:
-- 
2.43.0


From 7ff4459b92029a431c77be8a7e3fd2d670d39dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 44/50] fix: pfachain, pfarandom and pfaexternalize reported
 success when the end of their output could not be written

---
 scripts/pfachain       | 3 ++-
 scripts/pfaexternalize | 2 ++
 scripts/pfarandom      | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/pfachain b/scripts/pfachain
index a4050a0..22e1dc9 100755
--- a/scripts/pfachain
+++ b/scripts/pfachain
@@ -68,4 +68,5 @@ if __name__ == "__main__":
     if arguments.output == "-":
         print(result)
     else:
-        open(arguments.output, "w").write(result)
+        with open(arguments.output, "w") as outputFile:
+            outputFile.write(result)
diff --git a/scripts/pfaexternalize b/scripts/pfaexternalize
index 3c24f92..ed2437a 100644
--- a/scripts/pfaexternalize
+++ b/scripts/pfaexternalize
@@ -244,4 +244,6 @@ if __name__ == "__main__":
     for prefix, event, value in parser:
         doValue(event, value, parser, outputStream.write, stack, extractCells, extractPools, progress)
         outputStream.write("\n")
+    if outputStream is not sys.stdout:
+        outputStream.close()
     progress.finish()
diff --git a/scripts/pfarandom b/scripts/pfarandom
index ec920c9..16c2472 100644
--- a/scripts/pfarandom
+++ b/scripts/pfarandom
@@ -212,4 +212,5 @@ if __name__ == "__main__":
     if arguments.fileName == "-":
         print(json.dumps(pfaDocument))
     else:
-        json.dump(pfaDocument, open(arguments.fileName, "w"))
+        with open(arguments.fileName, "w") as outputFile:
+            json.dump(pfaDocument, outputFile)
-- 
2.43.0


From c01a80030d8b9346651877aface01ea3688239a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 45/50] fix: the progress messages of pfaexternalize ended it
 with an error when no time passed or the clock was set back

---
 scripts/pfaexternalize | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pfaexternalize b/scripts/pfaexternalize
index ed2437a..63eb04d 100644
--- a/scripts/pfaexternalize
+++ b/scripts/pfaexternalize
@@ -117,7 +117,7 @@ class ProgressTrait(object):
         pass
     @staticmethod
     def twoSigFigs(x):
-        return round(x, 1 - int(math.floor(math.log10(x))))
+        return round(x, 1 - int(math.floor(math.log10(abs(x))))) if x != 0 else 0.0
 
 class ProgressMessages(ProgressTrait):
     def __init__(self, verbose):
@@ -159,7 +159,7 @@ class ProgressMeter(ProgressTrait):
         if p > self.lastP or t > self.lastT:
             p2 = int(math.floor(percent/2.0))
             bar = "|" + "*" * p2 + "-" * (50 - p2) + "|"
-            if self.lastT > 1:
+            if self.lastT > 1 and now != self.lastTime:
                 rate = (percent - self.lastPercent) / (now - self.lastTime)
                 estimate = (now - self.startTime) * self.size / self.position - (now - self.startTime)
                 line = "\r{0} {1}% in {2} secs at {3}/sec with {4} secs remaining".format(bar, p, t, self.twoSigFigs(rate), int(round(estimate)))
-- 
2.43.0


From c84b72a839700408c2768d77b594169cbb430e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 46/50] fix: pfaexternalize --progress wrote its messages into
 the document on standard output

---
 scripts/pfaexternalize | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pfaexternalize b/scripts/pfaexternalize
index 63eb04d..93c4fca 100644
--- a/scripts/pfaexternalize
+++ b/scripts/pfaexternalize
@@ -136,13 +136,13 @@ class ProgressMessages(ProgressTrait):
 
 class ProgressMeter(ProgressTrait):
     def __init__(self, inputStream):
-        print("First pass determines JSON object size (takes about 10 secs per GB)")
+        sys.stderr.write("First pass determines JSON object size (takes about 10 secs per GB)\n")
         self.size = 0
         chunk = inputStream.read(1024)
         while chunk:
             self.size += chunk.count("{") + chunk.count("[")
             chunk = inputStream.read(1024)
-        print("Input contains {0} objects/arrays; reopening to perform transformation".format(self.size))
+        sys.stderr.write("Input contains {0} objects/arrays; reopening to perform transformation\n".format(self.size))
         self.startTime = time.time()
         self.lastPercent = -1.0
         self.lastP = -1
-- 
2.43.0


From 0765df66971d0fb0714e7de3c31975eabca55778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 47/50] fix: pfaexternalize gave cells and pools whose source
 was spelled out two sources

---
 scripts/pfaexternalize | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/pfaexternalize b/scripts/pfaexternalize
index 93c4fca..10ef4d0 100644
--- a/scripts/pfaexternalize
+++ b/scripts/pfaexternalize
@@ -67,6 +67,13 @@ def doMap(parser, writer, stack, extractCells, extractPools, progress):
     first = True
     for prefix, event, key in parser:
         if event == "map_key":
+            if len(stack) == 2 and key == "source" and ((stack[0] == "cells" and stack[1] in extractCells) or (stack[0] == "pools" and stack[1] in extractPools)):
+                # a new source is written with the init
+                prefix, event, value = next(parser)
+                if value != "embedded":
+                    raise ValueError("{0} {1} is not embedded in the document".format(stack[0][:-1], stack[1]))
+                continue
+
             if not first:
                 writer(", ")
             else:
-- 
2.43.0


From 109aca6fd0c80aaf163bf6b453366ea50bad543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 48/50] fix: pfarandom --check failed on inputs with unions of
 arrays or maps

---
 scripts/pfarandom | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pfarandom b/scripts/pfarandom
index 16c2472..9df1b8c 100644
--- a/scripts/pfarandom
+++ b/scripts/pfarandom
@@ -86,7 +86,7 @@ def makeData(avroType):
         if isinstance(which, AvroNull):
             return None
         else:
-            return {typeName(which): makeData(which)}
+            return {which.name if isinstance(which, (AvroArray, AvroMap)) else typeName(which): makeData(which)}
 
 def makePFA(avroType, varcount=0):
     if isinstance(avroType, AvroNull):
-- 
2.43.0


From 3ea2aa44cd7bb6acab92372dbcea26621266f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 49/50] fix: pfarandom wrote documents that do not load for
 unions of several enums or fixed types

---
 scripts/pfarandom | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pfarandom b/scripts/pfarandom
index 9df1b8c..20112bb 100644
--- a/scripts/pfarandom
+++ b/scripts/pfarandom
@@ -137,7 +137,7 @@ def makePFA(avroType, varcount=0):
     elif isinstance(avroType, AvroUnion):
         return {"do": [
             {"let": {("which%d" % varcount): {"rand.int": [0, len(avroType.types)]}}},
-            {"cond": [{"if": {"==": [("which%d" % varcount), i]}, "then": makePFA(t, varcount + 1)} for i, t in enumerate(avroType.types)],
+            {"cond": [{"if": {"==": [("which%d" % varcount), i]}, "then": {"upcast": makePFA(t, varcount + 1), "as": typeName(avroType)}} for i, t in enumerate(avroType.types)],
              "else": {"error": "never gets here"}}
             ]}
 
-- 
2.43.0


From 6dbba03c9aa9682cfbc18a98623f75238d5d800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 50/50] fix: jsonDecoder took booleans for numbers, numbers out
 of range and text that is no bytes; infinities ended it with an OverflowError

---
 titus/datatype.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 9edca8b..cd9987a 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -887,31 +887,31 @@ def jsonDecoder(avroType, value):
     elif isinstance(avroType, AvroBoolean):
         if value is True or value is False:
             return value
-    elif isinstance(avroType, AvroInt):
-        try:
-            return int(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroLong):
+    elif isinstance(avroType, AvroNumber) and (value is True or value is False):
+        pass
+    elif isinstance(avroType, (AvroInt, AvroLong)):
         try:
-            return int(value)
-        except (ValueError, TypeError):
+            out = int(value)
+        except (ValueError, TypeError, OverflowError):
             pass
+        else:
+            if _inRange(avroType, out):
+                return out
     elif isinstance(avroType, AvroFloat):
         try:
             return float(value)
-        except (ValueError, TypeError):
+        except (ValueError, TypeError, OverflowError):
             pass
     elif isinstance(avroType, AvroDouble):
         try:
             return float(value)
-        except (ValueError, TypeError):
+        except (ValueError, TypeError, OverflowError):
             pass
     elif isinstance(avroType, AvroBytes):
-        if isinstance(value, str):
+        if isinstance(value, str) and all(ord(c) <= 0xff for c in value):
             return value
     elif isinstance(avroType, AvroFixed):
-        if isinstance(value, str):
+        if isinstance(value, str) and all(ord(c) <= 0xff for c in value):
             if len(value) == avroType.size:
                 return value
     elif isinstance(avroType, AvroString):
-- 
2.43.0


From 3c1d26672ce8f6cb6b667cb7e5aed4f83a098de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:56 +0000
Subject: [PATCH 01/45] fix: detect variable conflicts by group dependencies
 instead of rank overlap

---
 src/fora/inventory_wrapper.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c42b722..b3046d1 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -183,6 +183,9 @@ class InventoryWrapper(ModuleWrapper):
     _group_ranks_max: dict[str, int] = field(default_factory=dict)
     """The bottom-up rank for each group. Set when the inventory is processed."""
 
+    _group_predecessors: dict[str, set[str]] = field(default_factory=dict)
+    """All (transitive) dependencies for each group. Set when the inventory is processed."""
+
     _topological_order: list[str] = field(default_factory=list)
     """A topological order of all groups in this inventory. Set when the inventory is processed."""
 
@@ -544,6 +547,15 @@ class InventoryWrapper(ModuleWrapper):
         group_names.sort(key=lambda g: self._group_ranks_min[g])
         self._topological_order = group_names
 
+        # Calculate all transitive dependencies. As we iterate in topological order,
+        # the dependencies of a predecessor are always complete when they are needed.
+        self._group_predecessors = {}
+        for group in group_names:
+            preds = set(l_after(group))
+            for pred in l_after(group):
+                preds |= self._group_predecessors[pred]
+            self._group_predecessors[group] = preds
+
     def load(self) -> None:
         """
         This function preprocesses the declared hosts and groups, calculates
@@ -752,25 +764,23 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            previous_value = None if attr not in variable_action_history else variable_action_history[attr][-1].value
-            was_modified = previous_value != value
+            is_new = attr not in variable_action_history
+            was_modified = is_new or variable_action_history[attr][-1].value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
-            cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
+            cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten and not is_new else "definition"
 
             if initializer is None or was_overwritten or was_modified:
                 # If the variable was actually overwritten, we need to make sure that this module
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
                 if record_conflicts_group is not None and initializer is not None and attr in variable_action_history:
-                    # Determine if the ranks of this group and any previous defining module overlap
-                    # (which means they would share a common possible rank). If that is the case,
-                    # they don't have any dependency on each other and overwriting is forbidden
-                    # as their relative order is arbitrary. We already know that the current group
-                    # is ordered after the previous group, as we are iterating in topological order,
-                    # so a problem would only arise if the previous group's maximum possible rank
-                    # overlaps with our minimum required rank.
+                    # Determine if this group (transitively) depends on each previous defining module.
+                    # If that is not the case, overwriting is forbidden as their relative order is
+                    # arbitrary. We already know that the current group is ordered after the previous
+                    # group, as we are iterating in topological order, so the reverse dependency
+                    # is not possible.
                     for prev in variable_action_history[attr]:
-                        if self._group_ranks_max[prev.actor.name] >= self._group_ranks_min[record_conflicts_group.name]:
+                        if prev.actor.name not in self._group_predecessors[record_conflicts_group.name]:
                             if prev.action == "modification" and cur_action == "modification":
                                 # Ambiguous modification order is explicitly allowed.
                                 # While this could in theory also create ambiguities,
-- 
2.43.0


From 29160fc38698dd644727f8a80bad30e524979c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:26 +0000
Subject: [PATCH 02/45] fix: always order the all group after explicit host
 variables

---
 src/fora/inventory_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index b3046d1..1765da3 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -437,9 +437,10 @@ class InventoryWrapper(ModuleWrapper):
         # Ensure "early-explicits" group is defined.
         self._group_decls["early-explicits"] = GroupDeclaration(name="early-explicits")
 
-        # Ensure "all" group is defined.
+        # Ensure "all" group is defined, and is always loaded after the explicit host variables.
         if "all" not in self._group_decls:
-            self._group_decls["all"] = GroupDeclaration(name="all", after=["early-explicits"])
+            self._group_decls["all"] = GroupDeclaration(name="all")
+        self._group_decls["all"].after.append("early-explicits")
 
     def _ensure_used_groups_are_declared(self) -> None:
         """
-- 
2.43.0


From e3f3384f1e9566ca4e81e9b77913b6030e23d122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:26 +0000
Subject: [PATCH 03/45] fix: don't export the wrapped module as a variable

---
 src/fora/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fora/types.py b/src/fora/types.py
index 0c4483b..4821ef3 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -90,6 +90,7 @@ class ModuleWrapper:
     def is_exported_variable(self, attr: str, value: Any) -> bool:
         """Returns True if the the given variable doesn't inherently belong to this group."""
         return not (attr.startswith("_")
+                or attr == "module"
                 or attr in type(self).__annotations__
                 or attr in type(self).__dict__
                 or isinstance(value, ModuleType))
-- 
2.43.0


From 834efe4c710b46d500d9e9546b90e9144a8c5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:27 +0000
Subject: [PATCH 04/45] fix: isolate inventory variables between hosts

---
 src/fora/inventory_wrapper.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 1765da3..1b678e0 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -2,7 +2,7 @@
 from __future__ import annotations
 
 import os
-from copy import copy
+from copy import copy, deepcopy
 from dataclasses import dataclass, field
 from glob import glob
 from types import SimpleNamespace
@@ -12,6 +12,13 @@ from fora.remote_settings import RemoteSettings
 from fora.types import GroupWrapper, HostWrapper, ModuleWrapper, VariableActionSnapshot
 from fora.utils import CycleError, load_py_module, print_error, rank_sort
 
+def _private_copy(value: Any) -> Any:
+    """Returns a deep copy of the given value, or the value itself if it cannot be copied."""
+    try:
+        return deepcopy(value)
+    except Exception: # pylint: disable=broad-except
+        return value
+
 @dataclass
 class HostDeclaration:
     """A declaration of a host in an inventory."""
@@ -620,8 +627,9 @@ class InventoryWrapper(ModuleWrapper):
             if wrapper.name == "all":
                 # Add predefined global variables before the "all" group module is instanciated
                 setattr(module, "fora_managed", "This file is managed by fora.")
+                # (as copies, because a module may modify them in-place for the current host).
                 for attr, value in self.exported_variables().items():
-                    setattr(module, attr, value)
+                    setattr(module, attr, _private_copy(value))
 
             # Initialize global namespace if an initializer was provided.
             if initializer is not None:
@@ -802,6 +810,7 @@ class InventoryWrapper(ModuleWrapper):
         record_variable_change(early_explicits, initializer, "host", early_explicits.host, record_conflicts_group=early_explicits)
         # Expose explicitly configured variables from the host
         for attr, value in self._host_decls[host].vars.items():
+            value = _private_copy(value)
             setattr(explicits, attr, value)
             record_variable_change(early_explicits, initializer, attr, value, record_conflicts_group=early_explicits)
 
-- 
2.43.0


From 8bcfd2661046785e2a67f27c9e54c65cfe61c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:12 +0000
Subject: [PATCH 05/45] fix: report the module file as the definition file so
 recursive scripts are detected

---
 src/fora/types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index 4821ef3..dad3193 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -168,9 +168,8 @@ class ModuleWrapper:
         str
             The file.
         """
-        if self.module is None or getattr(self.module, "__path__", None) is None:
-            return "<internal>"
-        return self.module.__path__
+        file: Optional[str] = getattr(self.module, "__file__", None)
+        return "<internal>" if file is None else file
 
 @dataclass
 class GroupWrapper(ModuleWrapper):
-- 
2.43.0


From 3af7173c851aa94e9508870923dfab925e738685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 06/45] fix: never accept truncated fields when the connection
 ends

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b35d694..63698d5 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -168,7 +168,10 @@ class Connection:
 
     def read(self, count: int) -> bytes:
         """Reads exactly the given amount of bytes."""
-        return self.buffer_in.read(count)
+        data = self.buffer_in.read(count)
+        if len(data) != count:
+            raise IOError("Unexpected EOF in data stream")
+        return data
 
     def write(self, data: bytes, count: int) -> None:
         """Writes exactly the given amount of bytes from data."""
-- 
2.43.0


From a5f35e4f1c0bc25232ba427cfe07423d676dbc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 07/45] fix: don't write partial packets when serialization
 fails

---
 src/fora/connectors/tunnel_dispatcher.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 63698d5..87c3e58 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -9,6 +9,7 @@ needed remote system related utilities.
 
 import errno as sys_errno
 import hashlib
+import io
 import os
 import stat
 import struct
@@ -265,10 +266,16 @@ def _read_packet(cls: Type[Any], conn: Connection) -> Any:
     return cls(**kwargs)
 
 def _write_packet(cls: Type[Any], packet_id: u32, this: object, conn: Connection) -> None:
-    _serialize(conn, u32, packet_id)
+    # Serialize the whole packet first, so that a value which cannot be
+    # serialized never results in a partially written packet.
+    buffer = io.BytesIO()
+    buffered = Connection(conn.buffer_in, buffer)
+    _serialize(buffered, u32, packet_id)
     for f in cls._fields:
         ftype = cls.__annotations__[f]
-        _serialize(conn, ftype, getattr(this, f))
+        _serialize(buffered, ftype, getattr(this, f))
+    data = buffer.getvalue()
+    conn.write(data, len(data))
     conn.flush()
 
 def Packet(type: str) -> Callable[[Type[Any]], Any]: # pylint: disable=redefined-builtin
-- 
2.43.0


From c8863b483ac901e969537cc4b3b6ae2a641a8083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 08/45] fix: support strings that aren't valid utf-8 in the
 tunnel protocol

---
 src/fora/connectors/tunnel_dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 87c3e58..6b9430f 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -204,7 +204,7 @@ _serializers[u32]   = lambda conn, v: conn.write(pack(">I", v), 4)
 _serializers[i64]   = lambda conn, v: conn.write(pack(">q", v), 8)
 _serializers[u64]   = lambda conn, v: conn.write(pack(">Q", v), 8)
 _serializers[bytes] = lambda conn, v: (_serializers[u64](conn, len(v)), conn.write(v, len(v))) # type: ignore[func-returns-value]
-_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8'))
+_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8', errors='surrogateescape'))
 
 def _serialize(conn: Connection, vtype: Type[Any], v: Any) -> None:
     """Serializes v based on the underlying type 'vtype' and writes it to the given connection."""
@@ -230,7 +230,7 @@ _deserializers[u32]   = lambda conn: unpack(">I", conn.read(4))[0]
 _deserializers[i64]   = lambda conn: unpack(">q", conn.read(8))[0]
 _deserializers[u64]   = lambda conn: unpack(">Q", conn.read(8))[0]
 _deserializers[bytes] = lambda conn: conn.read(_deserializers[u64](conn))
-_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8')
+_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8', errors='surrogateescape')
 
 def _deserialize(conn: Connection, vtype: Type[Any]) -> Any:
     """Deserializes an object from the given connection based on the underlying type 'vtype' and returns it."""
-- 
2.43.0


From 0f78c984b02a18c33b735e53569921ef0e12edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 09/45] fix: support timestamps before the epoch in stat

---
 src/fora/connectors/tunnel_dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 6b9430f..74e666e 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -439,8 +439,8 @@ class PacketStatResult(NamedTuple):
     owner: str
     group: str
     size: u64
-    mtime: u64
-    ctime: u64
+    mtime: i64
+    ctime: i64
     sha512sum: Optional[bytes]
 
 @Packet(type='request')
@@ -493,8 +493,8 @@ class PacketStat(NamedTuple):
             owner=owner,
             group=group,
             size=u64(s.st_size),
-            mtime=u64(s.st_mtime_ns),
-            ctime=u64(s.st_ctime_ns),
+            mtime=i64(s.st_mtime_ns),
+            ctime=i64(s.st_ctime_ns),
             sha512sum=sha512sum))
 
 @Packet(type='response')
-- 
2.43.0


From b3dfbb22876ff830c4cc4f736bab43605e9f58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 10/45] fix: answer requests that cannot be processed instead
 of ending the dispatcher

---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 74e666e..7d5cfc1 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -805,7 +805,10 @@ def _main() -> None:
         try:
             packet.handle(conn)
         except OSError as e:
-            conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
+            conn.write_packet(PacketOSError(errno=i64(e.errno or 0), strerror=e.strerror or "", msg=str(e)))
+        except Exception as e: # pylint: disable=broad-except
+            # An unprocessable request must never end the connection.
+            conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=os.strerror(sys_errno.EINVAL), msg=f"{type(e).__name__}: {e}"))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From d893dda163732371808b48150b44f415fa9ee3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:44 +0000
Subject: [PATCH 11/45] fix: keep the protocol streams away from executed
 commands and resolve relative working directories once

---
 src/fora/connectors/tunnel_dispatcher.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 7d5cfc1..7f98b2b 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -418,10 +418,12 @@ class PacketProcessRun(NamedTuple):
 
         # Execute command with desired parameters
         try:
+            # The process must never have access to our own stdin and stdout,
+            # as they are used to communicate with the client.
             result = subprocess.run(self.command,
-                input=self.stdin,
-                capture_output=self.capture_output,
-                cwd=self.cwd,
+                **(dict(stdin=subprocess.DEVNULL) if self.stdin is None else dict(input=self.stdin)), # type: ignore[call-overload]
+                stdout=subprocess.PIPE if self.capture_output else sys.stderr,
+                stderr=subprocess.PIPE if self.capture_output else None,
                 preexec_fn=child_preexec,
                 check=False)
         except subprocess.SubprocessError as e:
-- 
2.43.0


From d7c97c39f8db1d802e57867d0b702cb2890b05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 12/45] fix: drop our supplementary groups when running
 commands as a different user

---
 src/fora/connectors/tunnel_dispatcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 7f98b2b..715aaee 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -412,6 +412,9 @@ class PacketProcessRun(NamedTuple):
             if gid is not None:
                 os.setresgid(gid, gid, gid)
             if uid is not None:
+                # Don't pass on our own supplementary groups to a different user
+                if uid != os.getuid() and gid is not None:
+                    os.initgroups(getpwuid(uid).pw_name, gid)
                 os.setresuid(uid, uid, uid)
             if self.cwd is not None:
                 os.chdir(self.cwd)
-- 
2.43.0


From 18b6e80fa4820d8fdb0cacf9f116b32381f28883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 13/45] fix: always release the connection when opening fails
 or the remote side is gone

---
 src/fora/connection.py                  |  7 ++++++-
 src/fora/connectors/tunnel_connector.py | 12 ++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index ec98372..106df88 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -31,7 +31,12 @@ class Connection:
     def __enter__(self) -> Connection:
         self.connector.open()
         self.host.connection = self
-        self._resolve_identity()
+        try:
+            self._resolve_identity()
+        except BaseException as e:
+            # Our context will not be entered, so nobody else would close the connection.
+            self.__exit__(type(e), e, e.__traceback__)
+            raise
         return self
 
     def __exit__(self, exc_type: Optional[Type[BaseException]], exc: Optional[BaseException], traceback: Optional[TracebackType]) -> None:
diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 68407c1..e826ad7 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -72,11 +72,19 @@ class TunnelConnector(Connector):
 
     def close(self) -> None:
         if self.is_open:
-            self.conn.write_packet(td.PacketExit())
+            self.is_open = False
+            try:
+                self.conn.write_packet(td.PacketExit())
+            except OSError:
+                # The remote side is already gone, but we still have to clean up.
+                pass
 
         if self.process is not None:
             if self.process.stdin is not None:
-                self.process.stdin.close()
+                try:
+                    self.process.stdin.close()
+                except OSError:
+                    pass
             self.process.wait()
             if self.process.stdout is not None:
                 self.process.stdout.close()
-- 
2.43.0


From 9bd6e7d27156ee4118a0cacd14de3472f35728a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 14/45] fix: don't fail to report a failed command whose output
 wasn't captured

---
 src/fora/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 7fb407f..3149746 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stdout.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stderr.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From 5a11f7a44d7938682df2503eccdc3896d80fc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 15/45] fix: refuse requests on connections that are not open

---
 src/fora/connectors/tunnel_connector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index e826ad7..ff66cdf 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -93,6 +93,8 @@ class TunnelConnector(Connector):
     def _request(self, packet: Any) -> Any:
         """Sends the request packet and returns the response.
         Propagates exceptions from raised from td.receive_packet."""
+        if self.process is None:
+            raise IOError("The connection is not open")
         self.conn.write_packet(packet)
         return td.receive_packet(self.conn, request=packet)
 
-- 
2.43.0


From 5673a47a4840e482120b3d8e107451556346bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 16/45] fix: don't lose special mode bits when uploading files
 with an owner

---
 src/fora/connectors/tunnel_dispatcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 715aaee..d4c190f 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -596,10 +596,11 @@ class PacketUpload(NamedTuple):
 
         with open(self.file, 'wb') as f:
             f.write(self.content)
-        if mode_oct is not None:
-            os.chmod(self.file, mode_oct)
+        # Changing the owner resets special mode bits, so the mode must be set last.
         if uid is not None or gid is not None:
             os.chown(self.file, uid or 0, gid or 0)
+        if mode_oct is not None:
+            os.chmod(self.file, mode_oct)
 
         conn.write_packet(PacketOk())
 
-- 
2.43.0


From ceb4895e4e252177965b67cc5083178053fc8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 17/45] fix: don't lose special mode bits when changing mode
 and owner

---
 src/fora/operations/files.py | 16 ++++++++--------
 src/fora/operations/utils.py |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 59659c8..54f89c8 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -125,14 +125,14 @@ def directory(path: str,
                 if op.changed("exists"):
                     conn.run(["mkdir", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
 
+                # Set correct mode, if needed. Changing the owner resets special mode bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.dir_mode, "--", path])
+
                 # Touch directory if requested
                 if not op.changed("exists") and op.changed("touched"):
                     conn.run(["touch", "--", path])
@@ -215,13 +215,13 @@ def file(path: str,
                 if op.changed("exists") or op.changed("touched"):
                     conn.run(["touch", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
+
+                # Set correct mode, if needed. Changing the owner resets special mode bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", path])
             else:
                 # Remove file if it should not be present
                 if op.changed("exists"):
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3bceae8..f1dbf02 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -168,14 +168,14 @@ def save_content(op: Operation,
                         owner=attr.owner,
                         group=attr.group)
             else:
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", dest])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", dest])
 
+                # Set correct mode, if needed. Changing the owner resets special mode bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", dest])
+
         return op.success()
 
 def check_absolute_path(path: str, path_desc: str) -> None:
-- 
2.43.0


From 25ccd1269d8f2690dcea8a0d8c5f2a910b4ac47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 18/45] fix: clear special mode bits of directories if
 requested

---
 src/fora/operations/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 54f89c8..6a62f12 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -131,7 +131,8 @@ def directory(path: str,
 
                 # Set correct mode, if needed. Changing the owner resets special mode bits.
                 if op.changed("mode") or op.changed("owner") or op.changed("group"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
+                    # Without additional leading zeros, chmod would not clear special bits of directories.
+                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])
 
                 # Touch directory if requested
                 if not op.changed("exists") and op.changed("touched"):
-- 
2.43.0


From ad9785a33630179d9151488a6d1abf6674c8d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 19/45] fix: replace links to directories instead of creating a
 link inside of the directory

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 6a62f12..8d801d8 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -303,7 +303,7 @@ def link(path: str,
             if present:
                 # Create link if it doesn't exist
                 if op.changed("target"):
-                    conn.run(["ln", "-sf", "--", target, path])
+                    conn.run(["ln", "-sfn", "--", target, path])
 
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
-- 
2.43.0


From ffc91ce421d005ab831b275f76b4f970d6cfed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 20/45] fix: preserve the owner of links when changing their
 target

---
 src/fora/operations/files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 8d801d8..12d0285 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -305,8 +305,8 @@ def link(path: str,
                 if op.changed("target"):
                     conn.run(["ln", "-sfn", "--", target, path])
 
-                # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                # Set correct owner and group, if needed. Changing the target creates a new link.
+                if op.changed("target") or op.changed("owner") or op.changed("group"):
                     conn.run(["chown", "--no-dereference", f"{attr.owner}:{attr.group}", "--", path])
 
                 # Touch link if requested
-- 
2.43.0


From 182ce68625e0b11d93af475605ce7f0070fda8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 21/45] fix: support existing links with targets that are not
 valid utf-8

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 12d0285..2bcea4e 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -292,7 +292,7 @@ def link(path: str,
 
             existing_target = conn.run(["readlink", "-n", path])
             # The link exists but may have a different target or different attributes
-            op.initial_state(exists=True, target=(existing_target.stdout or b"").decode(), owner=stat.owner, group=stat.group, touched=False)
+            op.initial_state(exists=True, target=(existing_target.stdout or b"").decode("utf-8", errors="surrogateescape"), owner=stat.owner, group=stat.group, touched=False)
 
         # Return success if nothing needs to be changed
         if op.unchanged():
-- 
2.43.0


From ffe62b5846934bc62de1735ca04eb6b99de25710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:59 +0000
Subject: [PATCH 22/45] fix: treat different spellings of the same mode as
 equal and refuse impossible modes

---
 src/fora/connection.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index 106df88..8569c76 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -80,21 +80,25 @@ class Connection:
         # Overlay settings on top of defaults
         settings = fora.script.current_defaults().overlay(settings)
 
-        # A function to check whether a mask is octal
-        def check_mask(mask: Optional[str], name: str) -> None:
+        # A function to check whether a mask is octal, which also returns the mask in
+        # its canonical form (i.e. the form in which the remote reports modes)
+        def check_mask(mask: Optional[str], name: str) -> str:
             if mask is None:
                 raise ValueError(f"Error while resolving settings: {name} cannot be None!")
             try:
-                int(mask, 8)
+                value = int(mask, 8)
             except ValueError:
                 raise ValueError(f"Error while resolving settings: {name} is '{mask}' but must be octal!") # pylint: disable=raise-missing-from
+            if not 0 <= value <= 0o7777:
+                raise ValueError(f"Error while resolving settings: {name} is '{mask}' but must be between 0 and 7777!")
+            return oct(value)[2:]
 
         settings.as_user  =  None if settings.as_user  is None else self.resolve_user(settings.as_user)
         settings.as_group =  None if settings.as_group is None else self.resolve_group(settings.as_group)
         settings.owner    =  None if settings.owner    is None else self.resolve_user(settings.owner)
         settings.group    =  None if settings.group    is None else self.resolve_group(settings.group)
-        check_mask(settings.file_mode, "file_mode")
-        check_mask(settings.dir_mode, "dir_mode")
+        settings.file_mode = check_mask(settings.file_mode, "file_mode")
+        settings.dir_mode = check_mask(settings.dir_mode, "dir_mode")
         check_mask(settings.umask, "umask")
         if settings.cwd:
             s = self.stat(settings.cwd)
-- 
2.43.0


From b6ec436419d3fecc12da069e7a66eec947cb3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:34 +0000
Subject: [PATCH 23/45] fix: don't fail operations when printing paths that are
 not valid utf-8

---
 src/fora/logger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index f7357e7..9c80cb4 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -98,6 +98,8 @@ def debug_args(msg: str, args: dict[str, Any]) -> None:
 
 def print_indented(msg: str, **kwargs: Any) -> None:
     """Same as print(), but prefixes the message with the indentation prefix."""
+    # Undecodable bytes in remote paths are represented by surrogates, which cannot be printed.
+    msg = msg.encode("utf-8", "backslashreplace").decode("utf-8")
     print(f"{indent_prefix()}{msg}", **kwargs)
 
 
-- 
2.43.0


From ab07d58d48e34d0471eb355b9ec00dbeddad4bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:39 +0000
Subject: [PATCH 24/45] fix: append the backup suffix to the filename of the
 edited file

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 2bcea4e..05f8856 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -716,7 +716,7 @@ def line(path: str,
             else:
                 if backup:
                     if isinstance(backup, bool):
-                        backup = f".{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
+                        backup = f"{os.path.basename(path)}.{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
                     conn.run(["cp", "-a", "--", path, os.path.join(os.path.dirname(path), backup)])
                 conn.upload(file=path, content=new_bytes)
 
-- 
2.43.0


From 0c220318b08855205b5ab04de0960d266c687d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:34 +0000
Subject: [PATCH 25/45] fix: only change the requested line when editing files

---
 src/fora/operations/files.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 05f8856..e860d9e 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -1,5 +1,6 @@
 """Provides operations related to creating and modifying files and directories."""
 
+import io
 import os
 import re
 from datetime import datetime, timezone
@@ -662,6 +663,15 @@ def line(path: str,
         orig_bytes: Optional[bytes] = None
         orig_content: Optional[str] = None
         line_present: bool = False
+        lines: list[str] = []
+
+        def matches(existing_line: str) -> bool:
+            existing_line = existing_line.rstrip("\r\n")
+            if regex is not None:
+                return bool(re.search(regex, existing_line))
+            if ignore_whitespace:
+                return line.strip() == existing_line.strip()
+            return line == existing_line
 
         # Examine current state
         stat = conn.stat(path)
@@ -674,13 +684,8 @@ def line(path: str,
             orig_content = orig_bytes.decode("utf-8", errors="surrogateescape")
 
             # Check whether the line is already contained
-            if regex is None:
-                if ignore_whitespace:
-                    line_present = line.strip() in [l.strip() for l in (orig_content or "").splitlines()]
-                else:
-                    line_present = line in (orig_content or "").splitlines()
-            else:
-                line_present = bool(re.search(regex, orig_content, re.MULTILINE))
+            lines = io.StringIO(orig_content, newline="").readlines()
+            line_present = any(matches(l) for l in lines)
 
         op.initial_state(line_present=line_present)
 
@@ -688,21 +693,16 @@ def line(path: str,
         if op.unchanged():
             return op.success()
 
-        lines = (orig_content or "").splitlines()
         if present:
-            lines.append(line)
+            # The last line might not have been terminated
+            if lines and not lines[-1].endswith(("\r", "\n")):
+                lines[-1] += "\n"
+            lines.append(line + "\n")
         else:
             # Remove matching lines
-            if regex is None:
-                if ignore_whitespace:
-                    lines = list(filter(lambda l: line != l.strip(), lines))
-                else:
-                    lines = list(filter(lambda l: line != l, lines))
-            else:
-                # mypy false positive here, ignore type warning
-                lines = list(filter(lambda l: not re.search(regex, l), lines)) # type: ignore[type-var]
+            lines = [l for l in lines if not matches(l)]
 
-        new_content = "\n".join(lines) + "\n"
+        new_content = "".join(lines)
         new_bytes = new_content.encode("utf-8", errors="surrogateescape")
 
         # Add diff if desired
-- 
2.43.0


From 152d8d3f2eb5394245cfca18d6f6c5e820ebb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:24 +0000
Subject: [PATCH 26/45] fix: return a failed result for raised operation errors
 if checking is disabled

---
 src/fora/operations/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ed55cce..e744830 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -261,11 +261,12 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                 ret = function(*args, **kwargs, op=op)
             except OperationError as e:
                 ret = op.failure(str(e))
-                # If we are not in debug mode, we modify the traceback such that the exception
-                # seems to originate at the calling site where the operation is called.
-                if fora.args.debug:
-                    raise
-                raise e.with_traceback(_calling_site_traceback())
+                if check:
+                    # If we are not in debug mode, we modify the traceback such that the exception
+                    # seems to originate at the calling site where the operation is called.
+                    if fora.args.debug:
+                        raise
+                    raise e.with_traceback(_calling_site_traceback())
             except subprocess.CalledProcessError as e:
                 ret = op.failure(str(e))
                 if not hasattr(e, "__fora_already_printed"):
-- 
2.43.0


From 15c6bd676dee7f985c0a53309b911d12ef2b001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:56 +0000
Subject: [PATCH 27/45] fix: respect check and name if passed as positional
 arguments

---
 src/fora/operations/api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index e744830..eef668a 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -1,6 +1,7 @@
 """Provides API to define operations."""
 
 from dataclasses import dataclass
+import inspect
 import subprocess
 import sys
 
@@ -250,12 +251,15 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                              tb_lineno=back_frame.f_lineno)
 
     def operation_wrapper(function: _TFunc) -> _TFunc:
+        function_signature = inspect.signature(function)
+
         @wraps(function)
         def wrapper(*args: Any, **kwargs: Any) -> Any:
             check_host_active()
 
-            op = Operation(op_name=op_name, name=kwargs.get("name", None))
-            check = kwargs.get("check", True)
+            arguments = function_signature.bind_partial(*args, **kwargs).arguments
+            op = Operation(op_name=op_name, name=arguments.get("name", None))
+            check = arguments.get("check", True)
 
             try:
                 ret = function(*args, **kwargs, op=op)
-- 
2.43.0


From c7630e703cb511469949c9b598cc18863b62e8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:56 +0000
Subject: [PATCH 28/45] fix: respect the trailing slash of the destination when
 the source has one too

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index e860d9e..ae36b70 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -470,7 +470,7 @@ def upload_dir(src: str,
     # If the destination denotes a directory, the actual directory is a
     # child directory thereof with similar name to the source.
     if dest[-1] == "/":
-        dest = os.path.join(dest, os.path.basename(src))
+        dest = os.path.join(dest, os.path.basename(os.path.abspath(src)))
 
     op.desc(dest)
     with logger.indent():
-- 
2.43.0


From 57bc2c5d8ede94897a232da88e91b3b021d39f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:01 +0000
Subject: [PATCH 29/45] fix: respect empty and zero values, gids and cleared
 groups for users and groups

---
 src/fora/operations/system.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1766e20..cf05741 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -121,17 +121,22 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_uid = uid or (current.uid if current else None)
-    target_group = group or (current.group if current else None)
+    target_uid = uid if uid is not None else (current.uid if current else None)
+    if group is not None:
+        # The group may have been given by its gid.
+        group_entry = conn.query_group(group=group)
+        target_group = group_entry.name if group_entry is not None else group
+    else:
+        target_group = current.group if current else None
     if append_groups:
-        target_groups = set((groups or []) + (current.groups if current else []))
+        target_groups = (groups or []) + (current.groups if current else [])
     else:
-        target_groups = groups or (current.groups if current else [])
-    target_groups = sorted(list(target_groups))
-    target_password_hash = password_hash or (current.password_hash if current else None)
-    target_comment = comment or (current.gecos if current else None)
-    target_home = home or (current.home if current else '/dev/null')
-    target_shell = shell or (current.shell if current else '/sbin/nologin')
+        target_groups = groups if groups is not None else (current.groups if current else [])
+    target_groups = sorted(set(target_groups))
+    target_password_hash = password_hash if password_hash is not None else (current.password_hash if current else None)
+    target_comment = comment if comment is not None else (current.gecos if current else None)
+    target_home = home if home is not None else (current.home if current else '/dev/null')
+    target_shell = shell if shell is not None else (current.shell if current else '/sbin/nologin')
 
     if present:
         op.final_state(exists=True, uid=target_uid, group=target_group, groups=target_groups, comment=target_comment, home=target_home, shell=target_shell, password_hash=target_password_hash)
@@ -173,7 +178,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
                 create_command.extend(["--shell", target_shell])
 
                 # Password hash
-                if target_password_hash:
+                if target_password_hash is not None:
                     create_command.extend(["--password", target_password_hash])
 
                 # User's name
@@ -192,7 +197,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
             if op.changed("group") and target_group is not None:
                 conn.run(["usermod", "--gid", target_group, "--", user])
 
-            if op.changed("groups") and len(target_groups) > 0:
+            if op.changed("groups"):
                 # Empty param for --groups is OK and does the expected thing.
                 conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])
 
@@ -261,7 +266,7 @@ def group(group: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, gid=current.gid)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_gid = gid or (current.gid if current else None)
+    target_gid = gid if gid is not None else (current.gid if current else None)
 
     if present:
         op.final_state(exists=True, gid=target_gid)
-- 
2.43.0


From 81f6667c821843a102a5b35f82810e5c05901f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 30/45] fix: ignore final states that are None instead of keys
 that are None

---
 src/fora/operations/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index eef668a..617065d 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -138,7 +138,7 @@ class Operation:
         if not ignore_none:
             return self.initial_state_dict == self.final_state_dict
 
-        keys_not_none = (k for k in self.final_state_dict if k is not None)
+        keys_not_none = (k for k, v in self.final_state_dict.items() if v is not None)
         for k in keys_not_none:
             if self.initial_state_dict[k] != self.final_state_dict[k]:
                 return False
-- 
2.43.0


From 240ea25a7dba4faa0622470487f705a59f9c6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 31/45] fix: report changes of services truthfully and query
 the requested service manager

---
 src/fora/operations/systemd.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 1afbcf7..c64494e 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -89,26 +89,27 @@ def service(service: str, # pylint: disable=redefined-outer-name
     if state is not None and state not in state_actions:
         raise ValueError(f"Invalid target state '{state}'")
 
+    base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
+
     # Examine current state
-    systemd_active_state = conn.run(["systemctl", "show", "--value", "--property", "ActiveState", "--", service]).stdout
-    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
+    systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
+    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating", "reloading"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
 
-    systemd_unit_file_state = conn.run(["systemctl", "show", "--value", "--property", "UnitFileState", "--", service]).stdout
+    systemd_unit_file_state = conn.run(base_command + ["show", "--value", "--property", "UnitFileState", "--", service]).stdout
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
-    op.final_state(state=state, enabled=enabled)
+    op.final_state(state=state if state is not None else cur_state, enabled=enabled if enabled is not None else cur_enabled)
 
     # Return success if nothing needs to be changed
-    if op.unchanged(ignore_none=True):
+    if op.unchanged():
         return op.success()
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
-        base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
         if op.changed("state") and state is not None:
             conn.run(base_command + [state_actions[state], "--", service])
 
-- 
2.43.0


From 880c94ccbeeffe702cfaca9c6e7b9c221c26db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 32/45] fix: count packages that are given repeatedly only once

---
 src/fora/operations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index f1dbf02..8617223 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -87,7 +87,7 @@ def generic_package(op: Operation,
 
     # Set initial and target state.
     op.initial_state(installed=sorted(list(installed)))
-    op.final_state(installed=sorted(list(packages)) if present else [])
+    op.final_state(installed=sorted(set(packages)) if present else [])
 
     # Return success if nothing needs to be changed
     if op.unchanged():
-- 
2.43.0


From 709c5e7ed47f1969557cdfe17eace81fd57c7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 33/45] fix: query packages with dpkg-query and never wait for
 confirmation in apt-get

---
 src/fora/operations/apt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index 3bdb985..9729db5 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -9,18 +9,18 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with dpkg-query on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["dpgk-query", "--show", "--showformat=${Status}"] + opts + ["--", package])
+    ret = fora.host.connection.run(["dpkg-query", "--show", "--showformat=${Status}"] + opts + ["--", package], check=False)
     return ret.stdout is not None and b"ok installed" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Installs a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "install"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "install"] + opts + ["--", package])
 
 def _uninstall(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Uninstalls a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "remove"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "remove"] + opts + ["--", package])
 
 @package_manager(command="apt-get")
 @operation("package")
-- 
2.43.0


From 948746212c3b88d326547218bf49c957d82cbb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:38 +0000
Subject: [PATCH 34/45] fix: treat unknown packages as not installed with
 portage

---
 src/fora/operations/portage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/portage.py b/src/fora/operations/portage.py
index bc771f1..3817305 100644
--- a/src/fora/operations/portage.py
+++ b/src/fora/operations/portage.py
@@ -9,7 +9,7 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with portage on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["emerge", "--info"] + opts + ["--", package])
+    ret = fora.host.connection.run(["emerge", "--info"] + opts + ["--", package], check=False)
     return ret.stdout is not None and b"was built with the following" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None, oneshot: bool = False) -> None: # pylint: disable=redefined-outer-name
@@ -56,7 +56,7 @@ def package(packages: list[str],
         The operation wrapper. Must not be supplied by the user.
     """
     _ = (name, check) # Processed automatically.
-    op.desc(str(package))
+    op.desc(str(packages))
 
     return generic_package(op, packages,
             present=present,
-- 
2.43.0


From e3e1f0ff9b2142456737cee4e3c255114e1532b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:44 +0000
Subject: [PATCH 35/45] fix: extract the host name from ssh:host and bracketed
 urls

---
 src/fora/connectors/ssh.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index 0b72278..f84d0c5 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -56,15 +56,21 @@ class SshConnector(TunnelConnector):
         if not url.startswith(f"{cls.schema}:"):
             raise ValueError(f"Cannot extract hostname from url without matching schema (expected '{cls.schema}', got '{url}').")
 
-        # strip ssh://
+        # strip ssh:// or ssh:
         # remaining: [user@]hostname[:port]
-        hostname = url[len(cls.schema) + 3:]
+        hostname = url[len(cls.schema) + 1:]
+        if hostname.startswith("//"):
+            hostname = hostname[2:]
 
         # Remove user
         pos = hostname.find("@")
         if pos >= 0:
             hostname = hostname[pos + 1:]
 
+        # Bracketed IPv6 literals contain colons
+        if hostname.startswith("[") and "]" in hostname:
+            return hostname[1:hostname.index("]")]
+
         # Remove port
         pos = hostname.find(":")
         if pos >= 0:
-- 
2.43.0


From 50844ee1d57c4d000e1631f3a755d52425065137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:40 +0000
Subject: [PATCH 36/45] fix: pass the inventory to templates as inventory

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index ae36b70..4ee65b9 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -50,7 +50,7 @@ def _render_template(templ: Template, context: Optional[dict]) -> bytes:
     if context is not None:
         dvars.update(context)
     dvars["host"] = fora.host
-    dvars["inventory"] = fora.host
+    dvars["inventory"] = fora.inventory
     return templ.render(dvars).encode("utf-8")
 
 @operation("dir")
-- 
2.43.0


From 824d977062cb91ca74b9e9035a10878eda5c3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:15 +0000
Subject: [PATCH 37/45] fix: check out and report the requested branch or tag
 of repositories

---
 src/fora/operations/git.py | 76 +++++++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index f0135d0..7b32b30 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -6,6 +6,45 @@ import fora
 from fora.operations.api import Operation, OperationResult, operation
 from fora.operations.utils import check_absolute_path
 
+def _resolve_remote_ref(url: str, branch_or_tag: Optional[str]) -> tuple[str, Optional[str]]:
+    """
+    Determines the full name of the requested remote reference and the commit it currently refers to.
+    As for `git clone --branch`, branches take precedence over tags.
+
+    Parameters
+    ----------
+    url
+        The url to the git repository.
+    branch_or_tag
+        Either a branch name or a tag, or None for the default branch of the remote.
+
+    Returns
+    -------
+    tuple[str, Optional[str]]
+        The reference and the commit, which is None if there is no such reference.
+    """
+    if branch_or_tag is None:
+        candidates = ["HEAD"]
+    else:
+        # The commit of an annotated tag is available under the name ending in `^{}`.
+        candidates = [f"refs/heads/{branch_or_tag}", f"refs/tags/{branch_or_tag}^{{}}", f"refs/tags/{branch_or_tag}"]
+
+    listing = fora.host.connection.run(["git", "ls-remote", "--symref", "--exit-code", "--", url, *candidates])
+    commits, symrefs = {}, {}
+    for entry in (listing.stdout or b"").decode("utf-8", errors="backslashreplace").splitlines():
+        # The patterns also match any reference that just ends with the requested name,
+        # so we need to compare the names below.
+        value, ref = entry.split("\t", maxsplit=1)
+        if value.startswith("ref: "):
+            symrefs[ref] = value[len("ref: "):]
+        else:
+            commits[ref] = value
+
+    for candidate in candidates:
+        if candidate in commits:
+            return symrefs.get(candidate, candidate).removesuffix("^{}"), commits[candidate]
+    return candidates[-1], None
+
 @operation("repo")
 def repo(url: str,
          path: str,
@@ -88,8 +127,9 @@ def repo(url: str,
         return op.success()
 
     # Check the newest available commit
-    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, branch_or_tag or "HEAD"])
-    newest_commit = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip().split()[0]
+    ref, newest_commit = _resolve_remote_ref(url, branch_or_tag)
+    if newest_commit is None:
+        return op.failure(f"remote '{url}' has no branch or tag '{branch_or_tag}'")
 
     op.final_state(initialized=True, commit=newest_commit)
 
@@ -125,14 +165,30 @@ def repo(url: str,
                 return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
 
             # Update the existing repository
-            update_cmd = ["git", "-C", path, "pull"]
-            if depth is not None:
-                update_cmd.extend(["--depth", str(depth)])
-            if rebase:
-                update_cmd.append("--rebase")
-            if ff_only:
-                update_cmd.append("--ff-only")
-            conn.run(update_cmd)
+            depth_opts = [] if depth is None else ["--depth", str(depth)]
+            branch = ref[len("refs/heads/"):] if ref.startswith("refs/heads/") else None
+            if branch is None:
+                # Tags are checked out without a branch, so there is nothing to pull.
+                conn.run(["git", "-C", path, "fetch", "--force", *depth_opts, "origin", f"{ref}:{ref}" if ref.startswith("refs/tags/") else ref])
+                conn.run(["git", "-C", path, "checkout", "--detach", newest_commit, "--"])
+            else:
+                current_branch = conn.run(["git", "-C", path, "symbolic-ref", "--quiet", "HEAD"], check=False)
+                if (current_branch.stdout or b"").strip() != ref.encode("utf-8"):
+                    # Switch to the requested branch
+                    conn.run(["git", "-C", path, "fetch", *depth_opts, "origin", f"+{ref}:refs/remotes/origin/{branch}"])
+                    exists = conn.run(["git", "-C", path, "show-ref", "--verify", "--quiet", ref], check=False).returncode == 0
+                    conn.run(["git", "-C", path, "checkout", *([branch] if exists else ["--no-track", "-b", branch, newest_commit]), "--"])
+
+                update_cmd = ["git", "-C", path, "pull", *depth_opts]
+                if rebase:
+                    update_cmd.append("--rebase")
+                if ff_only:
+                    update_cmd.append("--ff-only")
+                conn.run([*update_cmd, "origin", ref])
+
+                # Commits that are missing on the remote (e.g. because the branch was reset) are kept by git pull.
+                if (conn.run(["git", "-C", path, "rev-parse", "HEAD"]).stdout or b"").decode("utf-8", errors="backslashreplace").strip() != newest_commit:
+                    return op.failure(f"the repository '{path}' contains commits which are not part of '{ref}' on the remote")
 
             if update_submodules:
                 # Update submodules if requested
-- 
2.43.0


From cd9cf71d2e9b847a5c52485f1955c5063c05451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:20 +0000
Subject: [PATCH 38/45] fix: abort conflicting updates of repositories instead
 of leaving them half applied

---
 src/fora/operations/git.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index 7b32b30..ac6927f 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -184,7 +184,10 @@ def repo(url: str,
                     update_cmd.append("--rebase")
                 if ff_only:
                     update_cmd.append("--ff-only")
-                conn.run([*update_cmd, "origin", ref])
+                if conn.run([*update_cmd, "origin", ref], check=False).returncode != 0:
+                    # Never leave conflicting changes half applied, since the checkout would then look up to date.
+                    conn.run(["git", "-C", path, "rebase" if rebase and not ff_only else "merge", "--abort"], check=False)
+                    return op.failure(f"the repository '{path}' could not be updated to '{ref}' of the remote")
 
                 # Commits that are missing on the remote (e.g. because the branch was reset) are kept by git pull.
                 if (conn.run(["git", "-C", path, "rev-parse", "HEAD"]).stdout or b"").decode("utf-8", errors="backslashreplace").strip() != newest_commit:
-- 
2.43.0


From 30665f68b3a3e8490abf42c0e1da63406b2725ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 39/45] fix: do not color diffs and debug output when color is
 disabled

---
 src/fora/logger.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index 9c80cb4..d5f06c0 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -82,7 +82,7 @@ def debug(msg: str) -> None:
     if not fora.args.debug:
         return
 
-    print(f"   [1;34mDEBUG[m: {msg}", file=sys.stderr)
+    print(f"   {col('[1;34m')}DEBUG{col('[m')}: {msg}", file=sys.stderr)
 
 def debug_args(msg: str, args: dict[str, Any]) -> None:
     """Prints all given arguments when in debug mode."""
@@ -94,7 +94,7 @@ def debug_args(msg: str, args: dict[str, Any]) -> None:
     if len(args) > 0:
         str_args = " " + ", ".join(f"{k}={v}" for k,v in args.items())
 
-    print(f"   [1;34mDEBUG[m: {msg}{str_args}", file=sys.stderr)
+    print(f"   {col('[1;34m')}DEBUG{col('[m')}: {msg}{str_args}", file=sys.stderr)
 
 def print_indented(msg: str, **kwargs: Any) -> None:
     """Same as print(), but prefixes the message with the indentation prefix."""
@@ -308,7 +308,7 @@ def print_operation(op: Any, result: Any) -> None:
         diff_lines = []
         # Generate diffs
         for file, old, new in op.diffs:
-            diff_lines.extend(diff(file, old, new))
+            diff_lines.extend(diff(file, old, new, color=use_color()))
         # Print diffs with block character line
         if len(diff_lines) > 0:
             for l in diff_lines[:-1]:
-- 
2.43.0


From 8e56601a86c60f71896dd8ce3ec619cb9ace3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 40/45] fix: escape all non-printable characters in diffs

---
 src/fora/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index d5f06c0..ee0de79 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -168,8 +168,8 @@ def decode_escape(data: bytes, encoding: str = 'utf-8') -> str:
             return special[c]
 
         num = ord(c)
-        if not c.isprintable() and num <= 0xff:
-            return f"\\x{num:02x}"
+        if not c.isprintable():
+            return f"\\x{num:02x}" if num <= 0xff else f"\\u{num:04x}" if num <= 0xffff else f"\\U{num:08x}"
         return c
     return ''.join([escape_char(c) for c in data.decode(encoding, 'backslashreplace')])
 
-- 
2.43.0


From 0c67b9ed103f4450961661e25447306f9a2e3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 41/45] fix: respect disabled colors when inspecting
 inventories

---
 src/fora/main.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fora/main.py b/src/fora/main.py
index 2ae7990..3d7b50d 100644
--- a/src/fora/main.py
+++ b/src/fora/main.py
@@ -244,6 +244,12 @@ def main(argv: Optional[list[str]] = None) -> None:
             help="The user script containing the logic of what should be executed on the inventory.")
     parser.set_defaults(func=main_run)
 
+    # Disable color if requested, when NO_COLOR is set, or output is not a TTY
+    is_a_tty = hasattr(sys.stdout, 'isatty') and sys.stdout.isatty()
+    no_color = '--no-color' in argv or os.getenv("NO_COLOR") is not None or not is_a_tty
+    # Some options are executed while parsing, and must respect this too.
+    fora.args = argparse.Namespace(debug='--debug' in argv, no_color=no_color)
+
     try:
         args: argparse.Namespace = parser.parse_args(argv)
     except ArgumentParserError as e:
@@ -253,9 +259,7 @@ def main(argv: Optional[list[str]] = None) -> None:
     if args.debug:
         args.verbose = 99
 
-    # Disable color when NO_COLOR is set, or output is not a TTY
-    is_a_tty = hasattr(sys.stdout, 'isatty') and sys.stdout.isatty()
-    if os.getenv("NO_COLOR") is not None or not is_a_tty:
+    if no_color:
         args.no_color = True
 
     # Install exception hook to modify traceback, if debug isn't set.
-- 
2.43.0


From 079af7e64123540a91ff4a75973443fea2226bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 42/45] fix: correct the example dotfiles deploy

---
 src/fora/example_deploys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/example_deploys.py b/src/fora/example_deploys.py
index db92bf8..23a8c70 100644
--- a/src/fora/example_deploys.py
+++ b/src/fora/example_deploys.py
@@ -183,7 +183,7 @@ def init_structure_dotfiles() -> None:
         from fora.operations import files
 
         # Get home directory of current user
-        home = host.home_dir()
+        home = host.connection.home_dir()
 
         # zsh
         files.upload(src="zsh/zshrc", dest=f"{home}/.zshrc")
@@ -194,7 +194,7 @@ def init_structure_dotfiles() -> None:
 
         # neovim
         files.directory(path=f"{home}/.config/nvim")
-        files.upload(src="neovim/init.lua", dest=f"{home}/.config/init.lua")
+        files.upload(src="neovim/init.lua", dest=f"{home}/.config/nvim/init.lua")
         """))
 
 def init_structure_modular() -> None:
-- 
2.43.0


From e07e83fa8b7664dabce3181f3cc78f0c2a7f17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 43/45] fix: correct the example task that adds an nginx site

---
 src/fora/example_deploys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/example_deploys.py b/src/fora/example_deploys.py
index 23a8c70..ad158c9 100644
--- a/src/fora/example_deploys.py
+++ b/src/fora/example_deploys.py
@@ -38,10 +38,10 @@ files.template(
     name="Create the site definition",
     src="templates/site.j2",
     dest=f"/etc/nginx/sites/{params.site}")
-files.line_in_file(
-    name="Add ",
-    file="/etc/nginx/sites",
-    line=f"sites/{params.site}")
+files.line(
+    name="Include the site definition",
+    path="/etc/nginx/sites.conf",
+    line=f"include sites/{params.site};")
 """)
 
 _nginx_site_j2 = dedent("""\
-- 
2.43.0


From eb1433919061e3e109408a8371fa781107d6b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 44/45] fix: update outdated submodules of repositories that
 are up to date

If updating the submodules failed (or wasn't requested before), the
repository itself was current afterwards and the submodules were never updated.
---
 src/fora/operations/git.py | 41 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index ac6927f..29abc2c 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -102,8 +102,11 @@ def repo(url: str,
     conn = fora.host.connection
 
     stat_path = conn.stat(path)
+    submodules: dict[str, bool] = {}
     if stat_path is None:
-        op.initial_state(initialized=False, commit=None)
+        if update_submodules:
+            submodules["submodules_current"] = False
+        op.initial_state(initialized=False, commit=None, **submodules)
         cur_commit = None
     elif stat_path.type == "dir":
         # Assert that it is a git directory
@@ -116,7 +119,12 @@ def repo(url: str,
 
         remote_commit = conn.run(["git", "-C", path, "rev-parse", "HEAD"])
         cur_commit = (remote_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
-        op.initial_state(initialized=True, commit=cur_commit)
+
+        if update_submodules and update:
+            # Submodules may be outdated even if the repository isn't, for example if updating them failed before.
+            status_cmd = ["git", "-C", path, "submodule", "status", *(["--recursive"] if recursive_submodules else [])]
+            submodules["submodules_current"] = all(line.startswith(b" ") for line in (conn.run(status_cmd).stdout or b"").splitlines())
+        op.initial_state(initialized=True, commit=cur_commit, **submodules)
     else:
         return op.failure(f"path '{path}' exists but is not a directory!")
 
@@ -131,7 +139,7 @@ def repo(url: str,
     if newest_commit is None:
         return op.failure(f"remote '{url}' has no branch or tag '{branch_or_tag}'")
 
-    op.final_state(initialized=True, commit=newest_commit)
+    op.final_state(initialized=True, commit=newest_commit, **{what: True for what in submodules})
 
     # Return success if nothing needs to be changed
     if op.unchanged():
@@ -148,16 +156,7 @@ def repo(url: str,
                 clone_cmd.extend(["--branch", branch_or_tag])
             clone_cmd.extend(["--", url, path])
             conn.run(clone_cmd)
-
-            if update_submodules:
-                # Initialize submodules if requested
-                submodule_cmd = ["git", "-C", path, "submodule", "update", "--init"]
-                if shallow_submodules and depth is not None:
-                    submodule_cmd.extend(["--depth", str(depth)])
-                if recursive_submodules:
-                    submodule_cmd.extend(["--recursive"])
-                conn.run(submodule_cmd)
-        elif update:
+        elif cur_commit != newest_commit:
             # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
             ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
             current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
@@ -193,13 +192,13 @@ def repo(url: str,
                 if (conn.run(["git", "-C", path, "rev-parse", "HEAD"]).stdout or b"").decode("utf-8", errors="backslashreplace").strip() != newest_commit:
                     return op.failure(f"the repository '{path}' contains commits which are not part of '{ref}' on the remote")
 
-            if update_submodules:
-                # Update submodules if requested
-                submodule_update_cmd = ["git", "-C", path, "submodule", "update", "--init"]
-                if shallow_submodules and depth is not None:
-                    submodule_update_cmd.extend(["--depth", str(depth)])
-                if recursive_submodules:
-                    submodule_update_cmd.extend(["--recursive"])
-                conn.run(submodule_update_cmd)
+        if update_submodules:
+            # Initialize or update submodules if requested
+            submodule_cmd = ["git", "-C", path, "submodule", "update", "--init"]
+            if shallow_submodules and depth is not None:
+                submodule_cmd.extend(["--depth", str(depth)])
+            if recursive_submodules:
+                submodule_cmd.extend(["--recursive"])
+            conn.run(submodule_cmd)
 
     return op.success()
-- 
2.43.0


From 5f208d0521a84c23eb9dbe2e0c19c90586f7677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 45/45] fix: return a failed result from system.package and
 system.service without a supported manager if checking is disabled

---
 src/fora/operations/system.py |  4 ++--
 src/fora/operations/utils.py  | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index cf05741..2edd31b 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -345,7 +345,7 @@ def package(packages: list[str],
     conn = fora.host.connection
     package_fn = find_command(conn, utils.package_managers)
     if package_fn is None:
-        raise new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        return new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}", check=check)
 
     return cast(OperationResult, package_fn(packages=packages, present=present, name=name, check=check))
 
@@ -397,6 +397,6 @@ def service(service: str, # pylint: disable=redefined-outer-name
     conn = fora.host.connection
     service_fn = find_command(conn, utils.service_managers)
     if service_fn is None:
-        raise new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        return new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}", check=check)
 
     return cast(OperationResult, service_fn(service=service, state=state, enabled=enabled, name=name, check=check))
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 8617223..9ac7727 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -194,11 +194,11 @@ def check_absolute_path(path: str, path_desc: str) -> None:
     if path[0] != "/":
         raise ValueError(f"Path {path_desc} must be absolute")
 
-def new_op_fail(op_name: str, name: Optional[str], desc: str, error: str) -> OperationError:
+def new_op_fail(op_name: str, name: Optional[str], desc: str, error: str, check: bool = True) -> OperationResult:
     """
     Creates a new operation with given name and description and immediately
-    returns a failed status with the given error message. Also returns a OperationError in case
-    the callee want's to raise and exception.
+    returns a failed status with the given error message, or raises an
+    OperationError with that message if checking is enabled.
 
     This is useful for meta-operations, that have a failure condition before the
     required sub-operation is determined (e.g. `system.package` can call different package
@@ -206,5 +206,7 @@ def new_op_fail(op_name: str, name: Optional[str], desc: str, error: str) -> Ope
     """
     op = Operation(op_name=op_name, name=name)
     op.desc(desc)
-    op.failure(error)
-    return OperationError(error)
+    result = op.failure(error)
+    if check:
+        raise OperationError(error)
+    return result
-- 
2.43.0


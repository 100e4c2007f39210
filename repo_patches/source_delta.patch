From b0fce275e804389bd4d3c6fb5237d0433f68334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 01/38] fix: refuse floating-point values a single-precision
 primitive can't encode

---
 local/templates/primitive.py.j2 | 16 ++++++++++++++++
 vtelem/enums/primitive.py       | 22 ++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/local/templates/primitive.py.j2 b/local/templates/primitive.py.j2
index aa7b140..047a0b3 100644
--- a/local/templates/primitive.py.j2
+++ b/local/templates/primitive.py.j2
@@ -6,6 +6,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -43,6 +44,19 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """
+    Check that a floating-point value can be encoded by this primitive (a
+    single-precision type can't encode every double-precision value).
+    """
+
+    try:
+        struct.pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -60,6 +74,8 @@ class Primitive(Enum):
         *integer_bounds({{item["bytes"]}}, {{item["signed"]}}),
         integer_can_hold,
     )
+  {% elif item["python"]["type"] == "float" %}
+    {{item["name"]|upper}} = BasePrimitive("{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}}, validate=float_can_hold)
   {% else %}
     {{item["name"]|upper}} = BasePrimitive("{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}})
   {% endif %}
diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..2f1402a 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,19 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """
+    Check that a floating-point value can be encoded by this primitive (a
+    single-precision type can't encode every double-precision value).
+    """
+
+    try:
+        struct.pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,8 +141,12 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
-    DOUBLE = BasePrimitive("d", float, 8, "double", True)
+    FLOAT = BasePrimitive(
+        "f", float, 4, "float", True, validate=float_can_hold
+    )
+    DOUBLE = BasePrimitive(
+        "d", float, 8, "double", True, validate=float_can_hold
+    )
 
 
 def random_integer(prim: Primitive) -> int:
-- 
2.43.0


From cfea2d5ce14f080cf5f19a60c249e0a49cdec8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 02/38] fix: looking up an unknown name or identifier doesn't
 alter the registry

---
 vtelem/registry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
-- 
2.43.0


From 928426701e0e1d0264e759a77c5e23f888f171ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 03/38] fix: report malformed frames as undecodable instead of
 raising

---
 vtelem/parsing/encapsulation.py | 21 +++++++++++++--------
 vtelem/parsing/frames.py        |  3 +++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/vtelem/parsing/encapsulation.py b/vtelem/parsing/encapsulation.py
index 36d6c68..fedac07 100644
--- a/vtelem/parsing/encapsulation.py
+++ b/vtelem/parsing/encapsulation.py
@@ -57,16 +57,21 @@ def decode_frame(
     """Unpack a frame from an array of bytes."""
 
     buf = ByteBuffer(cast(bytearray, data), False, size)
-    app_id, header = parse_frame_header(buf, expected_id)
 
-    if header is None:
-        assert expected_id is not None
-        LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
-        return None
+    try:
+        app_id, header = parse_frame_header(buf, expected_id)
 
-    result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
-        header, buf, channel_registry
-    )
+        if header is None:
+            assert expected_id is not None
+            LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
+            return None
+
+        result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
+            header, buf, channel_registry
+        )
+    except (AssertionError, ValueError) as exc:
+        LOG.error("malformed frame (%d bytes): %r", size, exc)
+        return None
 
     footer = parse_frame_footer(buf)
     if footer.crc is not None:
diff --git a/vtelem/parsing/frames.py b/vtelem/parsing/frames.py
index a10acad..71e59fb 100644
--- a/vtelem/parsing/frames.py
+++ b/vtelem/parsing/frames.py
@@ -37,6 +37,7 @@ def parse_data_frame(
     for _ in range(header.size):
         chan = {"id": buf.read(DEFAULTS["id"])}
         chan["channel"] = registry.get_item(chan["id"])
+        assert chan["channel"] is not None
         assert not chan["channel"].is_stream
         obj["channels"].append(chan)
 
@@ -59,6 +60,7 @@ def parse_event_frame(
     for _ in range(header.size):
         event = {"id": buf.read(DEFAULTS["id"])}
         event["channel"] = registry.get_item(event["id"])
+        assert event["channel"] is not None
         assert not event["channel"].is_stream
         obj["events"].append(event)
 
@@ -93,6 +95,7 @@ def parse_stream_frame(
 
     obj = {"id": buf.read(DEFAULTS["id"])}
     obj["channel"] = registry.get_item(obj["id"])
+    assert obj["channel"] is not None
     assert obj["channel"].is_stream
     obj["index"] = buf.read(DEFAULTS["count"])
     obj["data"] = buf.read_bytes(header.size * obj["channel"].size())
-- 
2.43.0


From cf7b6916b4863c869806ff849705fb568403c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:09 +0000
Subject: [PATCH 04/38] fix: frame reassembly recovers from an unreasonable
 length with the next read

---
 vtelem/frame/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..e6dbd62 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -35,7 +35,7 @@ class FrameProcessor:
             self.size_stale = False
 
         # clear buffer state if we get an unreasonable value
-        if self.size > mtu:
+        if not self.size_stale and self.size > mtu:
             self.buffer.reset()
             self.size_stale = True
 
-- 
2.43.0


From 9c0485b738f0c3fe0f95d3d827bae5de73483b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 05/38] fix: message numbers wrap, unencodable message fields
 are refused instead of sent as zero

---
 vtelem/frame/message.py  | 2 +-
 vtelem/message/framer.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 75736e1..b478389 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -88,7 +88,7 @@ class MessageFrame(Frame):
         for field in MESSAGE_FIELDS:
             prim = TypePrimitive(field.type)
             if values is not None and field.name in values:
-                prim.set(values[field.name])
+                assert prim.set(values[field.name]), field.name
             result[field.name] = prim
         return result
 
diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..147744d 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -7,6 +7,7 @@ from json import JSONEncoder, dumps
 from typing import Dict, Sequence, Tuple, Type
 
 # internal
+from vtelem.classes import DEFAULTS
 from vtelem.classes.serdes import ObjectData, Serializable
 from vtelem.frame.framer import Framer
 from vtelem.frame.message import MessageFrame, frames_required
@@ -63,6 +64,7 @@ class MessageFramer(Framer):
             }
         )
         self.message_numbers[message_type] += 1
+        self.message_numbers[message_type] %= DEFAULTS["id"].value.max + 1
 
         frames = []
         frame_start = 0
-- 
2.43.0


From e041b11360add3c7595b4755419b129ac5324734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 06/38] fix: refuse to fragment a message when no payload fits
 a frame

---
 vtelem/frame/message.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index b478389..b27515f 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -102,4 +102,5 @@ def frames_required(
     """
 
     len_per_mtu = prototype.mtu - prototype.frame_overhead
+    assert len_per_mtu > 0
     return ceil(message_len / len_per_mtu), len_per_mtu
-- 
2.43.0


From 9a1e3085f695b8b99683f6df4337632684be7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:29 +0000
Subject: [PATCH 07/38] fix: count a queue element only when it was enqueued

A refused put (queue.Full) left the element and enqueue metrics one too high.
---
 vtelem/classes/metered_queue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..59574bf 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -58,7 +58,13 @@ class MeteredQueue(Queue):
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
+        try:
+            super().put(item, block, timeout)
+        except Exception:
+            # nothing was enqueued
+            self.env.metric_add(f"{self.name}.elements", -1, time)
+            self.env.metric_add(f"{self.name}.total_enqueued", -1, time)
+            raise
 
 
 def create(
-- 
2.43.0


From ff94d13b94e88d2b87eadd09b50b5f4be6829fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 08/38] fix: looking up an unknown enum string left it in the
 enumeration

Iterating the enumeration afterwards yielded the unknown string.
---
 vtelem/classes/user_enum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..5dd05be 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -103,7 +103,7 @@ class UserEnum(Serializable):
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -115,7 +115,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
-- 
2.43.0


From 0b84fcf0004147c45b9a8bc6cf71df88c8ee53aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 09/38] fix: an enum registry refuses a name it already holds

The duplicate check looked at the wrong mapping, so a second enum of the
same name replaced the first one under a new identifier.
---
 vtelem/registry/enum_retry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..cdcd459 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,8 +58,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
         with self.lock:
+            assert enum.name not in self.enum_data
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From 2a84b84e487f8e48ea8aaeec4af17509aa3850f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 10/38] fix: release the lock when a guarded section raises

The context manager kept the lock after an exception, so every other
thread using that object was blocked for good.
---
 vtelem/classes/time_entity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..44eae08 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -37,10 +37,10 @@ class OptionalRLock(AbstractContextManager):
             self.lock.acquire()
         return self.item
 
-    def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+    def __exit__(self, _, __, ___) -> Literal[False]:
+        """Release the lock (if we have one), also after an exception."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From f48b385d5b86bbd848ec271cdb0f6e6a1eb98127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:40 +0000
Subject: [PATCH 11/38] fix: a failing group read is reported as it is

The clean-up wrote back data that was never read (UnboundLocalError).
---
 vtelem/channel/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..a98f0f8 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -98,8 +98,8 @@ class ChannelGroup:
         synced with the environment.
         """
 
+        data = self.read()
         try:
-            data = self.read()
             yield data
         finally:
             self.write(data)
-- 
2.43.0


From ce4f90751d53ddba7ccf9c31413d9fb1441417e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:40 +0000
Subject: [PATCH 12/38] fix: a refused enum channel leaves no channel behind

The channel was registered before its enumeration and initial value were
checked.
---
 vtelem/telemetry/environment.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..9a9ff06 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,17 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
-        new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
-        )
         enum_type = self.enum_registry.get_id(enum_name)
         assert enum_type is not None
-        self.enum_channel_types[new_chan] = enum_type
+        first: Optional[Tuple[int, Optional[float]]] = None
         if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+            first = (enum_def.get_value(initial[0]), initial[1])
+        new_chan = self.add_channel(
+            name, DEFAULTS["enum"], rate, track_change, first, commandable
+        )
+        self.enum_channel_types[new_chan] = enum_type
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From 71a7930ac059d7f322493cfc74ef11b2dc2bd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:40 +0000
Subject: [PATCH 13/38] fix: a refused channel leaves no change event behind

Setting the initial value queued an event before the duplicate name was
noticed, which was then emitted for the channel already there.
---
 vtelem/channel/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..5afc18a 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -205,6 +205,7 @@ class ChannelEnvironment(TimeEntity):
         """
 
         with self.lock:
+            assert not self.has_channel(name)
             queue = None if not track_change else self.event_queue
             new_chan = Channel(name, instance, rate, queue, commandable)
             if initial is not None:
-- 
2.43.0


From 85436e2d5e8e423bbe0c6552693c4001f9335111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:32 +0000
Subject: [PATCH 14/38] fix: operate on daemon graphs of any size and report
 cycles

---
 vtelem/daemon/manager.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..c47da73 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -67,11 +67,13 @@ class DaemonManager(LockEntity):
         Execute an operation on daemons, respecting the dependency order.
         """
 
-        if not name_stack:
-            return
+        # daemons that wait for their dependencies
+        waiting: List[str] = []
 
-        curr = name_stack.pop()
-        if curr not in executed:
+        while name_stack:
+            curr = name_stack.pop()
+            if curr in executed:
+                continue
 
             # determine if we can execute yet
             to_execute: List[str] = []
@@ -83,15 +85,17 @@ class DaemonManager(LockEntity):
 
             # if we have dependencies, put them in front of us, otherwise
             # run against the current entry
-            if to_execute:
-                name_stack = to_execute + [curr] + name_stack
-            else:
+            if not to_execute:
                 results[curr] = self.perform(curr, operation, *args, **kwargs)
                 executed.append(curr)
-
-        self.perform_stack(
-            name_stack, executed, results, operation, *args, **kwargs
-        )
+            elif curr not in waiting:
+                waiting.append(curr)
+                name_stack.append(curr)
+                name_stack += to_execute
+            else:
+                LOG.error("daemon '%s' depends on itself.", curr)
+                results[curr] = False
+                executed.append(curr)
 
     def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
         """Attempt to perform an action on all daemons."""
-- 
2.43.0


From 77cb7300561a2440c0df6d0e4e2b3be9db52ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:32 +0000
Subject: [PATCH 15/38] fix: looking up an unknown daemon does not register it

---
 vtelem/daemon/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index c47da73..f85ce2d 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
-- 
2.43.0


From 6063f3bbb401b1ffbf574f56b6fbc2258861c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 16/38] fix: a context that could not start or pause a daemon
 leaves it alone

---
 vtelem/daemon/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..b4d72a3 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -263,8 +263,8 @@ class DaemonBase(TimeEntity):
         automatically stops it.
         """
 
+        assert self.start(*args, **kwargs)
         try:
-            assert self.start(*args, **kwargs)
             yield
         finally:
             stop_result = self.stop()
@@ -309,8 +309,8 @@ class DaemonBase(TimeEntity):
     def paused(self) -> Iterator[None]:
         """Exposes pausing and unpausing while yielded."""
 
+        assert self.pause()
         try:
-            assert self.pause()
             yield
         finally:
             assert self.unpause()
-- 
2.43.0


From 3e9377026ffad7cdb081d5ddadb8824fe0d5e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:44 +0000
Subject: [PATCH 17/38] fix: performing an operation without action is refused

---
 vtelem/daemon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index b4d72a3..36dd36a 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -153,7 +153,7 @@ class DaemonBase(TimeEntity):
 
         operation = self.daemon_ops[action]
         curr = self.get_state()
-        if curr in operation["skip_if_state"]:
+        if curr in operation.get("skip_if_state", []):
             return True
         if not operation["takes_args"]:
             return operation["action"]()
-- 
2.43.0


From 7a40887548307d78158a0cabff518bfa18d71eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 18/38] fix: a failing stream no longer ends the stream writer

---
 vtelem/stream/writer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..e321ea2 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -79,23 +79,23 @@ class StreamWriter(QueueDaemon):
                 to_remove = []
                 for stream_id, stream in streams.items():
                     try:
-                        assert stream.write(array) == size
+                        if stream.write(array) != size:
+                            raise OSError("incomplete write")
                         if self.stream_attrs[stream_id]["flush"]:
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
-                    except OSError as exc:
+                    except (OSError, ValueError) as exc:
                         msg = (
                             "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
+                            + "bytes: %s"
                         )
                         LOG.error(
                             msg,
-                            stream.name,
+                            getattr(stream, "name", stream),
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
                         to_remove.append((stream_id, stream))
 
@@ -103,7 +103,7 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in to_remove:
                     LOG.warning(
                         "removing stream '%s' (%d) errors writing",
-                        stream.name,
+                        getattr(stream, "name", stream),
                         stream_id,
                     )
 
-- 
2.43.0


From d8b8571ab0e7d63204b953c4eed6651644694206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 19/38] fix: an error handler may remove the stream itself

---
 vtelem/stream/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e321ea2..e85b8d4 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -111,7 +111,8 @@ class StreamWriter(QueueDaemon):
                     if self.error_handle is not None:
                         self.error_handle(stream_id)
 
-                    assert self.remove_stream(stream_id)
+                    # may have been removed already, by the handler above
+                    self.remove_stream(stream_id)
 
             # add to queues
             for queue in queues:
-- 
2.43.0


From 351339041dc3430b73bac3340514ba9ff8d781a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 20/38] fix: a failing stream no longer disturbs the udp client
 manager

---
 vtelem/classes/udp_client_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..c94a3e4 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,13 +40,16 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
+                # streams we didn't add aren't ours to close
+                if stream_id not in self.clients:
+                    return
                 sock, sock_file = self.clients[stream_id]
                 del self.clients[stream_id]
             name = sock.getsockname()
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
+            except OSError:  # pragma: no cover
                 pass
             finally:
                 sock.close()
-- 
2.43.0


From dc133716a1e72ddc5881208869bb9cbe9a6a08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 21/38] fix: removing a udp client only acts on clients, and
 always closes them

---
 vtelem/classes/udp_client_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index c94a3e4..ac35567 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -102,5 +102,6 @@ class UdpClientManager(LockEntity):
         """Remove a client connection by integer identifier, closes it."""
 
         with self.lock:
-            if self.writer.remove_stream(sock_id):
+            if sock_id in self.clients:
+                self.writer.remove_stream(sock_id)
                 self.closer(sock_id)
-- 
2.43.0


From 14fe5281385bd838f36a2015c2721c1807fd6112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 22/38] fix: unknown or malformed commands leave no trace

---
 vtelem/daemon/command_queue.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..f36076e 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -49,14 +49,16 @@ class CommandQueueDaemon(QueueDaemon):
 
             # make sure the element is a dictionary, has "command", has a
             # handler registered
-            if not isinstance(elem, dict) or "command" not in elem:
+            if not isinstance(elem, dict) or not isinstance(
+                elem.get("command"), str
+            ):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
                 if cmd_cb is not None:
                     cmd_cb(False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            if not self.handlers.get(elem["command"]):
                 err = (
                     f"{self.name}: command '{elem['command']}' "
                     "has no handlers, rejected"
-- 
2.43.0


From 95dc5d661c5c50bc5b32d485e0f7f79c515fbf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 23/38] fix: a raising command handler is a failure, not the
 end of the queue

---
 vtelem/daemon/command_queue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f36076e..20d88f2 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -77,7 +77,10 @@ class CommandQueueDaemon(QueueDaemon):
             # execute command
             handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
+                try:
+                    result, message = handler(cmd_data)
+                except Exception as exc:  # pylint: disable=broad-except
+                    result, message = False, f"{type(exc).__name__}: {exc}"
                 if result_cb is not None:
                     result_cb(result, message)
                 if cmd_cb is not None:
@@ -91,7 +94,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data),
+                    dict(cmd_data),
                     status,
                     message,
                 )
-- 
2.43.0


From 5a8928f7ffa9c167fa090082887bb9885c67024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 24/38] fix: look up http handlers the way they are registered

---
 vtelem/classes/http_request_mapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..011b425 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -60,6 +60,9 @@ class HttpRequestMapper:
     ) -> Tuple[Opt[RequestHandle], Opt[dict]]:
         """Retrieve a handle by request type and path."""
 
+        path = path.lower()
+        if path not in self.requests.get(request_type, {}):
+            return None, None
         return (
             self.requests[request_type][path],
             self.handle_data[request_type][path],
-- 
2.43.0


From b5fdd14801eaa2a5e63642080651ed0bf07d6d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 25/38] fix: announce the length of a response in bytes

---
 vtelem/classes/http_request_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 011b425..292ae26 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -168,10 +168,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        self.send_header("Content-Length", str(len(content)))
+        body = content.encode()
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From 1b8066b7af52e924761abc9196c6908cadce4431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 26/38] fix: a failing http handler's message goes into the
 body

---
 vtelem/classes/http_request_mapper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 292ae26..8661896 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -115,7 +115,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -124,8 +123,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         """
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
-        self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
+        self.send_error(HTTPStatus.NOT_FOUND, explain=msg)
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -159,8 +157,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-            self.send_error(status, content)
-            self.end_headers()
+            self.send_error(status, explain=content)
             self.close_connection = True
             return None
 
-- 
2.43.0


From 3b00324ed1b9784ab4439e6b27e075eff5e57910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 27/38] fix: answer a request whose uri cannot be parsed

---
 vtelem/classes/http_request_mapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 8661896..cce816a 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -135,7 +135,10 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         data.update(_data)
 
         # parse the request uri
-        parsed = urllib.parse.urlparse(self.path)  # type: ignore
+        try:
+            parsed = urllib.parse.urlparse(self.path)  # type: ignore
+        except ValueError:
+            return self._no_handle_response(self.command)
         self.path = parsed.path
         if parsed.query:
             data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore
-- 
2.43.0


From 512d928de214ef265680cf78cad9531ad7e46b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 28/38] fix: sleeping while time stands still

---
 vtelem/classes/time_keeper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..b5e8248 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -76,4 +76,5 @@ class TimeKeeper(Daemon):
     def sleep(self, amount: float) -> None:
         """Sleep for the specified amount, scaled appropriately."""
 
-        self.sleep_function(amount / self.scalar)
+        # time stands still when the scalar is zero, no amount will elapse
+        self.sleep_function(amount / (self.scalar or 1.0))
-- 
2.43.0


From 62690365cf8b5c7c4648e891212c7f782a0573e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 29/38] fix: staged frames are handed on after one that cannot
 be decoded

---
 vtelem/client/file.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..de976cd 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -60,16 +60,20 @@ class FileClient(DaemonBase, TelemetryClient):
         (and export via queue) more frames than were requested.
         """
 
-        # Determine how many frames to process, we can either process them all
-        # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
+        # Some payloads may not decode, continue with those that are staged.
+        while self.to_process:
+            # Determine how many frames to process, we can either process them
+            # all or we want to truncate so we don't process more than was
+            # requested.
+            process_count = len(self.to_process)
+            if task.max_frames is not None:
+                process_count = min(
+                    process_count, task.max_frames - self.frame_count
+                )
+            if process_count <= 0:
+                break
 
-        # Consume the desired number of payloads from our process list.
-        if process_count:
+            # Consume the desired number of payloads from our process list.
             to_process = [self.to_process.pop(0) for _ in range(process_count)]
             self.frame_count += self.handle_frames(to_process)
 
-- 
2.43.0


From d48915c76cd2d484b2a72bfc1d6d3a0353bc01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 30/38] fix: frames staged by an earlier run are handed on

---
 vtelem/client/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index de976cd..99974a8 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -101,7 +101,10 @@ class FileClient(DaemonBase, TelemetryClient):
             frame_size = new_default("count")
             assert self.env is not None
 
-            while self.state != DaemonState.STOPPING:
+            # Frames may still be staged from an earlier run.
+            reading = self.process_raw_frames(self.task)
+
+            while reading and self.state != DaemonState.STOPPING:
                 try:
                     data = stream.read(self.mtu + frame_size.type.value.size)
                     if not data:
-- 
2.43.0


From 076588baa7539482c79afc508e55edf48c8b72b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 31/38] fix: load the fragments of more than one message

---
 vtelem/message/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..589025d 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -97,15 +97,15 @@ class MessageCache(DataCache, MessageDispatcher):
         # load data for every message type
         for mtype in os.listdir(fragment_dir):
             type_data = self.fragment_data[int(mtype)]
-            curr = os.path.join(fragment_dir, mtype)
+            type_dir = os.path.join(fragment_dir, mtype)
 
             # load data for all crc's from this message type
-            for crc in os.listdir(curr):
+            for crc in os.listdir(type_dir):
                 crc_int = int(crc)
                 if crc_int not in type_data:
                     type_data[crc_int] = {}
                 crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                curr = os.path.join(type_dir, crc)
 
                 # load all fragments for this message's crc
                 for fragment in os.listdir(curr):
-- 
2.43.0


From c1ec32fd48e0e49d47d48198f40ffa791ada5e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 32/38] fix: count each message fragment once

---
 vtelem/message/cache.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 589025d..1ea050e 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -197,23 +197,25 @@ class MessageCache(DataCache, MessageDispatcher):
             return
 
         # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
+        fragments = self.fragment_data[message.type.value].get(message.crc, {})
+        if message.fragment_index not in fragments:
             self.store_fragment(
                 message.type, message.crc, message.fragment_index, message.data
             )
-            crc_data["fragments"] += 1
-
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
-                crc_data["complete"] = True
-                crc_data["number"] = message.number
-
-                # service message consumers
-                full_message = self.content(message.type, message.crc)
-                assert full_message is not None
-                self.service_callbacks(
-                    message.type, full_message[0], full_message[1]
-                )
+        fragments = self.fragment_data[message.type.value][message.crc]
+        crc_data["fragments"] = len(fragments)
+
+        # mark this message as complete if we now have all of the fragments
+        if crc_data["fragments"] == message.total_fragments:
+            crc_data["complete"] = True
+            crc_data["number"] = message.number
+
+            # service message consumers
+            full_message = self.content(message.type, message.crc)
+            assert full_message is not None
+            self.service_callbacks(
+                message.type, full_message[0], full_message[1]
+            )
 
 
 @contextmanager
-- 
2.43.0


From 3d1cdc36d513bda8234ab07f119bc72ec8be0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 33/38] fix: write message fragments atomically

---
 vtelem/message/cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 1ea050e..128f7dd 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -109,6 +109,8 @@ class MessageCache(DataCache, MessageDispatcher):
 
                 # load all fragments for this message's crc
                 for fragment in os.listdir(curr):
+                    if not fragment.isdigit():
+                        continue
                     with open(os.path.join(curr, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
@@ -128,8 +130,9 @@ class MessageCache(DataCache, MessageDispatcher):
         path = os.path.join(self.fragment_dir, str(mtype.value), str(crc))
         os.makedirs(path, exist_ok=True)
         path = os.path.join(path, str(fragment_index))
-        with open(path, "wb") as frag:
+        with open(path + ".part", "wb") as frag:
             frag.write(data)
+        os.replace(path + ".part", path)
 
     def complete(self, mtype: MessageType) -> List[int]:
         """Get complete messages (by checksum) for a given type."""
-- 
2.43.0


From 3fe8f26e4b279e3cf1d270de4cceeb22ec08b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 34/38] fix: a temporary message cache removes its fragments

---
 vtelem/message/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 128f7dd..cfce7c9 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -227,5 +227,5 @@ def from_temp_dir(
 ) -> Iterator[MessageCache]:
     """Create a message cache using a temporary directory."""
 
-    with TemporaryDirectory() as cache_dir:
-        yield MessageCache(cache_dir, initial_callbacks)
+    with TemporaryDirectory() as temp_dir:
+        yield MessageCache(os.path.join(temp_dir, "cache"), initial_callbacks)
-- 
2.43.0


From ab46679af4aa4aa56ebc4e00faf1f50c1ccd879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:01 +0000
Subject: [PATCH 35/38] fix: a cleaned message cache can be used again

---
 vtelem/message/cache.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index cfce7c9..7e731d4 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -5,6 +5,7 @@ vtelem - A module implementing a message storage.
 # built-in
 from contextlib import contextmanager
 import os
+import shutil
 from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
@@ -69,14 +70,26 @@ class MessageCache(DataCache, MessageDispatcher):
         self.fragment_data: dict = {}
         self.fragment_dir = cache_dir + "_fragments"
 
+        self.initialize_types()
+        self.load_fragments(self.fragment_dir)
+        self.service_all_callbacks()
+
+    def initialize_types(self) -> None:
+        """Initialize storage for every message type."""
+
         for mtype in MessageType:
             mtype_str = str(mtype.value)
             if mtype_str not in self.data:
                 self.data[mtype_str] = {}
             self.fragment_data[mtype.value] = {}
 
-        self.load_fragments(self.fragment_dir)
-        self.service_all_callbacks()
+    def clean(self) -> None:
+        """Clean the cache contents (and message fragments) from disk."""
+
+        super().clean()
+        shutil.rmtree(self.fragment_dir)
+        os.makedirs(self.fragment_dir)
+        self.initialize_types()
 
     def service_all_callbacks(self) -> None:
         """Invoke registered callbacks for all complete messages."""
-- 
2.43.0


From ded93596405c1e4850f3f5612dc5e5e2b1685c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:49 +0000
Subject: [PATCH 36/38] fix: each command handler gets the data as given

---
 vtelem/daemon/command_queue.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index 20d88f2..0830911 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -69,14 +69,14 @@ class CommandQueueDaemon(QueueDaemon):
                     cmd_cb(False, err)
                 return None
 
-            # provide data as a defaultdict no matter what
-            cmd_data: dict = defaultdict(lambda: None)
-            if "data" in elem and isinstance(elem["data"], dict):
-                cmd_data.update(elem["data"])
-
             # execute command
             handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
+                # provide data as a defaultdict no matter what
+                cmd_data: dict = defaultdict(lambda: None)
+                if "data" in elem and isinstance(elem["data"], dict):
+                    cmd_data.update(elem["data"])
+
                 try:
                     result, message = handler(cmd_data)
                 except Exception as exc:  # pylint: disable=broad-except
-- 
2.43.0


From c6b7ded28f047fe4d3877cfbff5565e134b547eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:14 +0000
Subject: [PATCH 37/38] fix: don't wait for room in the frame queue while
 holding the lock

---
 vtelem/channel/environment.py | 37 +++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 5afc18a..706a706 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -5,6 +5,7 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 # built-in
 from collections import defaultdict
 import logging
+from queue import Queue
 from typing import Any, Dict, List, Optional, Tuple
 
 # internal
@@ -220,10 +221,13 @@ class ChannelEnvironment(TimeEntity):
     def dispatch(self, time: float, should_log: bool = True) -> int:
         """Dispatch events and channel emissions."""
 
+        # the frame queue may be full, don't wait while holding the lock
+        frames: Queue = Queue()
         with self.lock:
-            data = self.dispatch_data(time)
-            events = self.dispatch_events(time)
+            data = self.dispatch_data(time, frames)
+            events = self.dispatch_events(time, frames)
             self.metric_add("dispatch_count", 1)
+        self.enqueue_frames(frames)
 
         total = data[0] + events[0]
 
@@ -262,22 +266,39 @@ class ChannelEnvironment(TimeEntity):
 
         return decode_frame(self.channel_registry, data, size, expected_id)
 
-    def dispatch_events(self, time: float) -> Tuple[int, int]:
+    def enqueue_frames(self, frames: Queue) -> None:
+        """
+        Move frames to the (bounded) frame queue, the environment's lock
+        shouldn't be held: whoever makes room may need it.
+        """
+
+        while not frames.empty():
+            self.frame_queue.put(frames.get())
+
+    def dispatch_events(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all queued events (build frames)."""
 
+        frames: Queue = Queue() if queue is None else queue
         result = self.framer.build_event_frames(
-            time, self.event_queue, self.frame_queue, self.write_crc
+            time, self.event_queue, frames, self.write_crc
         )
         self.metric_add("events_captured", result[1], time)
+        if queue is None:
+            self.enqueue_frames(frames)
         return result
 
-    def dispatch_data(self, time: float) -> Tuple[int, int]:
+    def dispatch_data(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all channel emissions for the specified, absolute time."""
 
-        result = self.framer.build_data_frames(
-            time, self.frame_queue, self.write_crc
-        )
+        frames: Queue = Queue() if queue is None else queue
+        result = self.framer.build_data_frames(time, frames, self.write_crc)
         self.metric_add("emits_captured", result[1], time)
+        if queue is None:
+            self.enqueue_frames(frames)
         return result
 
     def dispatch_now(self, *_, should_log: bool = True, **__) -> int:
-- 
2.43.0


From 4e7261eb7e7e672ceca810d1af2c916b6256c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:14 +0000
Subject: [PATCH 38/38] fix: don't wait for room in a client's queue while
 holding the lock

---
 vtelem/stream/writer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e85b8d4..324d6fe 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -279,9 +279,12 @@ class QueueClientManager(LockEntity):
 
         closed = 0
         with self.lock:
-            for queue_id in self.active_client_queues:
-                if self.writer.remove_queue(queue_id):
-                    closed += 1
+            queue_ids = list(self.active_client_queues)
+
+        # a client's queue may be full, don't wait while holding the lock
+        for queue_id in queue_ids:
+            if self.writer.remove_queue(queue_id):
+                closed += 1
         return closed
 
 
-- 
2.43.0


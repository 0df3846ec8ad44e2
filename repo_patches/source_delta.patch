From 04e04e382c03ae05ae052aa78af83a1b15b8c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 01/49] fix: character strings: count octets, not characters,
 in the length prefix

---
 zigpy/types/basic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index c08cab8..b173c22 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -940,15 +940,18 @@ class CharacterString(str):
         return instance
 
     def serialize(self) -> bytes:
-        if len(self) >= pow(256, self._prefix_length) - 1:
+        # The length prefix counts octets, not characters
+        encoded = self.encode("utf8")
+
+        if len(encoded) >= pow(256, self._prefix_length) - 1:
             raise ValueError("String is too long")
 
         if self.invalid:
             return self._invalid_length.to_bytes(self._prefix_length, "little")
 
-        return len(self).to_bytes(
-            self._prefix_length, "little", signed=False
-        ) + self.encode("utf8")
+        return (
+            len(encoded).to_bytes(self._prefix_length, "little", signed=False) + encoded
+        )
 
     @classmethod
     def deserialize(cls: type[T], data: bytes) -> tuple[T, bytes]:
-- 
2.43.0


From 450612d8a320348ce5f6a06ce606d966b8219aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 02/49] fix: long character strings: use the two byte invalid
 length marker

---
 zigpy/types/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index b173c22..2fdf6d7 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -978,6 +978,7 @@ class CharacterString(str):
 
 class LongCharacterString(CharacterString):
     _prefix_length = 2
+    _invalid_length = (1 << (8 * _prefix_length)) - 1
 
 
 def LimitedCharString(max_len):  # noqa: N802
-- 
2.43.0


From e05d57cf3ce1eed3e3b874380e369a6ff13e33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 03/49] fix: floats: keep the smallest normal exponent when
 converting between formats

---
 zigpy/types/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 2fdf6d7..9c61f66 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -669,7 +669,7 @@ class BaseFloat(float):
         elif src_biased_exp == 0:
             dst_biased_exp = 0
         else:
-            dst_min_exp = 2 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
+            dst_min_exp = 1 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
             dst_max_exp = 2 ** (dst._exponent_bits - 1) - 2  # Can't be all ones
             dst_exp = min(max(dst_min_exp, src_exp), dst_max_exp)
             dst_biased_exp = dst_exp + 2 ** (dst._exponent_bits - 1)
-- 
2.43.0


From ff2ca625cb3cde8b0b4d1e27bc3b869c159ddab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 04/49] fix: integer structs: do not recurse when formatting an
 incomplete value

---
 zigpy/types/struct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index 36c4fe6..a42d039 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -381,9 +381,10 @@ class Struct:
 
     def __repr__(self) -> str:
         fields = []
+        fields_assigned = self.assigned_fields()
 
         # Assigned fields are displayed as `field=value`
-        for f, v in self.assigned_fields():
+        for f, v in fields_assigned:
             fields.append(f"{f.name}={f.repr(v)}")
 
         cls = type(self)
@@ -402,7 +403,8 @@ class Struct:
 
         extra_parts = []
 
-        if self._int_type is not None:
+        # An incomplete struct has no integer value
+        if self._int_type is not None and len(fields_assigned) == len(self.fields):
             extra_parts.append(f"{self._int_type(int(self))._hex_repr()}")
 
         if self._frozen:
-- 
2.43.0


From c584d40d591d63dde7dfc7468f0230dc900fe67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 05/49] fix: reporting configuration: copy and format records
 without a reportable change

---
 zigpy/zcl/foundation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 9591f2d..f1bfb1f 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -757,13 +757,19 @@ class AttributeReportingConfig:
         if isinstance(other, self.__class__):
             self.direction: ReportingDirection = other.direction
             self.attrid: t.uint16_t = other.attrid
+            if not hasattr(other, "timeout") and not hasattr(other, "datatype"):
+                # A failed record consists of only a direction and an attribute ID
+                return
             if self.direction == ReportingDirection.ReceiveReports:
                 self.timeout: int = other.timeout
                 return
             self.datatype: DataTypeId = other.datatype
             self.min_interval: int = other.min_interval
             self.max_interval: int = other.max_interval
-            self.reportable_change: int = other.reportable_change
+            # Only analog data types have a reportable change
+            self.reportable_change: int | None = getattr(
+                other, "reportable_change", None
+            )
 
     def serialize(self, *, _only_dir_and_attrid: bool = False) -> bytes:
         r = ReportingDirection(self.direction).serialize()
@@ -831,14 +837,14 @@ class AttributeReportingConfig:
         r += f"direction={self.direction}"
         r += f", attrid=0x{self.attrid:04X}"
 
-        if self.direction == ReportingDirection.ReceiveReports:
+        if hasattr(self, "timeout"):
             r += f", timeout={self.timeout}"
         elif hasattr(self, "datatype"):
             r += f", datatype={self.datatype}"
             r += f", min_interval={self.min_interval}"
             r += f", max_interval={self.max_interval}"
 
-            if self.reportable_change is not None:
+            if getattr(self, "reportable_change", None) is not None:
                 r += f", reportable_change={self.reportable_change}"
 
         r += ")"
-- 
2.43.0


From 860361ff3b923bb368543bd9c2a6b8a4393b9a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 06/49] fix: IAS warning: clear the strobe bits when setting
 the strobe

---
 zigpy/zcl/clusters/security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/clusters/security.py b/zigpy/zcl/clusters/security.py
index 0ed393a..a8348e5 100644
--- a/zigpy/zcl/clusters/security.py
+++ b/zigpy/zcl/clusters/security.py
@@ -441,7 +441,7 @@ class WarningType(_SquawkOrWarningCommand):
 
     @strobe.setter
     def strobe(self, strobe: Strobe) -> None:
-        self.value = (self.value & 0xF7) | (
+        self.value = (self.value & 0xF3) | (
             (strobe & 0x01) << 2  # type:ignore[operator]
         )
 
-- 
2.43.0


From f1f6e47f5a850a160ec584405131c3b632538563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:33 +0000
Subject: [PATCH 07/49] fix: data types: use the whole width for the 64-bit and
 enum16 non-values

---
 zigpy/zcl/foundation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index f1bfb1f..435a50a 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -406,7 +406,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.uint64_t,
         DataClass.Analog,
         "Unsigned 64-bit integer",
-        t.uint64_t(0xFFFFFFFFFFFFFF),
+        t.uint64_t(0xFFFFFFFFFFFFFFFF),
     )
     int8 = (
         DataTypeId.int8,
@@ -462,7 +462,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.int64s,
         DataClass.Analog,
         "Signed 64-bit integer",
-        t.int64s(-0x80000000000000),
+        t.int64s(-0x8000000000000000),
     )
     enum8 = (
         DataTypeId.enum8,
@@ -476,7 +476,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.enum16,
         DataClass.Discrete,
         "16-bit enumeration",
-        t.enum16(0xFF),
+        t.enum16(0xFFFF),
     )
     semi = (
         DataTypeId.semi,
-- 
2.43.0


From 5f95c405fadb821dbba52adca1f2fc198d292795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 08/49] fix: fixed lists: give the item type before the length

---
 zigpy/zcl/clusters/protocol.py | 18 +++++++++---------
 zigpy/zdo/types.py             |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/zigpy/zcl/clusters/protocol.py b/zigpy/zcl/clusters/protocol.py
index 4a6841c..64f95ad 100644
--- a/zigpy/zcl/clusters/protocol.py
+++ b/zigpy/zcl/clusters/protocol.py
@@ -60,7 +60,7 @@ class AnalogInputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         update_interval: Final = ZCLAttributeDef(id=0x0076, type=t.uint8_t)
@@ -107,7 +107,7 @@ class AnalogOutputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         update_interval: Final = ZCLAttributeDef(id=0x0076, type=t.uint8_t)
@@ -139,7 +139,7 @@ class AnalogValueRegular(Cluster):
 
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -171,7 +171,7 @@ class BinaryInputRegular(Cluster):
         change_of_state_time: Final = ZCLAttributeDef(id=0x0010, type=DateTime)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -205,7 +205,7 @@ class BinaryOutputRegular(Cluster):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
         feed_back_value: Final = ZCLAttributeDef(id=0x0028, type=t.enum8)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -236,7 +236,7 @@ class BinaryValueRegular(Cluster):
         change_of_state_count: Final = ZCLAttributeDef(id=0x000F, type=t.uint32_t)
         change_of_state_time: Final = ZCLAttributeDef(id=0x0010, type=DateTime)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -266,7 +266,7 @@ class MultistateInputRegular(Cluster):
 
     class AttributeDefs(BaseAttributeDefs):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -296,7 +296,7 @@ class MultistateOutputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         feed_back_value: Final = ZCLAttributeDef(id=0x0028, type=t.enum8)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -322,7 +322,7 @@ class MultistateValueRegular(Cluster):
     ep_attribute: Final = "bacnet_regular_multistate_value"
 
     class AttributeDefs(BaseAttributeDefs):
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 3b38e6b..52ad17f 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -559,7 +559,7 @@ CLUSTERS = {
     ZDOCmd.Device_annce: (NWK, IEEE, ("Capability", t.uint8_t)),
     ZDOCmd.User_Desc_set: (
         NWKI,
-        ("UserDescriptor", t.FixedList[16, t.uint8_t]),
+        ("UserDescriptor", t.FixedList[t.uint8_t, 16]),
     ),  # Really a string
     ZDOCmd.System_Server_Discovery_req: (("ServerMask", t.uint16_t),),
     ZDOCmd.Discovery_store_req: (
@@ -665,7 +665,7 @@ CLUSTERS = {
         STATUS,
         NWKI,
         ("Length", t.uint8_t),
-        ("UserDescriptor", t.Optional(t.FixedList[16, t.uint8_t])),
+        ("UserDescriptor", t.Optional(t.FixedList[t.uint8_t, 16])),
     ),
     ZDOCmd.Discovery_Cache_rsp: (STATUS,),
     ZDOCmd.User_Desc_conf: (STATUS, NWKI),
-- 
2.43.0


From 23ff9a76c1bb1ef08cf942e86c5fe9d368731299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 09/49] fix: debouncer: forget objects in the order in which
 they expire

---
 zigpy/datastructures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f7da1ee..6f0dbdd 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -238,9 +238,9 @@ class Debouncer:
         if now is None:
             now = self._loop.time()
 
-        # We store the negative expiration time to ensure we can pop expiring objects
-        while self._queue and -self._queue[-1][0] < now:
-            _, _, obj = self._queue.pop()
+        # The object expiring first is always at the front of the queue
+        while self._queue and self._queue[0][0] < now:
+            _, _, obj = heapq.heappop(self._queue)
             self._times.pop(obj)
 
     def is_filtered(self, obj: typing.Any, now: float | None = None) -> bool:
@@ -272,7 +272,7 @@ class Debouncer:
 
         # Otherwise, queue it
         self._times[obj] = now + expire_in
-        heapq.heappush(self._queue, (-(now + expire_in), self._dedup_counter, obj))
+        heapq.heappush(self._queue, (now + expire_in, self._dedup_counter, obj))
 
         return False
 
-- 
2.43.0


From 494c7c63e295c0bf88feac22662ebf737274bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 10/49] fix: debouncer: do not compare objects which expire at
 the same time

---
 zigpy/datastructures.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index 6f0dbdd..6fe71cb 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -226,7 +226,6 @@ class Debouncer:
         self._times: dict[typing.Any, float] = {}
         self._queue: list[tuple[float, int, typing.Any]] = []
 
-        self._last_time: int = 0
         self._dedup_counter: int = 0
 
     @functools.cached_property
@@ -258,12 +257,8 @@ class Debouncer:
         """Check if an object should be filtered. If not, store it."""
         now = self._loop.time()
 
-        # For platforms with low-resolution clocks, we need to make sure that `obj` will
-        # never be compared by `heapq`!
-        if now > self._last_time:
-            self._last_time = now
-            self._dedup_counter = 0
-
+        # Objects can expire at the same time, we need to make sure that `obj` will never
+        # be compared by `heapq`!
         self._dedup_counter += 1
 
         # If the object is filtered, do nothing
-- 
2.43.0


From 630ad06977ecf7ebd94b4984c0c93b41a491dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 11/49] fix: semaphore: hand slots over to waiters in order and
 never lose one to a cancellation

---
 zigpy/datastructures.py | 52 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index 6fe71cb..ba4134f 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -41,7 +41,6 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._comparison_counter: int = 0
 
         self._waiters: list[tuple[int, int, asyncio.Future]] = []
-        self._wakeup_scheduled: bool = False
 
     @property
     @functools.cache
@@ -49,13 +48,14 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         return asyncio.get_running_loop()
 
     def _wake_up_next(self) -> None:
-        while self._waiters:
+        # Slots are handed over to waiters as soon as they are free: waiters can exist only
+        # when there are no free slots
+        while self._waiters and self._value > 0:
             _, _, waiter = heapq.heappop(self._waiters)
 
             if not waiter.done():
+                self._value -= 1
                 waiter.set_result(None)
-                self._wakeup_scheduled = True
-                return
 
     @property
     def value(self) -> int:
@@ -76,8 +76,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._max_value += delta
 
         # Wake up any pending waiters
-        for _ in range(min(len(self._waiters), max(0, delta))):
-            self._wake_up_next()
+        self._wake_up_next()
 
     @property
     def num_waiting(self) -> int:
@@ -96,28 +95,29 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         True.
         """
 
-        # _wakeup_scheduled is set if *another* task is scheduled to wakeup
-        # but its acquire() is not resumed yet
-        while self._wakeup_scheduled or self._value <= 0:
-            # To ensure that our objects don't have to be themselves comparable, we
-            # maintain a global count and increment it on every insert. This way,
-            # the tuple `(-priority, count, item)` will never have to compare `item`.
-            self._comparison_counter += 1
-
-            fut = self._loop.create_future()
-            obj = (-priority, self._comparison_counter, fut)
-            heapq.heappush(self._waiters, obj)
-
-            try:
-                await fut
-                # reset _wakeup_scheduled *after* waiting for a future
-                self._wakeup_scheduled = False
-            except asyncio.CancelledError:
+        if self._value > 0:
+            self._value -= 1
+            return True
+
+        # To ensure that our objects don't have to be themselves comparable, we maintain
+        # a global count and increment it on every insert. This way, the tuple
+        # `(-priority, count, item)` will never have to compare `item`.
+        self._comparison_counter += 1
+
+        fut = self._loop.create_future()
+        obj = (-priority, self._comparison_counter, fut)
+        heapq.heappush(self._waiters, obj)
+
+        try:
+            await fut
+        except asyncio.CancelledError:
+            # If we were already given a slot, pass it on to the next waiter
+            if fut.done() and not fut.cancelled():
+                self._value += 1
                 self._wake_up_next()
-                raise
 
-        assert self._value > 0
-        self._value -= 1
+            raise
+
         return True
 
     def release(self) -> None:
-- 
2.43.0


From 0c3ce08c4d829ed37db36eadb2b5163b4ec0cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 12/49] fix: device: ignore packets too short to contain a
 header

---
 zigpy/device.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index f4d4503..70125f9 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -467,13 +467,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             )
             return
 
-        # Parse the ZCL/ZDO header first. This should never fail.
+        # Parse the ZCL/ZDO header first. This can only fail if the packet is too short.
         data = packet.data.serialize()
 
-        if packet.dst_ep == zdo.ZDO_ENDPOINT:
-            hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
-        else:
-            hdr, _ = foundation.ZCLHeader.deserialize(data)
+        try:
+            if packet.dst_ep == zdo.ZDO_ENDPOINT:
+                hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
+            else:
+                hdr, _ = foundation.ZCLHeader.deserialize(data)
+        except ValueError as exc:
+            self.debug("Failed to parse packet header %r", packet, exc_info=exc)
+            return
 
         try:
             if (
-- 
2.43.0


From 46970fbae5347cf29e13f8d86e67f3cf9be1ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 13/49] fix: device: ignore ZCL packets sent from the ZDO
 endpoint

---
 zigpy/device.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 70125f9..11f26aa 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -455,10 +455,13 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         # Ignore packets that do not match the endpoint's clusters.
         # TODO: this isn't actually necessary, we can parse most packets by cluster ID.
-        if (
-            packet.dst_ep != zdo.ZDO_ENDPOINT
-            and packet.cluster_id not in endpoint.in_clusters
-            and packet.cluster_id not in endpoint.out_clusters
+        if packet.dst_ep != zdo.ZDO_ENDPOINT and (
+            # The ZDO endpoint has no ZCL clusters
+            packet.src_ep == zdo.ZDO_ENDPOINT
+            or (
+                packet.cluster_id not in endpoint.in_clusters
+                and packet.cluster_id not in endpoint.out_clusters
+            )
         ):
             self.debug(
                 "Ignoring message on unknown cluster %s for endpoint %s",
-- 
2.43.0


From 2f56e64387e8a8d5d949a07cfa0ed58605870c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 14/49] fix: zcl: keep attribute values which cannot be
 converted to the attribute's type

---
 zigpy/zcl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 338394f..308652b 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -484,7 +484,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value = self.attributes[attr.attrid].type(attr.value.value)
                 except KeyError:
                     value = attr.value.value
-                except ValueError:
+                except (ValueError, TypeError, OverflowError):
                     self.debug(
                         "Couldn't normalize %a attribute with %s value",
                         attr.attrid,
@@ -585,7 +585,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                         value = self.attributes[record.attrid].type(record.value.value)
                     except KeyError:
                         value = record.value.value
-                    except ValueError:
+                    except (ValueError, TypeError, OverflowError):
                         value = record.value.value
                         self.debug(
                             "Couldn't normalize %a attribute with %s value",
-- 
2.43.0


From 142afab573ea970d92d9bd34e64ee67c4a90232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 15/49] fix: zdo: allow parsing frames with trailing data
 before the coordinator is known

---
 zigpy/zdo/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 0d43bb9..4d6e9d0 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -272,8 +272,10 @@ class ZDO(zigpy.util.CatchingTaskMixin, zigpy.util.ListenableMixin):
         return self.Mgmt_Permit_Joining_req(duration, tc_significance)
 
     def log(self, lvl, msg, *args, **kwargs):
-        msg = "[0x%04x:zdo] " + msg
-        args = (self._device.nwk, *args)
+        # There may be no device yet if we parse a packet during startup
+        nwk = f"0x{self._device.nwk:04x}" if self._device is not None else "unknown"
+        msg = "[%s:zdo] " + msg
+        args = (nwk, *args)
         return LOGGER.log(lvl, msg, *args, **kwargs)
 
     @property
-- 
2.43.0


From d0b1c2641bcb28b60c52028d8bb044f2ec25a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:24 +0000
Subject: [PATCH 16/49] fix: types: do not create octet strings out of integers

---
 zigpy/types/basic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 9c61f66..12a5b97 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -718,6 +718,15 @@ class Double(BaseFloat, exponent_bits=11, fraction_bits=52):
 class LVBytes(bytes):
     _prefix_length = 1
 
+    def __new__(cls, value: bytes = b"", *args, **kwargs) -> Self:
+        # `bytes(n)` would silently allocate `n` null bytes
+        if isinstance(value, int):
+            raise ValueError(  # noqa: TRY004
+                f"Cannot convert an integer to {cls.__name__}: {value!r}"
+            )
+
+        return super().__new__(cls, value, *args, **kwargs)
+
     def serialize(self):
         if len(self) >= pow(256, self._prefix_length) - 1:
             raise ValueError("OctetString is too long")
-- 
2.43.0


From fa0314c9cecfd9b7769dfa016dea9dc0092929fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 17/49] fix: zcl: report the status of a default response to an
 attribute read

The first field of a default response is the command it responds to, not the
status: failed reads were reported as having the status `SUCCESS`.
---
 zigpy/zcl/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 308652b..ac0bc3d 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -574,9 +574,12 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(result[0], list):
+            # Assume default response
+            status = getattr(result, "status", result[0])
+
             for attrid in to_read:
                 orig_attribute = orig_attributes[attrid]
-                failure[orig_attribute] = result[0]  # Assume default response
+                failure[orig_attribute] = status
         else:
             for record in result[0]:
                 orig_attribute = orig_attributes[record.attrid]
-- 
2.43.0


From e3835dbef7f5c1107576e7bc85215118efc3970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 18/49] fix: zcl: ignore attributes which were not requested in
 a read response

---
 zigpy/zcl/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index ac0bc3d..587aa92 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -582,6 +582,10 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 failure[orig_attribute] = status
         else:
             for record in result[0]:
+                if record.attrid not in orig_attributes:
+                    self.debug("Ignoring attribute which was not read: %s", record)
+                    continue
+
                 orig_attribute = orig_attributes[record.attrid]
                 if record.status == foundation.Status.SUCCESS:
                     try:
-- 
2.43.0


From ad09e9719349acfe0d9e28c69039e0459e41202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 19/49] fix: zdo: send broadcast parameters in the order of the
 schema

---
 zigpy/zdo/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 4d6e9d0..7d3fc5d 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -308,8 +308,11 @@ def broadcast(
     named_args.update(kwargs)
     assert set(named_args.keys()) & set(params)
 
+    # The order in which arguments are passed is not the order they are sent in
+    values = [named_args[param] for param in params if param in named_args]
+
     sequence = app.get_sequence()
-    data = bytes([sequence]) + t.serialize(named_args.values(), param_types)
+    data = bytes([sequence]) + t.serialize(values, param_types)
 
     return zigpy.device.broadcast(
         app,
-- 
2.43.0


From d5c0cc2bb628a955f4e91fdd1f65b3aa42c601c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 20/49] fix: group: respond with the right command to
 manufacturer-specific requests

---
 zigpy/group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ba89d55..ec8cc33 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -77,11 +77,14 @@ class Group(ListenableMixin, dict):
             )
         )
 
+        # Manufacturer-specific headers are longer
+        hdr, _ = foundation.ZCLHeader.deserialize(data)
+
         return foundation.GENERAL_COMMANDS[
             foundation.GeneralCommand.Default_Response
         ].schema(
             status=foundation.Status.SUCCESS,
-            command_id=data[2],
+            command_id=hdr.command_id,
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From b6b8b653ca60b06c782393f6949bca52316dbd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 21/49] fix: application: forget removed devices whatever the
 error of the leave request

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 04a0366..9e5c00a 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -530,7 +530,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                 else 7
             ):
                 await device.zdo.leave(remove_children=remove_children, rejoin=rejoin)
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
+        except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as ex:
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
         self.devices.pop(device.ieee, None)
-- 
2.43.0


From 1a4d66159ffb146f6870f4044e41bbae8461fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 22/49] fix: groups: do not announce the removal of a group
 which does not exist

---
 zigpy/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ec8cc33..e4b9af3 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -154,7 +154,7 @@ class Groups(ListenableMixin, dict):
         if isinstance(group, Group):
             for member in (*group.values(),):
                 group.remove_member(member)
-        self.listener_event("group_removed", group)
+            self.listener_event("group_removed", group)
         return group
 
     remove_group = pop
-- 
2.43.0


From b0d202db31b10c2acd75771351a8678bac52ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 23/49] fix: endpoint: a default response does not mean that a
 group was joined or left

---
 zigpy/endpoint.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b4ca4f2..0f9bd94 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -152,6 +152,10 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            self.debug("Couldn't add to 0x%04x group: %s", grp_id, res)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
             self.debug("Couldn't add to 0x%04x group: %s", grp_id, res[0])
             return res[0]
@@ -167,6 +171,10 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot remove 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            self.debug("Couldn't remove from 0x%04x group: %s", grp_id, res)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
             self.debug("Couldn't remove to 0x%04x group: %s", grp_id, res[0])
             return res[0]
-- 
2.43.0


From bb62170f98dde5e7c309d66cfd8fa7e7388450d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 24/49] fix: endpoint: inactive endpoints stay inactive when
 initialization is retried

---
 zigpy/endpoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 0f9bd94..3bc695e 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -58,7 +58,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
     async def initialize(self) -> None:
         self.info("Discovering endpoint information")
 
-        if self.profile_id is not None or self.status == Status.ENDPOINT_INACTIVE:
+        if self.status == Status.ENDPOINT_INACTIVE:
+            self.info("Endpoint is not active")
+            return
+
+        if self.profile_id is not None:
             self.info("Endpoint descriptor already queried")
         else:
             status, _, sd = await self._device.zdo.Simple_Desc_req(
-- 
2.43.0


From 9943554e7ac47d5d4679a12cdbc4a138771f07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 25/49] fix: device: retry initialization when a response lacks
 the descriptor

---
 zigpy/device.py   | 5 +++++
 zigpy/endpoint.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/zigpy/device.py b/zigpy/device.py
index 11f26aa..22f3d8b 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -227,6 +227,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
                 f"Requesting Node Descriptor failed: {status}"
             )
 
+        if node_desc is None:
+            raise zigpy.exceptions.InvalidResponse(
+                "Node Descriptor is missing from the response"
+            )
+
         self.node_desc = node_desc
         self.info("Got Node Descriptor: %s", node_desc)
 
diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 3bc695e..7381cdb 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -77,6 +77,10 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
                 raise zigpy.exceptions.InvalidResponse(
                     "Failed to retrieve service descriptor: %s", status
                 )
+            elif sd is None:
+                raise zigpy.exceptions.InvalidResponse(
+                    "Service descriptor is missing from the response"
+                )
 
             self.info("Discovered endpoint information: %s", sd)
             self.profile_id = sd.profile
-- 
2.43.0


From a2ef3c04d5328762a1b8e154d7f12f547ea5a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 26/49] fix: backups: read the network manager address most
 significant byte first

---
 zigpy/backups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index f7aef7d..7184dd4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -358,7 +358,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     if "nwk_manager" in network_meta:
         network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])
+            bytes.fromhex(network_meta["nwk_manager"])[::-1]
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
-- 
2.43.0


From ee6a9ab19e28cf78141a065698d4d649b2ac6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 27/49] fix: backups: a backup does not share objects with the
 current state

---
 zigpy/backups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index 7184dd4..a2edb43 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -135,8 +135,9 @@ class BackupManager(ListenableMixin):
     def from_network_state(self) -> NetworkBackup:
         """Create a backup object from the current network's state."""
         return NetworkBackup(
-            network_info=self.app.state.network_info,
-            node_info=self.app.state.node_info,
+            # Radio libraries may update the state in place so it has to be copied
+            network_info=copy.deepcopy(self.app.state.network_info),
+            node_info=copy.deepcopy(self.app.state.node_info),
         )
 
     async def create_backup(self, *, load_devices: bool = False) -> NetworkBackup:
-- 
2.43.0


From e5625e9195fbdac67037f3b31654182b2be3b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 28/49] fix: application: never form a network with the
 broadcast PAN ID

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 9e5c00a..c22ad61 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -354,7 +354,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             stack_specific["form_quickly"] = True
 
         if pan_id is None:
-            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE + 1)
+            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE)
 
         if channel is None and fast:
             # Don't run an energy scan if this is an ephemeral network
-- 
2.43.0


From af0dada5e55cf7dce1e941a196a31ea51a887850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 29/49] fix: application: do not allocate a value per channel
 mask bit pattern when scans are unsupported

---
 zigpy/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index c22ad61..060b5f2 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -272,8 +272,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             )
         except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
             LOGGER.warning("Coordinator does not support energy scanning")
-            scanned_channels = channels
-            energy_values = [0] * scanned_channels
+            scanned_channels = list(channels)
+            energy_values = [0] * len(scanned_channels)
         else:
             _, scanned_channels, _, _, energy_values = rsp
 
-- 
2.43.0


From 67ffb79379cf14e49a75ca5845be8b2b7baf11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 30/49] fix: application: permit joins on a node given as a
 string

---
 zigpy/application.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 060b5f2..0caa406 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -1241,7 +1241,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         """Permit joining on a specific node or all router nodes."""
         assert 0 <= time_s <= 254
         if node is not None:
-            if not isinstance(node, t.EUI64):
+            if isinstance(node, str):
+                node = t.EUI64.convert(node)
+            elif not isinstance(node, t.EUI64):
                 node = t.EUI64([t.uint8_t(p) for p in node])
             if node != self.state.node_info.ieee:
                 try:
-- 
2.43.0


From ca88f238322fbdd8775d205d76cec103d0b3d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 31/49] fix: stop periodic topology scans also while one of
 them is running

---
 zigpy/topology.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8dac4c4..93d8190 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -74,14 +74,21 @@ class Topology(zigpy.util.ListenableMixin):
 
             LOGGER.debug("Starting scheduled neighbor scan")
 
+            scan = asyncio.create_task(self.scan())
+
             try:
-                await self.scan()
+                # Waiting for the task ensures the scan loop is not interrupted if a
+                # manual scan is initiated and the scheduled scan is cancelled
+                await asyncio.wait([scan])
             except asyncio.CancelledError:
-                # We explicitly catch a cancellation here to ensure the scan loop will
-                # not be interrupted if a manual scan is initiated
+                # The scan loop itself is being stopped
+                scan.cancel()
+                raise
+
+            if scan.cancelled():
                 LOGGER.debug("Topology scan cancelled")
-            except (Exception, asyncio.CancelledError):
-                LOGGER.debug("Topology scan failed", exc_info=True)
+            elif scan.exception() is not None:
+                LOGGER.debug("Topology scan failed", exc_info=scan.exception())
 
     async def scan(
         self, devices: typing.Iterable[zigpy.device.Device] | None = None
-- 
2.43.0


From 43bd721f84379c86b075df8c4b8b9db442e51c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 32/49] fix: accept any iterable of devices in a topology scan

---
 zigpy/topology.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 93d8190..f213a5c 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -165,9 +165,8 @@ class Topology(zigpy.util.ListenableMixin):
     ) -> None:
         """Scan topology."""
 
-        if devices is None:
-            # We iterate over a copy of the devices as opposed to the live dictionary
-            devices = list(self._app.devices.values())
+        # We iterate over a copy of the devices as opposed to the live dictionary
+        devices = list(self._app.devices.values() if devices is None else devices)
 
         for index, device in enumerate(devices):
             LOGGER.debug(
-- 
2.43.0


From 5279c16a01bf0951e54a6247793ffae9d6ff1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 33/49] fix: reject OTA images whose header length or image
 size is inconsistent

---
 zigpy/ota/image.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index a9e5296..2bc579e 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -181,8 +181,15 @@ class OTAImage(t.Struct, BaseOTAImage):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[OTAImage, bytes]:
         hdr, data = OTAImageHeader.deserialize(data)
+
+        if hdr.header_length != len(hdr.serialize()):
+            raise ValueError(f"Header length is invalid: {hdr.header_length}")
+
         elements_len = hdr.image_size - hdr.header_length
 
+        if elements_len < 0:
+            raise ValueError(f"Image size is too small: {hdr.image_size}")
+
         if elements_len > len(data):
             raise ValueError(f"Data is too short for {cls}")
 
@@ -224,7 +231,12 @@ class HueSBLOTAImage(BaseOTAImage):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[Self, bytes]:
         header, remaining_data = OTAImageHeader.deserialize(data)
-        firmware = remaining_data[: header.image_size - len(header.serialize())]
+        firmware_len = header.image_size - len(header.serialize())
+
+        if firmware_len < 0:
+            raise ValueError(f"Image size is too small: {header.image_size}")
+
+        firmware = remaining_data[:firmware_len]
 
         if len(data) < header.image_size:
             raise ValueError(
-- 
2.43.0


From 8e9ced35e167cbcc54e3f506048ab01059e6b9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 34/49] fix: allow Hue OTA images to be modified, as forced
 updates do

---
 zigpy/ota/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index 2bc579e..10bd16c 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -215,7 +215,7 @@ class OTAImage(t.Struct, BaseOTAImage):
 
 
 @attr.s
-class HueSBLOTAImage(BaseOTAImage):
+class HueSBLOTAImage(t.BaseDataclassMixin, BaseOTAImage):
     """Unique OTA image format for certain Hue devices. Starts with a valid header but does
     not contain any valid subelements beyond that point.
     """
-- 
2.43.0


From 33393b16e9a2acbc0830690a965f5402582a860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 35/49] fix: do not offer OTA images whose downloaded header
 excludes the device

---
 zigpy/ota/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 99480a7..d3a0535 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -469,6 +469,12 @@ class OTA:
                 _LOGGER.debug("Caching image %s", img)
                 self._image_cache[img.metadata] = img
 
+            # The downloaded file may restrict compatibility further than its metadata
+            if not img.check_compatibility(device, query_cmd):
+                _LOGGER.debug("Downloaded image is not compatible, ignoring: %s", img)
+                upgrades.pop(img.metadata)
+                continue
+
             upgrades[img.metadata] = img
 
         # As a final pass, identify images with identical versions and specificity but
-- 
2.43.0


From 962828f41c03b41d39d3717c89cdc4c83fa1056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 36/49] fix: use the configured index URL of every OTA provider

---
 zigpy/ota/providers.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/zigpy/ota/providers.py b/zigpy/ota/providers.py
index 23eab72..63085d1 100644
--- a/zigpy/ota/providers.py
+++ b/zigpy/ota/providers.py
@@ -390,6 +390,7 @@ class Ledvance(BaseOtaProvider):
 class Salus(BaseOtaProvider):
     NAME = "salus"
     MANUFACTURER_IDS = (4216, 43981)
+    DEFAULT_URL = "https://eu.salusconnect.io/demo/default/status/firmware"
 
     JSON_SCHEMA = json_schemas.SALUS_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -397,9 +398,7 @@ class Salus(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://eu.salusconnect.io/demo/default/status/firmware"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -424,6 +423,7 @@ class Salus(BaseOtaProvider):
 class Sonoff(BaseOtaProvider):
     NAME = "sonoff"
     MANUFACTURER_IDS = (4742,)
+    DEFAULT_URL = "https://zigbee-ota.sonoff.tech/releases/upgrade.json"
 
     JSON_SCHEMA = json_schemas.SONOFF_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -431,9 +431,7 @@ class Sonoff(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://zigbee-ota.sonoff.tech/releases/upgrade.json"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -454,6 +452,7 @@ class Sonoff(BaseOtaProvider):
 class Inovelli(BaseOtaProvider):
     NAME = "inovelli"
     MANUFACTURER_IDS = (4655,)
+    DEFAULT_URL = "https://files.inovelli.com/firmware/firmware-zha-v2.json"
 
     JSON_SCHEMA = json_schemas.INOVELLI_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -461,9 +460,7 @@ class Inovelli(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://files.inovelli.com/firmware/firmware-zha-v2.json"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -490,6 +487,7 @@ class Inovelli(BaseOtaProvider):
 class ThirdReality(BaseOtaProvider):
     NAME = "thirdreality"
     MANUFACTURER_IDS = (4659, 4877, 5127)
+    DEFAULT_URL = "https://tr-zha.s3.amazonaws.com/firmware.json"
 
     JSON_SCHEMA = json_schemas.THIRD_REALITY_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -497,7 +495,7 @@ class ThirdReality(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get("https://tr-zha.s3.amazonaws.com/firmware.json") as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
-- 
2.43.0


From 7a0b7f460b45b203ba754e5ff73f22ed53205cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 37/49] fix: delete the routes of a removed device from the
 database

---
 zigpy/appdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 080deef..6c2a144 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -444,6 +444,11 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _remove_device(self, device: zigpy.typing.DeviceType) -> None:
         await self.execute(f"DELETE FROM devices{DB_V} WHERE ieee = ?", (device.ieee,))
+
+        # The `routes` table has no foreign key constraint
+        await self.execute(
+            f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", (device.ieee,)
+        )
         await self._db.commit()
 
     def raw_device_initialized(self, device: zigpy.typing.DeviceType) -> None:
-- 
2.43.0


From be475d65909e8296488be5bf8cb3f6961de86dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 38/49] fix: create the tables of a new database in a single
 transaction

---
 zigpy/appdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 6c2a144..1cc9e12 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -939,7 +939,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         if db_version == 0 and not tables:
             # If this is a brand new database, just load the current schema
-            await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+            async with self._transaction():
+                await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+
             return False
         elif db_version > DB_VERSION:
             LOGGER.error(
-- 
2.43.0


From c78920799f3f9c62e963ad349c888c6202770ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 39/49] fix: roll back the incomplete changes of a failed
 database event

---
 zigpy/appdb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 1cc9e12..4c358e3 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -180,12 +180,21 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     args,
                     str(exc),
                 )
+                await self._rollback()
             except Exception as ex:  # noqa: BLE001
                 LOGGER.error(
                     "Unexpected error while processing %s(%s): %s", cb_name, args, ex
                 )
+                await self._rollback()
             self._callback_handlers.task_done()
 
+    async def _rollback(self) -> None:
+        """Undo the uncommitted changes of an event that failed."""
+        try:
+            await self._db.rollback()
+        except Exception as ex:  # noqa: BLE001
+            LOGGER.debug("Failed to roll back: %s", ex)
+
     async def shutdown(self) -> None:
         """Shutdown connection."""
         self.running = False
-- 
2.43.0


From 8c2afe38c6ceee66836f9b80bc35a928279d6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 40/49] fix: save devices with inactive endpoints to the
 database

---
 zigpy/appdb.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 4c358e3..9562c63 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -36,6 +36,9 @@ MIN_SQLITE_VERSION = (3, 24, 0)
 UNIX_EPOCH = datetime.fromtimestamp(0, tz=timezone.utc)
 DB_V_REGEX = re.compile(r"(?:_v\d+)?$")
 
+# Inactive endpoints have neither a profile nor a device type
+MISSING_DESCRIPTOR = -1
+
 MIN_UPDATE_DELTA = timedelta(seconds=30).total_seconds()
 
 
@@ -500,8 +503,8 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             (
                 device.ieee,
                 ep.endpoint_id,
-                ep.profile_id,
-                ep.device_type,
+                MISSING_DESCRIPTOR if ep.profile_id is None else ep.profile_id,
+                MISSING_DESCRIPTOR if ep.device_type is None else ep.device_type,
                 ep.status,
             )
             for ep in device.non_zdo_endpoints
@@ -814,9 +817,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             async for ieee, epid, profile_id, device_type, status in cursor:
                 dev = self._application.get_device(ieee)
                 ep = dev.add_endpoint(epid)
-                ep.profile_id = profile_id
                 ep.status = zigpy.endpoint.Status(status)
 
+                if profile_id == MISSING_DESCRIPTOR:
+                    continue
+
+                ep.profile_id = profile_id
+
                 if profile_id == zigpy.profiles.zha.PROFILE_ID:
                     ep.device_type = zigpy.profiles.zha.DeviceType(device_type)
                 elif profile_id == zigpy.profiles.zll.PROFILE_ID:
-- 
2.43.0


From 2b11f522ee567599f53024a76c17c21c4058fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 41/49] fix: save devices with attribute values SQLite cannot
 store

---
 zigpy/appdb.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 9562c63..42044c4 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -556,7 +556,7 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         await self._db.executemany(q, clusters)
 
     async def _save_attribute_cache(self, ep: zigpy.typing.EndpointType) -> None:
-        clusters = [
+        rows = [
             (
                 ep.device.ieee,
                 ep.endpoint_id,
@@ -572,7 +572,18 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         q = f"""INSERT INTO attributes_cache{DB_V} VALUES (?, ?, ?, ?, ?, ?, ?)
                     ON CONFLICT (ieee, endpoint_id, cluster_type, cluster_id, attr_id)
                     DO UPDATE SET value=excluded.value, last_updated=excluded.last_updated"""
-        await self._db.executemany(q, clusters)
+
+        for row in rows:
+            try:
+                await self.execute(q, row)
+            except (
+                sqlite3.IntegrityError,
+                sqlite3.InterfaceError,
+                sqlite3.ProgrammingError,
+                OverflowError,
+            ) as exc:
+                # The other attributes can be saved
+                LOGGER.debug("Unable to save attribute %s: %s", row, exc)
 
     async def _save_unsupported_attributes(self, ep: zigpy.typing.EndpointType) -> None:
         clusters = [
-- 
2.43.0


From 7704b48647472112632f0ed4250fefde1d8b2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 42/49] fix: configure reporting with the data type an
 attribute is declared with

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 587aa92..f4f9d9a 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -710,7 +710,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
         cfg = foundation.AttributeReportingConfig()
         cfg.direction = direction
         cfg.attrid = attr_def.id
-        cfg.datatype = foundation.DataType.from_python_type(attr_def.type).type_id
+        cfg.datatype = attr_def.zcl_type
         cfg.min_interval = min_interval
         cfg.max_interval = max_interval
         cfg.reportable_change = reportable_change
-- 
2.43.0


From ebb5a78c32fcd1828450c85a9e81941b12d37bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 43/49] fix: v2 quirks add client clusters as client clusters

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index e2d36fa..bcdcccd 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -160,7 +160,9 @@ class AddsMetadata:
             cluster = None
             cluster_id = self.cluster
         else:
-            cluster = self.cluster(endpoint, is_server=True)
+            cluster = self.cluster(
+                endpoint, is_server=self.cluster_type == ClusterType.Server
+            )
             cluster_id = cluster.cluster_id
 
         cluster = add_cluster(cluster_id, cluster)
-- 
2.43.0


From 75877bce1e2306fdd76f6b0e801197773600b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:59 +0000
Subject: [PATCH 44/49] fix: report the status of a default response when
 constant attributes are read along

---
 zigpy/quirks/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 8d847c6..245d887 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -319,11 +319,14 @@ class CustomCluster(zigpy.zcl.Cluster):
             attrs_to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(results[0], list):
+            # Assume default response
+            status = getattr(results, "status", results[0])
+
             for attrid in attrs_to_read:
                 succeeded.append(  # noqa: PERF401
                     foundation.ReadAttributeRecord(
                         attrid,
-                        results[0],
+                        status,
                         foundation.TypeValue(),
                     )
                 )
-- 
2.43.0


From 304d4aa7931dbee26a851eb88c6791ba8b8a4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 45/49] fix: constant attributes of v2 quirks can be read

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index bcdcccd..3e99079 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -168,9 +168,11 @@ class AddsMetadata:
         cluster = add_cluster(cluster_id, cluster)
 
         if self.constant_attributes:
+            # Attributes are looked up by ID
             cluster._CONSTANT_ATTRIBUTES = {
-                attribute.name: value
+                key: value
                 for attribute, value in self.constant_attributes.items()
+                for key in (attribute.id, attribute.name)
             }
 
 
-- 
2.43.0


From 7a6f65afdb0ceb2f86c9c1a1dfe46257cc9974fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 46/49] fix: keep the manufacturer and model given by a quirk
 after a restart

---
 zigpy/appdb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 42044c4..5d96f0e 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -768,6 +768,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     value,
                 )
 
+                # Quirks may replace the manufacturer and model
+                if isinstance(dev, zigpy.quirks.BaseCustomDevice):
+                    continue
+
                 # Populate the device's manufacturer and model attributes
                 if (
                     cluster_id == Basic.cluster_id
-- 
2.43.0


From a937c2864451a5df279653f2726a9a339d7859f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 47/49] fix: add an endpoint to a group without a name

The command has a mandatory name, so the default of None raised ValueError
before anything was sent. Devices expect an empty name instead.
---
 zigpy/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 7381cdb..79f61a7 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -155,7 +155,7 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     async def add_to_group(self, grp_id: int, name: str | None = None) -> ZCLStatus:
         try:
-            res = await self.groups.add(grp_id, name)
+            res = await self.groups.add(grp_id, name if name is not None else "")
         except AttributeError:
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
-- 
2.43.0


From 11c145fed429a96381de46fb213766b93693d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 48/49] fix: a battery backup belongs to the power source read,
 not to all like it

---
 zigpy/zcl/clusters/general.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zigpy/zcl/clusters/general.py b/zigpy/zcl/clusters/general.py
index 846cd35..9ea18c8 100644
--- a/zigpy/zcl/clusters/general.py
+++ b/zigpy/zcl/clusters/general.py
@@ -37,6 +37,13 @@ class PowerSource(t.enum8):
     def deserialize(cls, data: bytes) -> tuple[bytes, bytes]:
         val, data = t.uint8_t.deserialize(data)
         r = cls(val & 0x7F)
+
+        if val & 0x80:
+            # Members are shared by everything that has this power source
+            member, r = r, cls._member_type_.__new__(cls, r)
+            r._name_ = member.name
+            r._value_ = member.value
+
         r.battery_backup = bool(val & 0x80)
         return r, data
 
-- 
2.43.0


From 09ffab05cbe84b71b8d14d1c3777757ef59e9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 49/49] fix: integer structs: != is the opposite of ==

---
 zigpy/types/struct.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index a42d039..68ace3f 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -346,6 +346,15 @@ class Struct:
 
         return self.as_dict() == other.as_dict()
 
+    def __ne__(self, other: object) -> bool:
+        # Integral structs would otherwise inherit `int.__ne__`
+        result = self.__eq__(other)
+
+        if result is NotImplemented:
+            return NotImplemented
+
+        return not result
+
     def __int__(self) -> int:
         if self._int_type is None:
             return NotImplemented
-- 
2.43.0


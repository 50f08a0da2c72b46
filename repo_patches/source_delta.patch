From a8e6ed8d1242ac276ddcc83e45b89a20e891353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 01/44] fix: do not lose a semaphore wakeup when the woken
 waiter is cancelled

---
 zigpy/datastructures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f7da1ee..d8ca7fc 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -113,7 +113,11 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
                 # reset _wakeup_scheduled *after* waiting for a future
                 self._wakeup_scheduled = False
             except asyncio.CancelledError:
-                self._wake_up_next()
+                # If we were already woken up, pass the wakeup on to the next waiter
+                if not fut.cancelled():
+                    self._wakeup_scheduled = False
+                    self._wake_up_next()
+
                 raise
 
         assert self._value > 0
-- 
2.43.0


From 93293a2ca787208f01f0430180c0a839a94ca735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 02/44] fix: expire debounced objects in order of their
 expiration time

---
 zigpy/datastructures.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index d8ca7fc..a8016a1 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -242,9 +242,9 @@ class Debouncer:
         if now is None:
             now = self._loop.time()
 
-        # We store the negative expiration time to ensure we can pop expiring objects
-        while self._queue and -self._queue[-1][0] < now:
-            _, _, obj = self._queue.pop()
+        # The queue is a heap ordered by expiration time, soonest first
+        while self._queue and self._queue[0][0] < now:
+            _, _, obj = heapq.heappop(self._queue)
             self._times.pop(obj)
 
     def is_filtered(self, obj: typing.Any, now: float | None = None) -> bool:
@@ -276,7 +276,7 @@ class Debouncer:
 
         # Otherwise, queue it
         self._times[obj] = now + expire_in
-        heapq.heappush(self._queue, (-(now + expire_in), self._dedup_counter, obj))
+        heapq.heappush(self._queue, (now + expire_in, self._dedup_counter, obj))
 
         return False
 
-- 
2.43.0


From d36c0e7ac35fe815e63f3da060b51df03ee18337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 03/44] fix: never form a network with the reserved PAN ID
 0xFFFF

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 04a0366..c8785c9 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -354,7 +354,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             stack_specific["form_quickly"] = True
 
         if pan_id is None:
-            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE + 1)
+            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE)
 
         if channel is None and fast:
             # Don't run an energy scan if this is an ephemeral network
-- 
2.43.0


From e01fac9e062c5b797cb15be371ee99984d202062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 04/44] fix: report one energy value per channel when scanning
 is unsupported

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index c8785c9..773340c 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -273,7 +273,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
             LOGGER.warning("Coordinator does not support energy scanning")
             scanned_channels = channels
-            energy_values = [0] * scanned_channels
+            energy_values = [0] * len(list(scanned_channels))
         else:
             _, scanned_channels, _, _, energy_values = rsp
 
-- 
2.43.0


From b4e354e9cb7deda4a2e3b59d097307a122e36f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 05/44] fix: always forget a removed device, even if its leave
 response is invalid

---
 zigpy/application.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 773340c..e8f85a6 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -530,10 +530,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                 else 7
             ):
                 await device.zdo.leave(remove_children=remove_children, rejoin=rejoin)
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
+        except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as ex:
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
-
-        self.devices.pop(device.ieee, None)
+        finally:
+            self.devices.pop(device.ieee, None)
 
     def deserialize(
         self,
-- 
2.43.0


From 627bfa37cf06862b472d1756ca128a730a2489a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 06/44] fix: create the tables of a new database in a single
 transaction

---
 zigpy/appdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 080deef..4005853 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -934,7 +934,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         if db_version == 0 and not tables:
             # If this is a brand new database, just load the current schema
-            await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+            async with self._transaction():
+                await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+
             return False
         elif db_version > DB_VERSION:
             LOGGER.error(
-- 
2.43.0


From f3a3ce05aa486d15b816c10119b1803e8d834d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 07/44] fix: roll back the partial writes of an event that
 failed to be saved

---
 zigpy/appdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 4005853..c04f9ce 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -172,7 +172,12 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             handler = getattr(self, cb_name)
             assert handler
             try:
-                await handler(*args)
+                try:
+                    await handler(*args)
+                except Exception:
+                    # Never let the next event commit a partially handled one
+                    await self._db.rollback()
+                    raise
             except sqlite3.Error as exc:
                 LOGGER.debug(
                     "Error handling '%s' event with %s params: %s",
-- 
2.43.0


From d385cb0b3a6902fc20903ce4646911cb7e02ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 08/44] fix: delete the routes of a removed device from the
 database

---
 zigpy/appdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index c04f9ce..0069773 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -449,6 +449,11 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _remove_device(self, device: zigpy.typing.DeviceType) -> None:
         await self.execute(f"DELETE FROM devices{DB_V} WHERE ieee = ?", (device.ieee,))
+
+        # Unlike every other table, `routes` does not reference `devices`
+        await self.execute(
+            f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", (device.ieee,)
+        )
         await self._db.commit()
 
     def raw_device_initialized(self, device: zigpy.typing.DeviceType) -> None:
-- 
2.43.0


From 91477c3cd5e27a55d3cc6dd35feec7f9a53a3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 09/44] fix: read the network manager of a backup in the byte
 order it is written in

---
 zigpy/backups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index f7aef7d..7184dd4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -358,7 +358,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     if "nwk_manager" in network_meta:
         network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])
+            bytes.fromhex(network_meta["nwk_manager"])[::-1]
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
-- 
2.43.0


From a1aeea547b244bc9b54ac1244ed110802daaa1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 10/44] fix: do not announce the removal of a group that does
 not exist

---
 zigpy/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ba89d55..d8ac7a9 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -151,7 +151,7 @@ class Groups(ListenableMixin, dict):
         if isinstance(group, Group):
             for member in (*group.values(),):
                 group.remove_member(member)
-        self.listener_event("group_removed", group)
+            self.listener_event("group_removed", group)
         return group
 
     remove_group = pop
-- 
2.43.0


From 91cb8f6f68a8815e7f3065963b27ad79841ed150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 11/44] fix: stop the periodic topology scan even while it is
 scanning

---
 zigpy/topology.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8dac4c4..fa8877b 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -74,14 +74,15 @@ class Topology(zigpy.util.ListenableMixin):
 
             LOGGER.debug("Starting scheduled neighbor scan")
 
-            try:
-                await self.scan()
-            except asyncio.CancelledError:
-                # We explicitly catch a cancellation here to ensure the scan loop will
-                # not be interrupted if a manual scan is initiated
+            # The cancellation of a scan is only logged, to ensure the scan loop will not
+            # be interrupted if a manual scan is initiated. `gather` allows us to tell it
+            # apart from the cancellation of the scan loop itself, which is propagated.
+            (result,) = await asyncio.gather(self.scan(), return_exceptions=True)
+
+            if isinstance(result, asyncio.CancelledError):
                 LOGGER.debug("Topology scan cancelled")
-            except (Exception, asyncio.CancelledError):
-                LOGGER.debug("Topology scan failed", exc_info=True)
+            elif isinstance(result, Exception):
+                LOGGER.debug("Topology scan failed", exc_info=result)
 
     async def scan(
         self, devices: typing.Iterable[zigpy.device.Device] | None = None
-- 
2.43.0


From 99c494ccfc0525fe7400fbc429985f49034fe4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 12/44] fix: replace the running OTA broadcast loop when
 starting it again

---
 zigpy/ota/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 99480a7..142b728 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -251,6 +251,7 @@ class OTA:
 
     def start_periodic_broadcasts(self, initial_delay: float, interval: float) -> None:
         """Start the periodic OTA broadcasts."""
+        self.stop_periodic_broadcasts()
         self._broadcast_loop_task = asyncio.create_task(
             self.broadcast_loop(
                 initial_delay=initial_delay,
-- 
2.43.0


From cd9e302777b824a8769089beac6e362035781b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 13/44] fix: ignore packets that are too short to contain a
 header

---
 zigpy/device.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index f4d4503..c2521e6 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -467,13 +467,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             )
             return
 
-        # Parse the ZCL/ZDO header first. This should never fail.
+        # Parse the ZCL/ZDO header first. This only fails if the packet is truncated.
         data = packet.data.serialize()
 
-        if packet.dst_ep == zdo.ZDO_ENDPOINT:
-            hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
-        else:
-            hdr, _ = foundation.ZCLHeader.deserialize(data)
+        try:
+            if packet.dst_ep == zdo.ZDO_ENDPOINT:
+                hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
+            else:
+                hdr, _ = foundation.ZCLHeader.deserialize(data)
+        except ValueError as exc:
+            self.debug("Failed to parse packet header %r", packet, exc_info=exc)
+            return
 
         try:
             if (
-- 
2.43.0


From 8cb5dffa3c1a8d6acdef003733223f7d7658294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 14/44] fix: ignore packets sent from the ZDO endpoint to
 another endpoint

---
 zigpy/device.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index c2521e6..d9f58f9 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -455,10 +455,13 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         # Ignore packets that do not match the endpoint's clusters.
         # TODO: this isn't actually necessary, we can parse most packets by cluster ID.
-        if (
-            packet.dst_ep != zdo.ZDO_ENDPOINT
-            and packet.cluster_id not in endpoint.in_clusters
-            and packet.cluster_id not in endpoint.out_clusters
+        if packet.dst_ep != zdo.ZDO_ENDPOINT and (
+            # The ZDO endpoint has no clusters
+            packet.src_ep == zdo.ZDO_ENDPOINT
+            or (
+                packet.cluster_id not in endpoint.in_clusters
+                and packet.cluster_id not in endpoint.out_clusters
+            )
         ):
             self.debug(
                 "Ignoring message on unknown cluster %s for endpoint %s",
-- 
2.43.0


From 81c3d42414d5e692db56fbf54423d07e0c9e2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:00 +0000
Subject: [PATCH 15/44] fix: allow logging from a ZDO object without a device

---
 zigpy/zdo/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 0d43bb9..5bfe1de 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -272,6 +272,10 @@ class ZDO(zigpy.util.CatchingTaskMixin, zigpy.util.ListenableMixin):
         return self.Mgmt_Permit_Joining_req(duration, tc_significance)
 
     def log(self, lvl, msg, *args, **kwargs):
+        # Packets can be parsed before their device is known
+        if self._device is None:
+            return LOGGER.log(lvl, "[zdo] " + msg, *args, **kwargs)
+
         msg = "[0x%04x:zdo] " + msg
         args = (self._device.nwk, *args)
         return LOGGER.log(lvl, msg, *args, **kwargs)
-- 
2.43.0


From 41632da9441ba385e4bbf06a259edea68325947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 16/44] fix: encode the length of character strings in bytes

---
 zigpy/types/basic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index c08cab8..68567b5 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -940,15 +940,18 @@ class CharacterString(str):
         return instance
 
     def serialize(self) -> bytes:
-        if len(self) >= pow(256, self._prefix_length) - 1:
+        encoded = self.encode("utf8")
+
+        if len(encoded) >= pow(256, self._prefix_length) - 1:
             raise ValueError("String is too long")
 
         if self.invalid:
             return self._invalid_length.to_bytes(self._prefix_length, "little")
 
-        return len(self).to_bytes(
-            self._prefix_length, "little", signed=False
-        ) + self.encode("utf8")
+        # The length prefix counts bytes, not characters
+        return (
+            len(encoded).to_bytes(self._prefix_length, "little", signed=False) + encoded
+        )
 
     @classmethod
     def deserialize(cls: type[T], data: bytes) -> tuple[T, bytes]:
-- 
2.43.0


From 3fba4b85b36e26660cbdff353d335e7393378bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 17/44] fix: use the correct invalid length of long character
 strings

---
 zigpy/types/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 68567b5..fe2aa8f 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -978,6 +978,7 @@ class CharacterString(str):
 
 class LongCharacterString(CharacterString):
     _prefix_length = 2
+    _invalid_length = (1 << (8 * _prefix_length)) - 1
 
 
 def LimitedCharString(max_len):  # noqa: N802
-- 
2.43.0


From 492d9f2e21facc2cc3b17fe840cb52a695e0b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 18/44] fix: correct the invalid values of 64-bit integers and
 16-bit enums

---
 zigpy/zcl/foundation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 9591f2d..8128917 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -406,7 +406,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.uint64_t,
         DataClass.Analog,
         "Unsigned 64-bit integer",
-        t.uint64_t(0xFFFFFFFFFFFFFF),
+        t.uint64_t(0xFFFFFFFFFFFFFFFF),
     )
     int8 = (
         DataTypeId.int8,
@@ -462,7 +462,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.int64s,
         DataClass.Analog,
         "Signed 64-bit integer",
-        t.int64s(-0x80000000000000),
+        t.int64s(-0x8000000000000000),
     )
     enum8 = (
         DataTypeId.enum8,
@@ -476,7 +476,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.enum16,
         DataClass.Discrete,
         "16-bit enumeration",
-        t.enum16(0xFF),
+        t.enum16(0xFFFF),
     )
     semi = (
         DataTypeId.semi,
-- 
2.43.0


From 7feb30f862938b5b95c1d6500f7cb7976deaf31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 19/44] fix: skip group members whose endpoint was removed by a
 quirk when loading

---
 zigpy/appdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 0069773..52a2544 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -840,6 +840,11 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         async with self.execute(f"SELECT * FROM group_members{DB_V}") as cursor:
             async for group_id, ieee, ep_id in cursor:
                 dev = self._application.get_device(ieee)
+
+                # Some quirks remove endpoints
+                if ep_id not in dev.endpoints:
+                    continue
+
                 group = self._application.groups[group_id]
                 group.add_member(dev.endpoints[ep_id], suppress_event=True)
 
-- 
2.43.0


From 4b29cf8efa204bccc8c0d5fb4e2333d5d4e8a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 20/44] fix: keep a semaphore waiter's place in the queue when
 it has to wait again

---
 zigpy/datastructures.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index a8016a1..e0cb543 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -96,16 +96,18 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         True.
         """
 
+        # To ensure that our objects don't have to be themselves comparable, we maintain
+        # a global count and increment it on every call. This way, the tuple
+        # `(-priority, count, item)` will never have to compare `item` and a waiter that
+        # has to wait again keeps its place.
+        self._comparison_counter += 1
+        count = self._comparison_counter
+
         # _wakeup_scheduled is set if *another* task is scheduled to wakeup
         # but its acquire() is not resumed yet
         while self._wakeup_scheduled or self._value <= 0:
-            # To ensure that our objects don't have to be themselves comparable, we
-            # maintain a global count and increment it on every insert. This way,
-            # the tuple `(-priority, count, item)` will never have to compare `item`.
-            self._comparison_counter += 1
-
             fut = self._loop.create_future()
-            obj = (-priority, self._comparison_counter, fut)
+            obj = (-priority, count, fut)
             heapq.heappush(self._waiters, obj)
 
             try:
-- 
2.43.0


From 58f6b87fae69efb45d1778fe4b63706afc7d6659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 21/44] fix: contain attribute values that cannot be converted
 to their declared type

---
 zigpy/zcl/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 338394f..c4658de 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -484,7 +484,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value = self.attributes[attr.attrid].type(attr.value.value)
                 except KeyError:
                     value = attr.value.value
-                except ValueError:
+                except (TypeError, ValueError):
                     self.debug(
                         "Couldn't normalize %a attribute with %s value",
                         attr.attrid,
@@ -585,7 +585,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                         value = self.attributes[record.attrid].type(record.value.value)
                     except KeyError:
                         value = record.value.value
-                    except ValueError:
+                    except (TypeError, ValueError):
                         value = record.value.value
                         self.debug(
                             "Couldn't normalize %a attribute with %s value",
-- 
2.43.0


From 83d158f467f15bb2f44c80c7a59008e4509a9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 22/44] fix: dispatch responses over a snapshot of the
 registered listeners

---
 zigpy/device.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index d9f58f9..a44a0e8 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -4,7 +4,6 @@ import asyncio
 import contextlib
 from datetime import datetime, timezone
 import enum
-import itertools
 import logging
 import sys
 import time
@@ -528,10 +527,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         if error is not None:
             return
 
-        # Pass the request off to a listener, if one is registered
-        for listener in itertools.chain(
-            self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
-            self._application._req_listeners[self],
+        # Pass the request off to a listener, if one is registered. Listeners can be
+        # added and removed by the callbacks.
+        for listener in (
+            *self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
+            *self._application._req_listeners[self],
         ):
             # Resolve only until the first future listener
             if listener.resolve(hdr, args) and isinstance(
-- 
2.43.0


From 14e7dde110274895ffdeaafc2c0d49856dfac96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:38 +0000
Subject: [PATCH 23/44] fix: copy the attribute timestamps along with the
 attribute cache

---
 zigpy/quirks/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 8d847c6..3c83548 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -187,6 +187,11 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                         .in_clusters[cluster_id]
                         ._attr_cache.copy()
                     )
+                    cluster._attr_last_updated = (
+                        replace_device[endpoint_id]
+                        .in_clusters[cluster_id]
+                        ._attr_last_updated.copy()
+                    )
 
         for c in replacement_data.get(SIG_EP_OUTPUT, []):
             if isinstance(c, int):
@@ -206,6 +211,11 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                         .out_clusters[cluster_id]
                         ._attr_cache.copy()
                     )
+                    cluster._attr_last_updated = (
+                        replace_device[endpoint_id]
+                        .out_clusters[cluster_id]
+                        ._attr_last_updated.copy()
+                    )
 
 
 class CustomCluster(zigpy.zcl.Cluster):
-- 
2.43.0


From 33fccb08bc81e163565e42176a8923130a72a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 24/44] fix: contain listeners that raise before returning an
 awaitable

---
 zigpy/util.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 08fed28..fe22552 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -77,10 +77,15 @@ class ListenableMixin:
             if method is None:
                 continue
 
-            if include_context:
-                tasks.append(method(self, *args))
-            else:
-                tasks.append(method(*args))
+            try:
+                if include_context:
+                    tasks.append(method(self, *args))
+                else:
+                    tasks.append(method(*args))
+            except Exception as e:  # noqa: BLE001
+                LOGGER.debug(
+                    "Error calling listener %r with args %r", method, args, exc_info=e
+                )
 
         results = []
         for result in await asyncio.gather(*tasks, return_exceptions=True):
-- 
2.43.0


From 4054707e933015f7f11907e7a8d66d414fc8da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 25/44] fix: take the endpoints of a removed device out of
 their groups

---
 zigpy/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index e8f85a6..667b637 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -514,6 +514,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                     parent.zdo.Mgmt_Leave_req(dev.ieee, opts)
                 )
 
+        for ep in dev.non_zdo_endpoints:
+            for group in tuple(ep.member_of.values()):
+                group.remove_member(ep)
+
         self.listener_event("device_removed", dev)
 
     async def _remove_device(
-- 
2.43.0


From 95723727876383206cb82f4b9999e251b7e7afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 26/44] fix: do not announce the removal of an endpoint that is
 not in the group

---
 zigpy/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index d8ac7a9..6ee461c 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -52,7 +52,9 @@ class Group(ListenableMixin, dict):
         return self
 
     def remove_member(self, ep: Endpoint, suppress_event: bool = False) -> Group:
-        self.pop(ep.unique_id, None)
+        if ep.unique_id not in self:
+            return self
+        self.pop(ep.unique_id)
         ep.member_of.pop(self.group_id, None)
         if not suppress_event:
             self.listener_event("member_removed", self, ep)
-- 
2.43.0


From d90e88385a452d7e4a73bf7f7fea6a11a8389267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 27/44] fix: stop the OTA stall timer when an update is left

The timer was left armed when an update was cancelled (or answered a block
request after its end), keeping the finished update's manager alive.
---
 zigpy/ota/manager.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/zigpy/ota/manager.py b/zigpy/ota/manager.py
index 5f86cde..3319bae 100644
--- a/zigpy/ota/manager.py
+++ b/zigpy/ota/manager.py
@@ -91,6 +91,10 @@ class OTAManager:
     def __exit__(self, *exc_details) -> None:
         self.stack.close()
 
+        # Callbacks that are still running must not re-arm the timer
+        self._upgrade_end_future.cancel()
+        self._stall_timer.cancel()
+
     def _stall_callback(self) -> None:
         """Handle the stall timer expiring."""
         self._finish(foundation.Status.TIMEOUT)
@@ -166,14 +170,14 @@ class OTAManager:
                 tsn=hdr.tsn,
             )
 
-            self._stall_timer.reschedule(MAX_TIME_WITHOUT_PROGRESS)
-
             # Image block requests can sometimes succeed after the device aborts the
             # update. We should not allow the progress callback to be called.
-            if (
-                self.progress_callback is not None
-                and not self._upgrade_end_future.done()
-            ):
+            if self._upgrade_end_future.done():
+                return
+
+            self._stall_timer.reschedule(MAX_TIME_WITHOUT_PROGRESS)
+
+            if self.progress_callback is not None:
                 self.progress_callback(
                     command.file_offset + len(block), len(self._image_data)
                 )
-- 
2.43.0


From 05b1fc83f8e8782ff6098fe820621a7ed56230bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 28/44] fix: check the hardware compatibility of downloaded OTA
 images

The hardware versions in an image's own header were only considered the next
time the device asked for an image.
---
 zigpy/ota/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 142b728..8feeb96 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -470,6 +470,12 @@ class OTA:
                 _LOGGER.debug("Caching image %s", img)
                 self._image_cache[img.metadata] = img
 
+            # The file itself may further restrict the hardware it is compatible with
+            if not img.check_compatibility(device, query_cmd):
+                _LOGGER.debug("Downloaded image is incompatible, ignoring: %s", img)
+                upgrades.pop(img.metadata)
+                continue
+
             upgrades[img.metadata] = img
 
         # As a final pass, identify images with identical versions and specificity but
-- 
2.43.0


From b1f0bff2df192a32185a5f12a12c9781969fe9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 29/44] fix: reject OTA images with an inconsistent header
 length

Such an image was accepted, could not be serialized afterwards, and made every
OTA query matching it fail.
---
 zigpy/ota/image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index a9e5296..14f24ee 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -183,6 +183,9 @@ class OTAImage(t.Struct, BaseOTAImage):
         hdr, data = OTAImageHeader.deserialize(data)
         elements_len = hdr.image_size - hdr.header_length
 
+        if hdr.header_length != len(hdr.serialize()) or elements_len < 0:
+            raise ValueError(f"Header length is invalid: {hdr.header_length}")
+
         if elements_len > len(data):
             raise ValueError(f"Data is too short for {cls}")
 
-- 
2.43.0


From a8e62a577b64bafab9fcc36100ef34ed56189327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 30/44] fix: keep the smallest normal exponent when converting
 floats

---
 zigpy/types/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index fe2aa8f..7432d50 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -669,7 +669,7 @@ class BaseFloat(float):
         elif src_biased_exp == 0:
             dst_biased_exp = 0
         else:
-            dst_min_exp = 2 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
+            dst_min_exp = 1 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
             dst_max_exp = 2 ** (dst._exponent_bits - 1) - 2  # Can't be all ones
             dst_exp = min(max(dst_min_exp, src_exp), dst_max_exp)
             dst_biased_exp = dst_exp + 2 ** (dst._exponent_bits - 1)
-- 
2.43.0


From fc493560db29ecffcd51e56d64c44415e3292372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 31/44] fix: declare fixed-size lists with the item type first

---
 zigpy/zcl/clusters/protocol.py | 18 +++++++++---------
 zigpy/zdo/types.py             |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/zigpy/zcl/clusters/protocol.py b/zigpy/zcl/clusters/protocol.py
index 4a6841c..64f95ad 100644
--- a/zigpy/zcl/clusters/protocol.py
+++ b/zigpy/zcl/clusters/protocol.py
@@ -60,7 +60,7 @@ class AnalogInputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         update_interval: Final = ZCLAttributeDef(id=0x0076, type=t.uint8_t)
@@ -107,7 +107,7 @@ class AnalogOutputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         update_interval: Final = ZCLAttributeDef(id=0x0076, type=t.uint8_t)
@@ -139,7 +139,7 @@ class AnalogValueRegular(Cluster):
 
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -171,7 +171,7 @@ class BinaryInputRegular(Cluster):
         change_of_state_time: Final = ZCLAttributeDef(id=0x0010, type=DateTime)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -205,7 +205,7 @@ class BinaryOutputRegular(Cluster):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
         feed_back_value: Final = ZCLAttributeDef(id=0x0028, type=t.enum8)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -236,7 +236,7 @@ class BinaryValueRegular(Cluster):
         change_of_state_count: Final = ZCLAttributeDef(id=0x000F, type=t.uint32_t)
         change_of_state_time: Final = ZCLAttributeDef(id=0x0010, type=DateTime)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -266,7 +266,7 @@ class MultistateInputRegular(Cluster):
 
     class AttributeDefs(BaseAttributeDefs):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -296,7 +296,7 @@ class MultistateOutputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         feed_back_value: Final = ZCLAttributeDef(id=0x0028, type=t.enum8)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -322,7 +322,7 @@ class MultistateValueRegular(Cluster):
     ep_attribute: Final = "bacnet_regular_multistate_value"
 
     class AttributeDefs(BaseAttributeDefs):
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 3b38e6b..52ad17f 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -559,7 +559,7 @@ CLUSTERS = {
     ZDOCmd.Device_annce: (NWK, IEEE, ("Capability", t.uint8_t)),
     ZDOCmd.User_Desc_set: (
         NWKI,
-        ("UserDescriptor", t.FixedList[16, t.uint8_t]),
+        ("UserDescriptor", t.FixedList[t.uint8_t, 16]),
     ),  # Really a string
     ZDOCmd.System_Server_Discovery_req: (("ServerMask", t.uint16_t),),
     ZDOCmd.Discovery_store_req: (
@@ -665,7 +665,7 @@ CLUSTERS = {
         STATUS,
         NWKI,
         ("Length", t.uint8_t),
-        ("UserDescriptor", t.Optional(t.FixedList[16, t.uint8_t])),
+        ("UserDescriptor", t.Optional(t.FixedList[t.uint8_t, 16])),
     ),
     ZDOCmd.Discovery_Cache_rsp: (STATUS,),
     ZDOCmd.User_Desc_conf: (STATUS, NWKI),
-- 
2.43.0


From 6e6761b01b8ecb5e96b91cf62e8d61e34247e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 32/44] fix: use 16 bits for profile, cluster and network
 address fields

The Touchlink device information record carried an 8-bit profile id,
End_Device_Bind_req an 8-bit profile id and 8-bit cluster ids, and
Find_node_cache_rsp an 8-byte network address: everything after those
fields was decoded from the wrong offset.
---
 zigpy/zcl/clusters/lightlink.py | 2 +-
 zigpy/zdo/types.py              | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zigpy/zcl/clusters/lightlink.py b/zigpy/zcl/clusters/lightlink.py
index 3e7224a..ac1c3b5 100644
--- a/zigpy/zcl/clusters/lightlink.py
+++ b/zigpy/zcl/clusters/lightlink.py
@@ -52,7 +52,7 @@ class ScanResponseInformation(t.Struct):
 class DeviceInfoRecord(t.Struct):
     ieee: t.EUI64
     endpoint_id: t.uint8_t
-    profile_id: t.uint8_t
+    profile_id: t.uint16_t
     device_id: t.uint16_t
     version: t.uint8_t
     group_id_count: t.uint8_t
diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 52ad17f..bf817e9 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -591,9 +591,9 @@ CLUSTERS = {
         ("BindingTarget", t.uint16_t),
         ("SrcAddress", t.EUI64),
         ("SrcEndpoint", t.uint8_t),
-        ("ProfileID", t.uint8_t),
-        ("InClusterList", t.LVList[t.uint8_t]),
-        ("OutClusterList", t.LVList[t.uint8_t]),
+        ("ProfileID", t.uint16_t),
+        ("InClusterList", t.LVList[t.uint16_t]),
+        ("OutClusterList", t.LVList[t.uint16_t]),
     ),
     ZDOCmd.Bind_req: (
         ("SrcAddress", t.EUI64),
@@ -676,7 +676,7 @@ CLUSTERS = {
     ZDOCmd.Active_EP_store_rsp: (STATUS,),
     ZDOCmd.Simple_Desc_store_rsp: (STATUS,),
     ZDOCmd.Remove_node_cache_rsp: (STATUS,),
-    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.EUI64), NWK, IEEE),
+    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.NWK), NWK, IEEE),
     ZDOCmd.Extended_Simple_Desc_rsp: (
         STATUS,
         NWK,
-- 
2.43.0


From 822519efcaa60fb740765c302b3849cd76d6a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 33/44] fix: give distinct values to enumeration members that
 were aliases

ShadeMode.Configure and DriftCompensation.Color_monitoring repeated the
value of another member, so writing them sent that other value and the
value the standard assigns to them was decoded as undefined.
---
 zigpy/zcl/clusters/closures.py | 2 +-
 zigpy/zcl/clusters/lighting.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/clusters/closures.py b/zigpy/zcl/clusters/closures.py
index 5072f2d..e6a600e 100644
--- a/zigpy/zcl/clusters/closures.py
+++ b/zigpy/zcl/clusters/closures.py
@@ -24,7 +24,7 @@ class ShadeStatus(t.bitmap8):
 
 class ShadeMode(t.enum8):
     Normal = 0x00
-    Configure = 0x00
+    Configure = 0x01
     Unknown = 0xFF
 
 
diff --git a/zigpy/zcl/clusters/lighting.py b/zigpy/zcl/clusters/lighting.py
index 8ffdbbb..f0862f9 100644
--- a/zigpy/zcl/clusters/lighting.py
+++ b/zigpy/zcl/clusters/lighting.py
@@ -77,7 +77,7 @@ class DriftCompensation(t.enum8):
     Other_or_unknown = 0x01
     Temperature_monitoring = 0x02
     Luminance_monitoring = 0x03
-    Color_monitoring = 0x03
+    Color_monitoring = 0x04
 
 
 class OptionsMask(t.bitmap8):
-- 
2.43.0


From a18179b9c1b11893c1dff828229b441437497888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 34/44] fix: serialize named ZDO broadcast arguments in the
 order of the command definition

---
 zigpy/zdo/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 5bfe1de..49d79ee 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -311,7 +311,8 @@ def broadcast(
     assert set(named_args.keys()) & set(params)
 
     sequence = app.get_sequence()
-    data = bytes([sequence]) + t.serialize(named_args.values(), param_types)
+    ordered_args = [named_args[name] for name in params if name in named_args]
+    data = bytes([sequence]) + t.serialize(ordered_args, param_types)
 
     return zigpy.device.broadcast(
         app,
-- 
2.43.0


From fd106bf5c217680d83db03b6d4bc9bfb526b808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 35/44] fix: report the command of a manufacturer-specific
 group request in its response

---
 zigpy/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index 6ee461c..62ae068 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -79,11 +79,13 @@ class Group(ListenableMixin, dict):
             )
         )
 
+        hdr, _ = foundation.ZCLHeader.deserialize(data)
+
         return foundation.GENERAL_COMMANDS[
             foundation.GeneralCommand.Default_Response
         ].schema(
             status=foundation.Status.SUCCESS,
-            command_id=data[2],
+            command_id=hdr.command_id,
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 87cc78edc8e09c59cee941b6279e9b6dcb33b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 36/44] fix: reject malformed network settings with the
 configuration error

---
 zigpy/config/__init__.py   | 13 ++++++++-----
 zigpy/config/validators.py | 11 +++++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/zigpy/config/__init__.py b/zigpy/config/__init__.py
index 1943c44..0e8882f 100644
--- a/zigpy/config/__init__.py
+++ b/zigpy/config/__init__.py
@@ -37,6 +37,7 @@ from zigpy.config.defaults import (
 from zigpy.config.validators import (
     cv_boolean,
     cv_deprecated,
+    cv_eui64,
     cv_folder,
     cv_hex,
     cv_json_file,
@@ -128,20 +129,22 @@ SCHEMA_NETWORK = vol.Schema(
             None, vol.All(cv_hex, vol.Range(min=11, max=26))
         ),
         vol.Optional(CONF_NWK_CHANNELS, default=CONF_NWK_CHANNELS_DEFAULT): vol.Any(
-            t.Channels, vol.All(list, t.Channels.from_channel_list)
+            t.Channels, vol.All([int], t.Channels.from_channel_list)
         ),
         vol.Optional(
             CONF_NWK_EXTENDED_PAN_ID, default=CONF_NWK_EXTENDED_PAN_ID_DEFAULT
-        ): vol.Any(None, t.ExtendedPanId, t.ExtendedPanId.convert),
+        ): vol.Any(
+            None, t.ExtendedPanId, vol.All(cv_eui64, vol.Coerce(t.ExtendedPanId))
+        ),
         vol.Optional(CONF_NWK_KEY, default=CONF_NWK_KEY_DEFAULT): vol.Any(None, cv_key),
-        vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.Range(
-            min=0, max=255
+        vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.All(
+            cv_hex, vol.Range(min=0, max=255)
         ),
         vol.Optional(CONF_NWK_PAN_ID, default=CONF_NWK_PAN_ID_DEFAULT): vol.Any(
             None, t.PanId, vol.All(cv_hex, vol.Coerce(t.PanId))
         ),
         vol.Optional(CONF_NWK_TC_ADDRESS, default=CONF_NWK_TC_ADDRESS_DEFAULT): vol.Any(
-            None, t.EUI64, t.EUI64.convert
+            None, t.EUI64, cv_eui64
         ),
         vol.Optional(
             CONF_NWK_TC_LINK_KEY, default=CONF_NWK_TC_LINK_KEY_DEFAULT
diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 4cad78f..22eb456 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -65,6 +65,17 @@ def cv_key(key: list[int]) -> t.KeyData:
     return t.KeyData(key)
 
 
+def cv_eui64(value: str) -> t.EUI64:
+    """Convert a hex string into an EUI64."""
+    if not isinstance(value, str):
+        raise vol.Invalid(f"{value!r} is not a valid EUI64")
+
+    try:
+        return t.EUI64.convert(value)
+    except (AssertionError, ValueError) as err:
+        raise vol.Invalid(f"Could not convert {value!r} to an EUI64") from err
+
+
 def cv_simple_descriptor(obj: dict[str, typing.Any]) -> zdo_t.SimpleDescriptor:
     """Validates a ZDO simple descriptor."""
     if not isinstance(obj, dict):
-- 
2.43.0


From 240432766d2a4fa01a56917d5fddbbb288ff8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 37/44] fix: reject malformed descriptors, paths and OTA
 providers with the configuration error

---
 zigpy/config/validators.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 22eb456..59006a8 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+import os
 import pathlib
 import typing
 import warnings
@@ -81,7 +82,10 @@ def cv_simple_descriptor(obj: dict[str, typing.Any]) -> zdo_t.SimpleDescriptor:
     if not isinstance(obj, dict):
         raise vol.Invalid("Not a dictionary")
 
-    descriptor = zdo_t.SimpleDescriptor(**obj)
+    try:
+        descriptor = zdo_t.SimpleDescriptor(**obj)
+    except (TypeError, ValueError) as err:
+        raise vol.Invalid(f"Invalid simple descriptor {obj!r}") from err
 
     if not descriptor.is_valid:
         raise vol.Invalid(f"Invalid simple descriptor {descriptor!r}")
@@ -102,6 +106,9 @@ def cv_deprecated(message: str) -> typing.Callable[[typing.Any], typing.Any]:
 
 def cv_json_file(value: str) -> pathlib.Path:
     """Validate a JSON file."""
+    if not isinstance(value, (str, os.PathLike)):
+        raise vol.Invalid(f"{value!r} is not a path")
+
     path = pathlib.Path(value)
 
     if not path.is_file():
@@ -112,6 +119,9 @@ def cv_json_file(value: str) -> pathlib.Path:
 
 def cv_folder(value: str) -> pathlib.Path:
     """Validate a folder path."""
+    if not isinstance(value, (str, os.PathLike)):
+        raise vol.Invalid(f"{value!r} is not a path")
+
     path = pathlib.Path(value)
 
     if not path.is_dir():
@@ -124,7 +134,10 @@ def cv_ota_provider_name(name: str | None) -> type[zigpy.ota.providers.BaseOtaPr
     """Validate OTA provider name."""
     import zigpy.ota.providers
 
-    if name not in zigpy.ota.providers.OTA_PROVIDER_TYPES:
+    if (
+        not isinstance(name, str)
+        or name not in zigpy.ota.providers.OTA_PROVIDER_TYPES
+    ):
         raise vol.Invalid(f"Unknown OTA provider: {name!r}")
 
     return zigpy.ota.providers.OTA_PROVIDER_TYPES[name]
@@ -132,6 +145,9 @@ def cv_ota_provider_name(name: str | None) -> type[zigpy.ota.providers.BaseOtaPr
 
 def cv_ota_provider(obj: dict) -> zigpy.ota.providers.BaseOtaProvider:
     """Validate OTA provider."""
+    if not isinstance(obj, dict):
+        raise vol.Invalid("Not a dictionary")
+
     provider_type = obj.get(zigpy.config.CONF_OTA_PROVIDER_TYPE)
     provider_cls = cv_ota_provider_name(provider_type)
 
-- 
2.43.0


From a12a8b68ca68b7ea3e952c1a78711492e9e6408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 38/44] fix: construct a client cluster added by a declarative
 quirk as a client

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index e2d36fa..bcdcccd 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -160,7 +160,9 @@ class AddsMetadata:
             cluster = None
             cluster_id = self.cluster
         else:
-            cluster = self.cluster(endpoint, is_server=True)
+            cluster = self.cluster(
+                endpoint, is_server=self.cluster_type == ClusterType.Server
+            )
             cluster_id = cluster.cluster_id
 
         cluster = add_cluster(cluster_id, cluster)
-- 
2.43.0


From 145fe89fb717b5b81c131259f994db7df72ad4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 39/44] fix: answer constant attributes which a declarative
 quirk declares by name

---
 zigpy/quirks/__init__.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 3c83548..0302ff2 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -226,6 +226,14 @@ class CustomCluster(zigpy.zcl.Cluster):
 
     manufacturer_id_override: t.uint16_t | None = None
 
+    @property
+    def _constant_attributes_by_id(self) -> dict[int, typing.Any]:
+        """Constant attribute values by attribute ID. They can be declared by name."""
+        return {
+            self.attributes_by_name[attr].id if isinstance(attr, str) else attr: value
+            for attr, value in (self._CONSTANT_ATTRIBUTES or {}).items()
+        }
+
     @property
     def _is_manuf_specific(self) -> bool:
         """Return True if cluster_id is within manufacturer specific range."""
@@ -300,7 +308,9 @@ class CustomCluster(zigpy.zcl.Cluster):
     async def read_attributes_raw(
         self, attributes: list[uint16_t], manufacturer: uint16_t | None = None, **kwargs
     ):
-        if not self._CONSTANT_ATTRIBUTES:
+        constants = self._constant_attributes_by_id
+
+        if not constants:
             return await super().read_attributes_raw(
                 attributes, manufacturer=manufacturer, **kwargs
             )
@@ -311,16 +321,14 @@ class CustomCluster(zigpy.zcl.Cluster):
                 status=foundation.Status.SUCCESS,
                 value=foundation.TypeValue(
                     type=None,
-                    value=self._CONSTANT_ATTRIBUTES[attr],
+                    value=constants[attr],
                 ),
             )
             for attr in attributes
-            if attr in self._CONSTANT_ATTRIBUTES
+            if attr in constants
         ]
 
-        attrs_to_read = [
-            attr for attr in attributes if attr not in self._CONSTANT_ATTRIBUTES
-        ]
+        attrs_to_read = [attr for attr in attributes if attr not in constants]
 
         if not attrs_to_read:
             return [succeeded]
@@ -416,11 +424,10 @@ class CustomCluster(zigpy.zcl.Cluster):
 
         # Ensure we check the constant attributes dictionary first, since their values
         # will not be in the attribute cache but can be read immediately.
-        if (
-            self._CONSTANT_ATTRIBUTES is not None
-            and attr_def.id in self._CONSTANT_ATTRIBUTES
-        ):
-            return self._CONSTANT_ATTRIBUTES[attr_def.id]
+        constants = self._constant_attributes_by_id
+
+        if attr_def.id in constants:
+            return constants[attr_def.id]
 
         return super().get(key, default)
 
-- 
2.43.0


From 18b27122d4b00233ad512fff947036a93a05f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 40/44] fix: configure reporting with the attribute's declared
 ZCL type

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index c4658de..80e3555 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -703,7 +703,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
         cfg = foundation.AttributeReportingConfig()
         cfg.direction = direction
         cfg.attrid = attr_def.id
-        cfg.datatype = foundation.DataType.from_python_type(attr_def.type).type_id
+        cfg.datatype = attr_def.zcl_type
         cfg.min_interval = min_interval
         cfg.max_interval = max_interval
         cfg.reportable_change = reportable_change
-- 
2.43.0


From 9a807e2b48732f2144fc30012220f0ee9c3ec496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 41/44] fix: matching an unset nested struct against a pattern
 does not crash

---
 zigpy/types/struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index 36c4fe6..89a7778 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -436,7 +436,7 @@ class Struct:
                 continue
 
             if isinstance(expected, Struct):
-                if not actual.matches(expected):
+                if actual is None or not actual.matches(expected):
                     return False
             elif actual != expected:
                 return False
-- 
2.43.0


From c92ab4e723b9f3311e4351ec5d6c579dc53994f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:36 +0000
Subject: [PATCH 42/44] fix: equal packets have equal hashes

---
 zigpy/types/named.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zigpy/types/named.py b/zigpy/types/named.py
index ddd170f..81ed7ef 100644
--- a/zigpy/types/named.py
+++ b/zigpy/types/named.py
@@ -625,7 +625,6 @@ class ZigbeePacket(BaseDataclassMixin):
     def __hash__(self) -> int:
         return hash(
             (
-                self.timestamp,
                 self.src,
                 self.src_ep,
                 self.dst,
-- 
2.43.0


From 4f8886dc33585b92c67f0a880cac792fa8f171f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:21 +0000
Subject: [PATCH 43/44] fix: debounced objects with the same expiry are never
 compared

---
 zigpy/datastructures.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index e0cb543..4faca39 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -232,7 +232,6 @@ class Debouncer:
         self._times: dict[typing.Any, float] = {}
         self._queue: list[tuple[float, int, typing.Any]] = []
 
-        self._last_time: int = 0
         self._dedup_counter: int = 0
 
     @functools.cached_property
@@ -264,12 +263,8 @@ class Debouncer:
         """Check if an object should be filtered. If not, store it."""
         now = self._loop.time()
 
-        # For platforms with low-resolution clocks, we need to make sure that `obj` will
-        # never be compared by `heapq`!
-        if now > self._last_time:
-            self._last_time = now
-            self._dedup_counter = 0
-
+        # Expiration times can tie, we need to make sure that `obj` will never be compared
+        # by `heapq`!
         self._dedup_counter += 1
 
         # If the object is filtered, do nothing
-- 
2.43.0


From 7c113ba73bcdf2d446b66178f31ab24d395383a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 44/44] fix: copy and print reporting configurations without a
 reportable change

---
 zigpy/zcl/foundation.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 8128917..90f9372 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -753,17 +753,25 @@ class AttributeReportingStatus(t.enum8):
 
 
 class AttributeReportingConfig:
+    # A decoded record contains only some of these: there is no reportable change for
+    # discrete types and nothing at all if the record's status is not successful
+    timeout: int | None = None
+    datatype: DataTypeId | None = None
+    min_interval: int | None = None
+    max_interval: int | None = None
+    reportable_change: int | None = None
+
     def __init__(self, other: AttributeReportingConfig | None = None) -> None:
         if isinstance(other, self.__class__):
             self.direction: ReportingDirection = other.direction
             self.attrid: t.uint16_t = other.attrid
             if self.direction == ReportingDirection.ReceiveReports:
-                self.timeout: int = other.timeout
+                self.timeout = other.timeout
                 return
-            self.datatype: DataTypeId = other.datatype
-            self.min_interval: int = other.min_interval
-            self.max_interval: int = other.max_interval
-            self.reportable_change: int = other.reportable_change
+            self.datatype = other.datatype
+            self.min_interval = other.min_interval
+            self.max_interval = other.max_interval
+            self.reportable_change = other.reportable_change
 
     def serialize(self, *, _only_dir_and_attrid: bool = False) -> bytes:
         r = ReportingDirection(self.direction).serialize()
@@ -833,7 +841,7 @@ class AttributeReportingConfig:
 
         if self.direction == ReportingDirection.ReceiveReports:
             r += f", timeout={self.timeout}"
-        elif hasattr(self, "datatype"):
+        elif self.datatype is not None:
             r += f", datatype={self.datatype}"
             r += f", min_interval={self.min_interval}"
             r += f", max_interval={self.max_interval}"
-- 
2.43.0


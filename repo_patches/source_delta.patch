From 2eaa98ed9bf287e66205601fec2bba89699f2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 01/56] fix: PricedIdTracker reports only the final cost of an
 id, and only when it changed

---
 streamtasks/net/helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streamtasks/net/helpers.py b/streamtasks/net/helpers.py
index eb81939..1bc724f 100644
--- a/streamtasks/net/helpers.py
+++ b/streamtasks/net/helpers.py
@@ -26,7 +26,7 @@ class PricedIdTracker:
       if id.cost < val:
         self._computed_map[id.id] = id.cost
         final.add(id)
-    return final
+    return self._current_only(final)
 
   def remove_many(self, ids: Iterable[PricedId]) -> tuple[set[int], set[PricedId]]:
     final_removed = set()
@@ -44,12 +44,17 @@ class PricedIdTracker:
           final_removed.add(id.id)
         else:
           min_cost = min(inner.keys())
+          if min_cost == self._computed_map[id.id]: continue
           self._computed_map[id.id] = min_cost
           final_updated.add(PricedId(id.id, min_cost))
       else:
         inner[id.cost] = val - 1
 
-    return final_removed, final_updated
+    return final_removed, self._current_only(final_updated)
+
+  def _current_only(self, ids: set[PricedId]) -> set[PricedId]:
+    # one call can change an id several times, only its final cost may be reported
+    return set(id for id in ids if self._computed_map.get(id.id, None) == id.cost)
 
   def change_many(self, add: Iterable[PricedId], remove: Iterable[PricedId]) -> tuple[set[PricedId], set[int]]:
     removed, updated = self.remove_many(remove)
-- 
2.43.0


From 3868bab3f7dcd81193542e2d7857c637ff7bfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 02/56] fix: a link hands on the withdrawal of a price that a
 repeated announcement replaces

---
 streamtasks/net/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c5ee23..5d5ffdc 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -118,7 +118,7 @@ class Link(ABC):
       otc_message: OutTopicsChangedMessage = message
       message = OutTopicsChangedRecvMessage(
         set(PricedId(pt.id, pt.cost + self._cost) for pt in otc_message.add),
-        set(PricedId(t, self.out_topics[t]) for t in otc_message.remove if t in self.out_topics))
+        self.get_priced_out_topics(otc_message.remove.union(pt.id for pt in otc_message.add))) # a new price replaces the old one
       for address in otc_message.remove: self.out_topics.pop(address, None)
       for pt in message.add: self.out_topics[pt.id] = pt.cost
 
@@ -126,7 +126,7 @@ class Link(ABC):
       ac_message: AddressesChangedMessage = message
       message = AddressesChangedRecvMessage(
         set(PricedId(pa.id, pa.cost + self._cost) for pa in ac_message.add),
-        set(PricedId(a, self.addresses[a]) for a in ac_message.remove if a in self.addresses))
+        self.get_priced_addresses(ac_message.remove.union(pa.id for pa in ac_message.add))) # a new price replaces the old one
       for address in ac_message.remove: self.addresses.pop(address, None)
       for pa in message.add: self.addresses[pa.id] = pa.cost
 
-- 
2.43.0


From cfbc7d5e3dc257d64b9613f1f4fcedbbd10aa322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 03/56] fix: a closed link does not stop the delivery of a
 message to the other links

---
 streamtasks/net/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 5d5ffdc..723b7ee 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -252,7 +252,9 @@ class Switch:
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: list[Link]):
-    for link in links: await link.send(message)
+    for link in list(links):
+      try: await link.send(message)
+      except ConnectionClosedError: pass # its receiver removes it
   async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
 
   async def send_remove_in_topic(self, topic: int):
-- 
2.43.0


From 8ac1cee2f08b87563054d04ed2fc15bd88c59e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 04/56] fix: a disconnected link stops counting as wanting its
 topics

---
 streamtasks/net/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 723b7ee..2143e12 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -238,10 +238,11 @@ class Switch:
 
     recv_topics = link.recv_topics
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
-    updated_in_topics = recv_topics - removed_topics
+    removed_in_topics = self.in_topics.remove_many(link.in_topics)
+    updated_in_topics = set(topic for topic in recv_topics - removed_topics if topic in self.in_topics)
 
-    if len(updated_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), set())
+    if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
+      await self.request_in_topics_change(updated_in_topics, removed_in_topics)
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
@@ -265,8 +266,8 @@ class Switch:
     change_map: dict[Link, InTopicsChangedMessage] = {}
 
     for topic in add_topics:
-      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')))
-      if topic not in best_link.out_topics: continue
+      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')), default=None)
+      if best_link is None or topic not in best_link.out_topics: continue
       if best_link not in change_map: change_map[best_link] = InTopicsChangedMessage(set(), set())
       change_map[best_link].add.add(topic)
 
-- 
2.43.0


From 312818debee5366c2f6a240742cdb7a473338ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 05/56] fix: a closed link does not keep subscription changes
 from reaching the providers

---
 streamtasks/net/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 2143e12..366f1a7 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -278,7 +278,7 @@ class Switch:
           if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
           for topic in remove_sub: change_map[conn].remove.add(topic)
 
-    for conn, message in change_map.items(): await conn.send(message)
+    for conn, message in change_map.items(): await self.send_to(message, [conn])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -286,7 +286,7 @@ class Switch:
     final_remove = self.in_topics.remove_many(message.remove)
 
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
-      await origin.send(control_message)
+      await self.send_to(control_message, [origin])
 
     await self.request_in_topics_change(final_add, final_remove)
 
-- 
2.43.0


From 8799fc384b10f1e21a300704126f88632700d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 06/56] fix: a switch asks the next provider when the current
 one withdraws a wanted topic

---
 streamtasks/net/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 366f1a7..c0025ec 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -305,11 +305,11 @@ class Switch:
       await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
 
     resub_topics = set()
-    for pt in message.add:
-      if pt.id in self.in_topics:
-        topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
-        if topic_provider is None or topic_provider.out_topics[pt.id] > pt.cost:
-          resub_topics.add(pt.id)
+    for topic in set(pt.id for pt in message.add.union(message.remove)):
+      if topic in self.in_topics and topic in self.out_topics:
+        topic_provider = next((conn for conn in self.link_manager.links if topic in conn.recv_topics), None)
+        if topic_provider is None or topic_provider.out_topics.get(topic, float('inf')) > self.out_topics.get(topic):
+          resub_topics.add(topic)
     await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
-- 
2.43.0


From f4056487e7d6d92cc29638cbec572b2d13a79fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 07/56] fix: a receiver that ends does not cancel the removal
 of its own link

---
 streamtasks/net/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index c0025ec..902cc24 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -196,7 +196,9 @@ class LinkManager:
   def has_link(self, link: Link): return link in self._link_recv_tasks
   def accept_link(self, link: Link, receiver_task: asyncio.Task): self._link_recv_tasks[link] = receiver_task
   def remove_link(self, link: Link):
-    if link in self._link_recv_tasks: self._link_recv_tasks.pop(link).cancel()
+    if link in self._link_recv_tasks:
+      task = self._link_recv_tasks.pop(link)
+      if task is not asyncio.current_task(): task.cancel() # a receiver removing its own link has to finish doing so
   def cancel_all(self):
     for task in self._link_recv_tasks.values(): task.cancel()
     self._link_recv_tasks.clear()
-- 
2.43.0


From 33d2c4c474a944f8d980d162ed9a1dfaec8d5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 08/56] fix: both ends of a link agree on a topic that one
 announcement both adds and removes

---
 streamtasks/net/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 902cc24..e19fad1 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -108,7 +108,7 @@ class Link(ABC):
   def _process_recv_message(self, message: Message) -> Message:
     if isinstance(message, InTopicsChangedMessage):
       itc_message: InTopicsChangedMessage = message
-      message = InTopicsChangedMessage(itc_message.add.difference(self.in_topics), itc_message.remove.intersection(self.in_topics))
+      message = InTopicsChangedMessage(itc_message.add.difference(self.in_topics, itc_message.remove), itc_message.remove.intersection(self.in_topics))
       self.in_topics = self.in_topics.union(message.add).difference(message.remove)
 
       if len(message.add) == 0 and len(message.remove) == 0:
-- 
2.43.0


From 33092f52f2b2b63d5faee5a3c6fe4212996e7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 09/56] fix: a disconnected link's addresses are forgotten
 before anything is sent

---
 streamtasks/net/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index e19fad1..4317596 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -240,6 +240,7 @@ class Switch:
 
     recv_topics = link.recv_topics
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
+    removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
     removed_in_topics = self.in_topics.remove_many(link.in_topics)
     updated_in_topics = set(topic for topic in recv_topics - removed_topics if topic in self.in_topics)
 
@@ -249,7 +250,6 @@ class Switch:
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
 
-    removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
     if len(removed_addresses) > 0 or len(updated_addresses) > 0:
       await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))
 
-- 
2.43.0


From 47a024cdcd273c31f82a9433c1b42dda5033674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 10/56] fix: an addressed message to a link that just closed
 does not disconnect its sender

---
 streamtasks/net/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 4317596..a01f8ae 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -296,7 +296,7 @@ class Switch:
     if message.address not in self.addresses: return
     address_cost = self.addresses.get(message.address)
     found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
-    if found_conn is not None: await found_conn.send(message)
+    if found_conn is not None: await self.send_to(message, [found_conn])
 
   async def on_stream_message(self, message: TopicMessage, origin: Link):
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
-- 
2.43.0


From 4a7635b107fc57ae2bd27860f000ef5ee5ee8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 11/56] fix: a topic requested from a link that was just
 closing is requested again when the link is removed

---
 streamtasks/net/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index a01f8ae..fdb075d 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -242,7 +242,8 @@ class Switch:
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
     removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
     removed_in_topics = self.in_topics.remove_many(link.in_topics)
-    updated_in_topics = set(topic for topic in recv_topics - removed_topics if topic in self.in_topics)
+    lost_topics = recv_topics.union(link.out_topics) - removed_topics # a request sent while the link was closing never arrived
+    updated_in_topics = set(topic for topic in lost_topics if topic in self.in_topics and not any(topic in conn.recv_topics for conn in self.link_manager.links))
 
     if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
       await self.request_in_topics_change(updated_in_topics, removed_in_topics)
-- 
2.43.0


From 0b08c06902b1a509ca249cdde849aadd2997e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 12/56] fix: decode message payloads with non-string dict keys

---
 streamtasks/net/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/serialization.py b/streamtasks/net/serialization.py
index 0587e4a..eb052af 100644
--- a/streamtasks/net/serialization.py
+++ b/streamtasks/net/serialization.py
@@ -36,7 +36,7 @@ class RawData:
     if self._raw is None: self._raw = memoryview(msgpack.packb(self._data, strict_types=False)) # NOTE: do we want strict types?
     return self._raw
   def deserialize(self) -> Any:
-    if self._data is None: self._data = msgpack.unpackb(self._raw)
+    if self._data is None: self._data = msgpack.unpackb(self._raw, strict_map_key=False)
     return self._data
   def update(self):
     self.deserialize()
-- 
2.43.0


From f4c98a7b0f20136b276c9df5bcffe4ec3333c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 13/56] fix: refuse address names that start with a digit and
 contain a line break

---
 streamtasks/net/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/utils.py b/streamtasks/net/utils.py
index d0f3bc2..4deaf75 100644
--- a/streamtasks/net/utils.py
+++ b/streamtasks/net/utils.py
@@ -1,7 +1,7 @@
 from streamtasks.net import Endpoint
 import re
 
-is_address_name_test: re.Pattern = re.compile("^[0-9].*$", re.RegexFlag.I)
+is_address_name_test: re.Pattern = re.compile("^[0-9]")
 
 def validate_address_name(name: str):
   if ":" in name: raise ValueError("Address name must not contain a ':'!")
-- 
2.43.0


From b5c2c706658090b1fc375b0f3f512b9e7f11091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 14/56] fix: keep receiving when a receiver is enabled while
 the last other one is being disabled

---
 streamtasks/client/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d88d5dd..2a9d687 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -121,6 +121,7 @@ class Client:
       self._receive_task.cancel()
       try: await self._receive_task
       except asyncio.CancelledError: pass
+      if len(self._receivers) > 0: self._receive_task = self._receive_task or asyncio.create_task(self._task_receive())
 
   def set_address_name(self, name: str, address: Optional[int]):
     if address is None: self._address_resolver_cache.pop(name, None)
-- 
2.43.0


From 52f9834ea87253d6297541153237b0a4b812d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 15/56] fix: report only tracked ids when ids are removed by
 force

---
 streamtasks/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c94db34..f713765 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -51,8 +51,10 @@ class IdTracker:
     return final
   def remove_many(self, ids: Iterable[int], force: bool = False):
     if force:
-      for id in ids: self._map.pop(id, None)
-      return ids
+      final = set()
+      for id in ids:
+        if self._map.pop(id, None) is not None: final.add(id)
+      return final
     else:
       final = set()
       for id in ids:
-- 
2.43.0


From e9bdff8ab9b1f5ff5fe7da404938a3ddecc6265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 16/56] fix: refuse to allocate a negative number of ids

---
 streamtasks/services/discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/services/discovery.py b/streamtasks/services/discovery.py
index 73b51bb..bf9f39b 100644
--- a/streamtasks/services/discovery.py
+++ b/streamtasks/services/discovery.py
@@ -141,11 +141,13 @@ class DiscoveryWorker(Worker):
     await signal_server.run()
 
   def generate_topic_ids(self, count: int) -> set[int]:
+    if count < 0: raise ValueError("count must not be negative")
     res = set(self._topics_counter + i for i in range(count))
     self._topics_counter += count
     return res
 
   def generate_addresses(self, count: int) -> set[int]:
+    if count < 0: raise ValueError("count must not be negative")
     res = set(self._address_counter + i for i in range(count))
     self._address_counter += count
     return res
-- 
2.43.0


From 30676a86d246993b43739bf656a7df6d0de1d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 17/56] fix: stop resolving an address name locally when its
 own registration ends

---
 streamtasks/client/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index c401ce6..95b8bb1 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -169,7 +169,7 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     yield
   finally:
     await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name).model_dump())
-    client.set_address_name(name, address)
+    client.set_address_name(name, None)
 
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
-- 
2.43.0


From 20a2812be9cb06e7565e599cf42f9bba5065b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 18/56] fix: register an address name for address 0 when asked
 to

---
 streamtasks/client/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index 95b8bb1..42d93ff 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -161,7 +161,7 @@ async def get_topic_space_translation(client: 'Client', topic_space_id: int, top
 
 @asynccontextmanager
 async def address_name_context(client: 'Client', name: str, address: int | None = None):
-  address = address or client.address
+  if address is None: address = client.address
   if address is None: raise ValueError("Missing address!")
   try:
     await client.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, RegisterAddressNameRequestBody(address_name=name, address=address).model_dump())
-- 
2.43.0


From 4839b5cbe75e89e960821dbc80911cbb85eb303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 19/56] fix: give the secret manager a name of its own

---
 streamtasks/services/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/services/constants.py b/streamtasks/services/constants.py
index 8cec79a..085fdb8 100644
--- a/streamtasks/services/constants.py
+++ b/streamtasks/services/constants.py
@@ -19,4 +19,4 @@ class NetworkAddressNames:
   TASK_MANAGER = "task_manager"
   TASK_MANAGER_WEB = "task_manager_web"
   NAMED_TOPIC_MANAGER = "named_topic_manager"
-  SECRET_MANAGER = "named_topic_manager"
+  SECRET_MANAGER = "secret_manager"
-- 
2.43.0


From baa743598523cdbaf81a8d9e05efc3f224a2d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 20/56] fix: never answer a request a second time when its
 handler fails validation after responding

---
 streamtasks/client/fetch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 3c1552a..1cdb0b8 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -109,7 +109,8 @@ class FetchServer(Receiver[tuple[str, FetchRequest]]):
             await self._descriptor_mapping[descriptor](fr)
             if not fr.response_sent: await fr.respond(None)
           except asyncio.CancelledError: raise
-          except ValidationError as e: await fr.respond_error(new_fetch_body_bad_request(str(e)))
+          except ValidationError as e:
+            if not fr.response_sent: await fr.respond_error(new_fetch_body_bad_request(str(e)))
           except BaseException as e:
             if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))
             logging.debug(e, descriptor)
-- 
2.43.0


From 2e8db9b81a126abb422363a0f54863d2ac8edaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 21/56] fix: wait for higher-priority topics that have not
 finished their message

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1a6e043..47c7154 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -146,7 +146,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
     self._done_topics = set()
 
   async def wait_for(self, topic_id: int, timestamp: int) -> bool:
-    if topic_id is self._done_topics: self._done_topics.remove(topic_id)
+    if topic_id in self._done_topics: self._done_topics.remove(topic_id)
     return await super().wait_for(topic_id, timestamp)
 
   def start_receive(self, topic_id: int):
-- 
2.43.0


From 46471d1fdd4ff8b78a2aff28236504a1b74d0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 22/56] fix: keep the position of a synchronized topic that is
 resumed without having been paused

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 47c7154..29e142b 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -131,7 +131,7 @@ class SequentialInTopicSynchronizer(InTopicSynchronizer):
 
   async def set_paused(self, topic_id: int, paused: bool):
     if paused: self._set_topic_timestamp(topic_id, None)
-    else: self._set_topic_timestamp(topic_id, self.min_timestamp)
+    elif topic_id not in self._topic_timestamps: self._set_topic_timestamp(topic_id, self.min_timestamp)
 
   def _is_waiting(self, topic_id: int, timestamp: int): return self.min_timestamp < timestamp
   def _set_topic_timestamp(self, topic_id: int, timestamp: int | None):
-- 
2.43.0


From 91ea17a2ce00780bd2ff04237cc9bbea5e65a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 23/56] fix: find a frame marker that directly follows a
 partial one

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8b979fa..ba9363a 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -158,7 +158,7 @@ class RawStreamConnection(RawConnection):
     while sync_index < len(RawStreamConnection.SYNC_WORD):
       next_byte = await self._reader.readexactly(1)
       if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1
-      else: sync_index = 0
+      else: sync_index = 1 if next_byte[0] == RawStreamConnection.SYNC_WORD[0] else 0
     data_len, = struct.unpack("<L", await self._reader.readexactly(4))
     return await self._reader.readexactly(data_len)
 
-- 
2.43.0


From 8dbe98c5967ef4c3faf351baf23601ae3695a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 24/56] fix: authenticate every connection, not only the first
 one

---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index ba9363a..df6f4cb 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -103,10 +103,10 @@ class RawConnection(ABC):
     try:
       client_data = msgpack.unpackb(await self.recv())
       if not isinstance(client_data, dict): raise ValueError()
-      server_auth = extra_data.pop("auth", None)
+      server_auth = extra_data.get("auth", None)
       client_auth = client_data.get("auth", None)
       accepted = client_data.get("version", None) == _get_version_specifier() and client_auth == server_auth
-      server_data = { **extra_data, "accepted": accepted, "version": _get_version_specifier() }
+      server_data = { **{ k: v for k, v in extra_data.items() if k != "auth" }, "accepted": accepted, "version": _get_version_specifier() }
       await self.send(msgpack.packb(server_data))
       if not accepted: raise ConnectionError("Server rejected connection")
     except BaseException as e:
-- 
2.43.0


From b9d6a06136adc359ae559a0aa804fa86f3eef94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 25/56] fix: replace the stored user data atomically when
 saving

---
 streamtasks/pydanticdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/pydanticdb.py b/streamtasks/pydanticdb.py
index c181107..283ad66 100644
--- a/streamtasks/pydanticdb.py
+++ b/streamtasks/pydanticdb.py
@@ -16,7 +16,12 @@ class PydanticDB(Generic[T]):
   def entries(self): return copy.deepcopy(self._entries)
 
   def save(self):
-    with open(self._filename, "wb") as fd: fd.write(self._list_model.dump_json(self._entries))
+    tmp_filename = self._filename + ".tmp"
+    with open(tmp_filename, "wb") as fd:
+      fd.write(self._list_model.dump_json(self._entries))
+      fd.flush()
+      os.fsync(fd.fileno())
+    os.replace(tmp_filename, self._filename)
 
   def load(self):
     with open(self._filename, "rb") as fd: self._entries = self._list_model.validate_json(fd.read())
-- 
2.43.0


From a5ea0ac5d6c554b65d56044d5b976b82e3a35df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 26/56] fix: address named topics over the web by exactly their
 name

---
 streamtasks/system/named_topic_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index b3814b1..8626be9 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -1,6 +1,5 @@
 import asyncio
 import os
-from urllib.parse import unquote
 from pydantic import BaseModel, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
@@ -95,18 +94,18 @@ class NamedTopicManager(TaskWebPathHandler):
       self.db.save()
       await ctx.respond_json(data.model_dump())
 
-    @router.get("/api/named-topic/{name}")
+    @router.get("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
       try:
-        name = unquote(ctx.params["name"])
+        name = ctx.params["name"]
         await ctx.respond_json(next(e for e in self.db.entries if e.name == name).model_dump())
       except StopIteration: await ctx.respond_status(404)
 
-    @router.delete("/api/named-topic/{name}")
+    @router.delete("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
-      name = unquote(ctx.params["name"])
+      name = ctx.params["name"]
       self.db.update(e for e in self.db.entries if e.name != name)
       self.db.save()
       await ctx.respond_status(200)
-- 
2.43.0


From 3483db71ccf9682f7b0f8c0bac247013527809d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 27/56] fix: answer not-found for an unknown secret

---
 streamtasks/system/secret_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index b670b4c..1438d03 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -39,7 +39,7 @@ class SecretManager(TaskWebPathHandler):
       try:
         data = SecretRequestModel.model_validate(req.body)
         await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
-      except KeyError: await req.respond_error(new_fetch_body_not_found("secret not found!"))
+      except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
     async def _(req: FetchRequest):
-- 
2.43.0


From 94561bbf15fe1f017ad633346845a6722c57b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 28/56] fix: send secrets and their ids in a form that can be
 carried between nodes

---
 streamtasks/system/secret_manager.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index 1438d03..5ba6a9b 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -38,7 +38,7 @@ class SecretManager(TaskWebPathHandler):
     async def _(req: FetchRequest):
       try:
         data = SecretRequestModel.model_validate(req.body)
-        await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
+        await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump(mode="json"))
       except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
@@ -46,7 +46,7 @@ class SecretManager(TaskWebPathHandler):
       data = SecretModel.model_validate(req.body)
       self.db.update([e for e in self.db.entries if e.id != data.id] + [data])
       self.db.save()
-      await req.respond(data.model_dump())
+      await req.respond(data.model_dump(mode="json"))
 
     @server.route("delete_secret")
     async def _(req: FetchRequest):
@@ -95,11 +95,11 @@ class SecretManagerClient:
     self.client = client
 
   async def resolve_secret(self, id: UUID4):
-    result = await self.client.fetch(self.address_name, "get_secret", SecretRequestModel(id=id).model_dump())
+    result = await self.client.fetch(self.address_name, "get_secret", SecretRequestModel(id=id).model_dump(mode="json"))
     return SecretModel.model_validate(result).value
 
   async def delete_secret(self, id: UUID4):
-    await self.client.fetch(self.address_name, "delete_secret", SecretRequestModel(id=id).model_dump())
+    await self.client.fetch(self.address_name, "delete_secret", SecretRequestModel(id=id).model_dump(mode="json"))
 
   async def put_secret(self, id: UUID4, value: str):
-    await self.client.fetch(self.address_name, "put_secret", SecretModel(id=id, value=value).model_dump())
+    await self.client.fetch(self.address_name, "put_secret", SecretModel(id=id, value=value).model_dump(mode="json"))
-- 
2.43.0


From 3d912f2b3fca415d6ebed4389fb72b7808cec054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 29/56] fix: refuse infinite message timestamps with ValueError

---
 streamtasks/message/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index 72b0276..f522706 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -1,4 +1,5 @@
 from streamtasks.net.serialization import RawData
+import math
 
 def get_timestamp_from_message(data: RawData) -> int:
   content = data.data
@@ -7,7 +8,7 @@ def get_timestamp_from_message(data: RawData) -> int:
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
   if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
-- 
2.43.0


From e05b81b2e93eeadc3fce9ed792310469085fbaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 30/56] fix: keep a decoding time of zero when converting
 packets

---
 streamtasks/media/packet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index b3caefe..7df032c 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -28,7 +28,7 @@ class MediaPacket:
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
     time_base_factor = float(packet.time_base / time_base)
-    rel_dts = int((packet.pts - (packet.dts or packet.pts)) * time_base_factor)
+    rel_dts = int((packet.pts - (packet.pts if packet.dts is None else packet.dts)) * time_base_factor)
     pts = int(packet.pts * time_base_factor)
     return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
 
-- 
2.43.0


From 7cddaf018d7644f8614bcf24f5f1903dab7a3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 31/56] fix: convert packet times between time bases exactly

---
 streamtasks/media/packet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index 7df032c..87dbd56 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -27,7 +27,7 @@ class MediaPacket:
   @staticmethod
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
-    time_base_factor = float(packet.time_base / time_base)
+    time_base_factor = packet.time_base / time_base # exact, a float would lose ticks
     rel_dts = int((packet.pts - (packet.pts if packet.dts is None else packet.dts)) * time_base_factor)
     pts = int(packet.pts * time_base_factor)
     return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
-- 
2.43.0


From 1fe6c4d0a80b4a20c48e531076b3d739c879d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 32/56] fix: clear the message buffer with any dbm
 implementation

---
 streamtasks/rawdatabuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index de5fc8f..7b030c6 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -15,7 +15,8 @@ class RawDataBuffer:
     os.remove(self._db_file)
 
   def clear(self):
-    self._db.clear()
+    self._db.close()
+    self._db = dbm.open(self._db_file, "n") # not every dbm can be cleared
     self._index_map.clear()
 
   def append(self, data: RawData):
-- 
2.43.0


From 84fea38a7158ae1f855b9fe8476e8b56d05762d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 33/56] fix: keep the message buffer as it was when a message
 can not be stored

---
 streamtasks/rawdatabuffer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index 7b030c6..8dfd707 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -20,9 +20,10 @@ class RawDataBuffer:
     self._index_map.clear()
 
   def append(self, data: RawData):
-    self._index_map.append(str(self._key_counter))
+    key = str(self._key_counter)
+    self._db[key] = bytes(data.serialize())
     self._key_counter += 1
-    self._db[self._index_map[-1]] = bytes(data.serialize())
+    self._index_map.append(key)
 
   def popleft(self): return self.pop(0)
   def pop(self, index: int = -1):
-- 
2.43.0


From 0d27d8bfcf9e16288cc3f73cb75cefc723e27e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 34/56] fix: remove the files of the message buffer

---
 streamtasks/rawdatabuffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index 8dfd707..bd0f947 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -1,4 +1,5 @@
 import dbm
+import glob
 import os
 import tempfile
 from streamtasks.net.serialization import RawData
@@ -12,7 +13,7 @@ class RawDataBuffer:
 
   def __del__(self):
     self._db.close()
-    os.remove(self._db_file)
+    for file in glob.glob(glob.escape(self._db_file) + "*"): os.remove(file) # dbm implementations add suffixes
 
   def clear(self):
     self._db.close()
-- 
2.43.0


From 2a0c696933d21b3b196fac2eeabc3a31e314c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 35/56] fix: deliver what was sent before the end to waiting
 consumers

---
 streamtasks/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index f713765..2ac1e0b 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -200,6 +200,7 @@ class AsyncProducer(Generic[T0]):
         if self._task is not None:
           self._stop()
           try: await self.wait_done()
+          except EOFError: pass # the end is told through the consumers
           finally:  self._task = None
 
   def _stop(self): self._task.cancel()
@@ -268,7 +269,7 @@ class AsyncConsumer(Generic[T1]):
         await _fut
         _fut = self._trigger.wait()
       # TODO we need to do this in here to prevent double deques
-      if self._closed: raise EOFError()
+      if len(self._queue) == 0: raise EOFError()
       return self._queue.popleft()
 
   def put(self, e: T1):
-- 
2.43.0


From 6ca3638d02f69568ad584695cc7100223cb99c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 36/56] fix: allow closing a producer before it ran

---
 streamtasks/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 2ac1e0b..04d667c 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -180,8 +180,8 @@ class AsyncProducer(Generic[T0]):
 
   async def close(self):
     self._on_ended()
-    self._stop()
     if self._task is not None:
+      self._stop()
       try: await self.wait_done()
       except EOFError: pass
 
@@ -225,7 +225,7 @@ class AsyncMPProducer(AsyncProducer[T0]):
   def __init__(self) -> None:
     super().__init__()
     self.stop_event = threading.Event()
-    self._loop: asyncio.BaseEventLoop
+    self._loop: asyncio.BaseEventLoop | None = None
     self._lock = asyncio.Lock()
 
   async def run(self):
@@ -235,7 +235,9 @@ class AsyncMPProducer(AsyncProducer[T0]):
   @abstractmethod
   def run_sync(self): pass
   def send_message(self, message: Any): self._loop.call_soon_threadsafe(super().send_message, message)
-  def close_consumers(self): self._loop.call_soon_threadsafe(super().close_consumers)
+  def close_consumers(self):
+    if self._loop is None: super().close_consumers() # never ran
+    else: self._loop.call_soon_threadsafe(super().close_consumers)
   async def wait_done(self):
     try: await super().wait_done()
     finally:
-- 
2.43.0


From 9d9cdeeb2f2c58f23cbe492da409d1b1ec4a5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 37/56] fix: give the calculator's operators their usual
 precedence and names

---
 streamtasks/system/tasks/calculator.py | 38 ++++++++++++++------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f2157a7..40caf38 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -17,32 +17,34 @@ import re
 CalculatorGrammar = Lark(r"""
 start: expr
 
-?expr: inline_if
+?expr: or
+    | or "?" expr ":" expr -> inline_if
 
-?inline_if: comparsion
-    | expr "?" expr ":" expr -> inline_if
+?or: xor
+    | or "|" xor -> or_
 
-?comparsion: binary_op
-    | expr ">" expr -> gt
-    | expr "<" expr -> lt
-    | expr ">=" expr -> ge
-    | expr "<=" expr -> le
-    | expr "==" expr -> eq
-    | expr "!=" expr -> ne
+?xor: and
+    | xor "^" and -> xor
 
-?binary_op: sum
-    | binary_op "&" expr -> and
-    | binary_op "|" expr -> or
-    | binary_op "^" expr -> xor
+?and: comparsion
+    | and "&" comparsion -> and_
+
+?comparsion: sum
+    | comparsion ">" sum -> gt
+    | comparsion "<" sum -> lt
+    | comparsion ">=" sum -> ge
+    | comparsion "<=" sum -> le
+    | comparsion "==" sum -> eq
+    | comparsion "!=" sum -> ne
 
 ?sum: product
     | sum "+" product -> add
     | sum "-" product -> sub
 
 ?product: exp
-    | product "*" atom -> mul
-    | product "/" atom -> div
-    | product "%" atom -> mod
+    | product "*" exp -> mul
+    | product "/" exp -> div
+    | product "%" exp -> mod
 
 ?exp: atom
     | exp "**" atom -> pow
@@ -51,7 +53,7 @@ start: expr
     | NAME -> variable
     | "-" atom -> neg
     | "+" atom -> pos
-    | "!" atom -> not
+    | "!" atom -> not_
     | "(" expr ")" -> group
     | NAME "(" [expr ("," expr)*]  ")" -> func
 
-- 
2.43.0


From 8ac43c419870c8ebf11788d1f12e3111bf8b6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 38/56] fix: compare the truth of both operands in the
 calculator's xor

---
 streamtasks/system/tasks/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 40caf38..da39f4e 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -126,7 +126,7 @@ class CalculatorEvalTransformer(Transformer):
   def pow(self, args): return args[0] ** args[1]
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
-  def xor(self, args): return 1.0 if args[0] > 0.5 != args[1] > 0.5 else 0.0
+  def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
   def gt(self, args): return 1.0 if args[0] > args[1] else 0.0
   def lt(self, args): return 1.0 if args[0] < args[1] else 0.0
   def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0
-- 
2.43.0


From d2fa5d7506b4f7d13e8ed29f56ead9968a1df65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 39/56] fix: keep the calculator running when an evaluation
 fails

---
 streamtasks/system/tasks/calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index da39f4e..c75ae93 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -12,6 +12,7 @@ from pydantic import BaseModel, ValidationError, model_validator
 from typing import Any
 import math
 from lark import Lark, ParseTree, Transformer
+from lark.exceptions import VisitError
 import re
 
 CalculatorGrammar = Lark(r"""
@@ -235,7 +236,7 @@ class CalculatorTask(Task):
           message = NumberMessage.model_validate(data.data)
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
-        except ValidationError: pass
+        except (ValidationError, VisitError): pass
 
   async def send_value(self, timestamp: int):
     result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)
-- 
2.43.0


From 8d3683a7e8600c46771aa938c8de116041943ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 40/56] fix: ignore control values of the switch that are no
 number

---
 streamtasks/system/tasks/switch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index db0cfc3..d80f243 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -1,4 +1,5 @@
 import asyncio
+import math
 from contextlib import AsyncExitStack
 from typing import Any
 from typing_extensions import TypedDict
@@ -57,7 +58,7 @@ class SwitchTask(Task):
           if data.paused: self.control_values.pop(idx, None)
         else:
           message = NumberMessage.model_validate(data.data)
-          await self.set_value(idx, message.value)
+          if not math.isnan(message.value): await self.set_value(idx, message.value)
       except ValidationError: pass
 
   async def set_value(self, idx: int, value: float | int):
-- 
2.43.0


From e981678e5ab3daf8f558e12ff3e68ed232fcc035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 41/56] fix: refuse to move a task out of a running deployment

---
 streamtasks/system/task_web.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6c7c817..d44f723 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -180,11 +180,9 @@ class TaskWebBackendStore:
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
     if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-    try:
-      existing_task = await self.get_task(task.id)
-      if existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-      self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
-    except: self.tasks.update(self.tasks.entries + [task])
+    existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)
+    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-- 
2.43.0


From 2185a61c0dc35c7c7f0ed04c6c25402a9d972ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 42/56] fix: wait for the running tasks when a task host stops

asyncio.wait was given the task ids, so it raised TypeError: the tasks did not
get to report, the host was not unregistered and its links stayed open.
---
 streamtasks/system/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a2e884c..c99f303 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -213,7 +213,7 @@ class TaskHost(Worker):
         logging.debug("Failed to register task host!", e, traceback.format_exc())
       raise e
     finally:
-      shutdown_tasks: list[asyncio.Task] = list(self.tasks) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      shutdown_tasks: list[asyncio.Task] = list(self.tasks.values()) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
       for task in self.tasks.values(): task.cancel()
       if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable
       await self.shutdown()
-- 
2.43.0


From 34eb19571ba806d403e0bb2453a662aeefac11a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 43/56] fix: read the id of an unregistered task host as a
 string

Task host ids are no UUIDs, so every announcement of an unregistered host raised
in the receiving client.
---
 streamtasks/system/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index c99f303..fd3de6a 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -413,9 +413,9 @@ class TaskHostRegisteredReceiver(BroadcastReceiver[TaskHostRegistration]):
   def transform_data(self, _: str, data: RawData) -> TaskInstance:
     return TaskHostRegistration.model_validate(data.data)
 
-class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithId]):
-  def transform_data(self, _: str, data: RawData) -> ModelWithId:
-    return ModelWithId.model_validate(data.data)
+class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithStrId]):
+  def transform_data(self, _: str, data: RawData) -> ModelWithStrId:
+    return ModelWithStrId.model_validate(data.data)
 
 class TaskManagerClient:
   def __init__(self, client: Client, address_name: str = NetworkAddressNames.TASK_MANAGER) -> None:
-- 
2.43.0


From c5add3f680275b346e7d67b9bc70543fa4d33078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 44/56] fix: drop a task whose start failed, and keep what it
 reported meanwhile

When the host was gone, answered with an error or with something unreadable, the
task stayed in the table as scheduled forever. A task that was reported before
the host's answer arrived was set back to running, or the start was answered
with not found when the answer was an error.
---
 streamtasks/system/task.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index fd3de6a..b687e55 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -368,23 +368,28 @@ class TaskManager(Worker):
       try:
         body = TMTaskStartRequest.model_validate(req.body)
         task_instance = self.tasks[body.id]
-        task_host = self.task_hosts[task_instance.host_id]
-
-        task_start_request = TaskStartRequest(
-          id=task_instance.id,
-          topic_space_id=task_instance.topic_space_id,
-          report_address=self.client.address,
-          config=body.config
-        )
-
-        task_start_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump())
-        task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
+        try:
+          task_host = self.task_hosts[task_instance.host_id]
+
+          task_start_request = TaskStartRequest(
+            id=task_instance.id,
+            topic_space_id=task_instance.topic_space_id,
+            report_address=self.client.address,
+            config=body.config
+          )
+
+          task_start_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump())
+          task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
+        except BaseException:
+          self.tasks.pop(task_instance.id, None)
+          raise
 
         task_instance.metadata=task_start_result.metadata
-        task_instance.error=task_start_result.error
-        task_instance.status=TaskStatus.running if task_start_result.error is None else TaskStatus.failed
-
-        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)
+        if task_start_result.error is not None:
+          task_instance.error=task_start_result.error
+          task_instance.status=TaskStatus.failed
+          self.tasks.pop(task_instance.id, None)
+        elif task_instance.status is TaskStatus.scheduled: task_instance.status=TaskStatus.running # NOTE: a report may come first
 
         await req.respond(task_instance.model_dump())
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From b1c869215d3447f552124b6f058857db88b6a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 45/56] fix: forget an ended task on its host even if the
 report cannot be sent

---
 streamtasks/system/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index b687e55..abb4dde 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -235,8 +235,8 @@ class TaskHost(Worker):
       status = TaskStatus.failed
       error_text = str(e)
 
-    await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())
-    self.tasks.pop(id, None)
+    try: await send_signal(self.client, report_address, TaskConstants.SD_TM_TASK_REPORT, TaskReport(id=id, status=status, error=error_text).model_dump())
+    finally: self.tasks.pop(id, None)
 
   async def run_api(self):
     fetch_server = FetchServer(self.client)
-- 
2.43.0


From a4706a13d02fe133d5d32c14a2c44efc2e2eb6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 46/56] fix: check a task's metadata before it is started

A task with unusable metadata was answered as failed but kept running.
---
 streamtasks/system/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index abb4dde..1c2d460 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -247,8 +247,9 @@ class TaskHost(Worker):
       try:
         task = await self.create_task(body.config, body.topic_space_id)
         metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable
+        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)
         self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))
-        await req.respond(TaskStartResponse(id=body.id, metadata=metadata, error=None))
+        await req.respond(response)
       except BaseException as e:
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
 
-- 
2.43.0


From 8d9e1242eee3e814f27cde6712e8e1618cbdab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 47/56] fix: match a path only if it ends with the last part of
 the pattern

What followed the last literal part was not looked at, so /task/{id}/stop also
handled /task/1/stopped and /task/1/stop/anything.
---
 streamtasks/asgiserver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f562507..9c2782a 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -424,12 +424,13 @@ class PathPattern:
       if path[current_index:current_index + part1_len] != part1: return None
 
       current_index += part1_len
-      if part2 == "" and idx == len(self.parts) - 2:
-        param_val = path[current_index:]
+      if idx == len(self.parts) - 2: # the last part ends the path
+        part2_start = len(path) - len(part2)
+        if part2_start < current_index or not path.endswith(part2): return None
       else:
         part2_start = path.find(part2, current_index)
         if part2_start == -1: return None
-        param_val = path[current_index:part2_start]
+      param_val = path[current_index:part2_start]
       current_index += len(param_val)
       if "/" in param_val and not param_allow_slash: return None
       if param_name is not None: params[param_name] = param_val
-- 
2.43.0


From 7a45840b116ab2210780985ed9be56bb1f506562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 48/56] fix: a parameter used twice in a pattern has one value

/{a}/{a} handled /1/2 with a=2.
---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 9c2782a..0942f97 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -433,7 +433,7 @@ class PathPattern:
       param_val = path[current_index:part2_start]
       current_index += len(param_val)
       if "/" in param_val and not param_allow_slash: return None
-      if param_name is not None: params[param_name] = param_val
+      if param_name is not None and params.setdefault(param_name, param_val) != param_val: return None
     return params
 
 class HTTPRoute:
-- 
2.43.0


From b413382a15a0f3da3a45fab03eab65512a61dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 49/56] fix: do not change the state of the scope a request
 came with

The next handler and the parameters were written into the state shared with the
outer handlers and with other requests given the same state, so a handler that
called next again, or a concurrent request, went on in the wrong place.
---
 streamtasks/asgiserver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 0942f97..060e84a 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -62,8 +62,7 @@ def asgi_type_handler(supported_types: set[str]):
 
 def asgi_scope_set_state(scope: ASGIScope, state: dict[str, Any]):
   new_scope: ASGIScope = { **scope }
-  if not "state" in new_scope: new_scope["state"] = {}
-  new_scope["state"].update(state)
+  new_scope["state"] = { **scope.get("state", {}), **state }
   return new_scope
 
 def asgi_scope_get_next_fn(scope: ASGIScope) -> ASGIHandler:
-- 
2.43.0


From 05f9d1c7a04d9d0362edcfa9de91e51567a7843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 50/56] fix: a request no route of a router accepts goes on to
 the next handler

A router added to a server or another router ended the chain.
---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 060e84a..e22ba93 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -348,7 +348,7 @@ class ASGIHandlerStack:
   def handler(self, handler: ASGIHandler):
     self.add_handler(handler)
     return handler
-  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend): await ASGINext(self._handlers)(scope, receive, send)
+  async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend): await ASGINext([*self._handlers, asgi_scope_get_next_fn(scope)])(scope, receive, send)
 
 class ASGIServer(ASGIHandlerStack):
   async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:
-- 
2.43.0


From bbb08a9da61eefaefbe9d3ac6f68dc843fff12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 51/56] fix: do not serve an index file that leads out of the
 directory

---
 streamtasks/asgiserver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index e22ba93..a1a7c81 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -540,8 +540,8 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
   async def handler(ctx: HTTPContext):
     request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
     if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
-    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
-    if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
+    if request_path.is_dir(): request_path = next((p.resolve() for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
+    if request_path is None or directory_path not in request_path.parents or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
     await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))
 
   return handler
-- 
2.43.0


From d4179edc46ec6958642f3875231842eda5f9c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 52/56] fix: chunk timestamps do not drift from their first
 sample

---
 streamtasks/media/util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 75732a7..91e15cc 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -139,13 +139,13 @@ class AudioChunker:
   def buffer_size(self): return 0 if self.buffer is None else self.buffer.size
 
   def next(self, buf: np.ndarray, timestamp: int):
-    current_timestamp = timestamp - self.buffer_size * 1000 // self.sample_rate
+    chunk_offset = self.buffer_size # how far the next chunk starts before buf
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
     while self.buffer.size > self.chunk_size:
-      yield (self.buffer[:self.chunk_size], current_timestamp)
+      yield (self.buffer[:self.chunk_size], timestamp - chunk_offset * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      chunk_offset -= self.chunk_size
 
 class PaddedAudioChunker:
   def __init__(self, chunk_size: int, sample_rate: int, padding: int) -> None:
@@ -160,13 +160,13 @@ class PaddedAudioChunker:
   def buffer_size(self): return 0 if self.buffer is None else self.buffer.size
 
   def next(self, buf: np.ndarray, timestamp: int):
-    current_timestamp = timestamp - (self.buffer_size - self.padding) * 1000 // self.sample_rate
+    chunk_offset = self.buffer_size - self.padding # how far the next chunk starts before buf
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
     while self.buffer.size > self.process_buffer_size:
-      yield (self.buffer[:self.process_buffer_size], current_timestamp)
+      yield (self.buffer[:self.process_buffer_size], timestamp - chunk_offset * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      chunk_offset -= self.chunk_size
 
   def strip_padding(self, buf: np.ndarray): return buf[self.padding:-self.padding]
 
-- 
2.43.0


From d20e77634485e2d15a8352c7949c4608737e3a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 53/56] fix: stripping no padding keeps the samples

---
 streamtasks/media/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 91e15cc..1450831 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -168,7 +168,7 @@ class PaddedAudioChunker:
       self.buffer = self.buffer[self.chunk_size:]
       chunk_offset -= self.chunk_size
 
-  def strip_padding(self, buf: np.ndarray): return buf[self.padding:-self.padding]
+  def strip_padding(self, buf: np.ndarray): return buf[self.padding:buf.shape[0] - self.padding]
 
 class AudioSmoother:
   def __init__(self, overlap: int) -> None:
-- 
2.43.0


From 8306f7ee9e4eb5248305524bc46ec0a81f088f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 54/56] fix: a correction made once is not applied to the next
 samples again

---
 streamtasks/media/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 1450831..eeae13f 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -233,7 +233,7 @@ class AudioSequencer:
       self._sample_buffer = samples
       self._buffer_start_time = time
     else:
-      self._desync_time += time - self.end_time
+      self._desync_time = time - self.end_time
       next_sample_count = self._sample_buffer.shape[0] + samples.shape[0]
       desync_sample_count: int = round(abs(self._desync_time) * self._sample_rate)
       if DEBUG_MIXER(): ddebug_value("track desync time", id(self), float(self._desync_time))
-- 
2.43.0


From 83d594f2eda8bb97673c64dca03f8c951de1ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 55/56] fix: a sequencer that holds nothing gives silence

---
 streamtasks/media/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index eeae13f..d9a1c60 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -192,6 +192,7 @@ class AudioSequencer:
     self._buffer_start_time: Fraction | None = None
     self._sample_buffer: np.ndarray | None = None
     self._keep_buffer_size = keep_buffer_size
+    self._empty_buffer = np.zeros((0, 1)) # has the channels and type of the samples inserted last
     assert max_stretch_ratio >= 1
     self._max_stretch_ratio = max_stretch_ratio
 
@@ -229,6 +230,7 @@ class AudioSequencer:
     assert self._sample_buffer is None or self._sample_buffer.dtype == samples.dtype
     assert self._sample_buffer is None or self._sample_buffer.shape[1] == samples.shape[1]
 
+    self._empty_buffer = samples[:0]
     if self._buffer_start_time is None or self._sample_buffer is None:
       self._sample_buffer = samples
       self._buffer_start_time = time
@@ -265,5 +267,5 @@ class AudioSequencer:
     for i in range(self._sample_buffer.shape[1]):
       out_array[:, i] = np.interp(new_indices, original_indices, self._sample_buffer[:, i])
     self._sample_buffer = out_array
-  def _make_zeros(self, sample_count: int) -> np.ndarray: return np.zeros((sample_count, self._sample_buffer.shape[1]), dtype=self._sample_buffer.dtype)
+  def _make_zeros(self, sample_count: int) -> np.ndarray: return np.zeros((sample_count, self._empty_buffer.shape[1]), dtype=self._empty_buffer.dtype)
   def _get_start_sample_offset(self, time: Fraction) -> int: return int((time - self._buffer_start_time) * self._sample_rate)
-- 
2.43.0


From 3aeba6207a427d771a13f91a415da876431bd6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 56/56] fix: merging images stays inside images that end within
 a pixel

---
 streamtasks/media/video_perf_all.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/media/video_perf_all.cpp b/streamtasks/media/video_perf_all.cpp
index ce8c713..1cd70d9 100644
--- a/streamtasks/media/video_perf_all.cpp
+++ b/streamtasks/media/video_perf_all.cpp
@@ -18,6 +18,7 @@ py::bytes merge_images(std::vector<py::bytes> images, bool alpha_front) {
         image_size = std::min(image_size, v.size());
         image_data.push_back((uint8_t*)v.data());
     }
+    image_size -= image_size % ALPHA_PIXEL_SIZE;
     
     std::string out_str(image_size, '\0');
     uint8_t* out_data = (uint8_t*)out_str.data();
-- 
2.43.0


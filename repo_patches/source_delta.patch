From 4eec61c99cbf4051e377755a047c8475c07aa56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 01/17] fix: end of eventer connection resolves only its own
 acknowledgements

---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..60de755 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -202,8 +202,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (i, _), future in self._conn_conv_futures.items():
+                if i is conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From 6753aa7b843e9ae89532e4670aa4ccd35f7a5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 02/17] fix: adminer client ignores responses nobody waits for
 any more

---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From 0bebb3e1865bbe7329f13fa19ffa5d9a188d254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:32 +0000
Subject: [PATCH 03/17] fix: timeseries query does not add keys to changes that
 a flush may be writing

---
 src_py/hat/event/backends/lmdb/timeseriesdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..70c1754 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -162,7 +162,7 @@ class TimeseriesDb:
 
         if params.order == common.Order.DESCENDING:
             events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
+                changes.get(partition_id, ()), params, filter))
 
             if not filter.done:
                 events.extend(await self._env.execute(
@@ -176,7 +176,7 @@ class TimeseriesDb:
 
             if not filter.done:
                 events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
+                    changes.get(partition_id, ()), params, filter))
 
         else:
             raise ValueError('unsupported order')
-- 
2.43.0


From 13fdce32e57f308e6d1842697e471b8da80b4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:03 +0000
Subject: [PATCH 04/17] fix: lmdb server query returned newer event in place of
 one a stale latest reference belongs to

---
 src_py/hat/event/backends/lmdb/refdb.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/refdb.py b/src_py/hat/event/backends/lmdb/refdb.py
index 3441c45..50464d1 100644
--- a/src_py/hat/event/backends/lmdb/refdb.py
+++ b/src_py/hat/event/backends/lmdb/refdb.py
@@ -194,14 +194,14 @@ def _ext_query_events(env, server_id, max_results, last_event_id):
             while (available and
                     len(events) < max_results and
                     bytes(cursor.key()) < encoded_stop_key):
-                value = db_def.decode_value(cursor.value())
-                ref = util.first(value)
-                if not ref:
-                    continue
+                event_id = db_def.decode_key(cursor.key())
+                refs = db_def.decode_value(cursor.value())
 
-                event = _ext_get_event(env, txn, ref)
+                # latest reference can be associated with newer event
+                event = util.first(
+                    (_ext_get_event(env, txn, ref) for ref in refs),
+                    lambda i: i is not None and i.id == event_id)
                 if event:
-                    # TODO decode key and check event_id == event.id
                     events.append(event)
 
                 available = cursor.next()
-- 
2.43.0


From 58ad3d959f3cfb5e2588b3e12c25734caf72283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:23 +0000
Subject: [PATCH 05/17] fix: lmdb timeseries query of pending events relied on
 registration in order of timestamps

---
 src_py/hat/event/backends/lmdb/timeseriesdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 70c1754..4fae284 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -394,6 +394,9 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
 
 
 def _query_partition_changes(changes, params, filter):
+    # events are not registered in order of partition's timestamps
+    changes = sorted(changes, key=lambda i: (i[0], i[1].id))
+
     if params.order == common.Order.DESCENDING:
         events = (event for _, event in reversed(changes))
 
-- 
2.43.0


From f3777839f9c9a8aab3f43f1957a537ecfa5c247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:48 +0000
Subject: [PATCH 06/17] fix: intersection with '*' lost event type without
 further subtypes

---
 src_py/hat/event/common/subscription/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index ef26946..431ee54 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -83,9 +83,11 @@ def intersection(first: Node, second: Node) -> Node:
     is_leaf = first.is_leaf and second.is_leaf
 
     if '*' in first.children:
+        is_leaf = second.is_leaf
         children = second.children
 
     elif '*' in second.children:
+        is_leaf = first.is_leaf
         children = first.children
 
     else:
-- 
2.43.0


From e1dadbffa4490763d0a2c3fa9e4ce1c9ebb0a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:06 +0000
Subject: [PATCH 07/17] fix: intersection kept empty branches that make
 subscriptions seem not disjoint

---
 src_py/hat/event/common/subscription/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index 431ee54..b18a996 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -114,6 +114,8 @@ def intersection(first: Node, second: Node) -> Node:
             for other_name, other_child in candidates.items():
                 result_name = name if name != '?' else other_name
                 result_children = intersection(child, other_child)
+                if not (result_children.is_leaf or result_children.children):
+                    continue
                 prev_result_children = children.get(result_name)
                 children[result_name] = (
                     union(prev_result_children, result_children)
-- 
2.43.0


From dc4edc3c74415bd482be004b60c810134a5f6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:58 +0000
Subject: [PATCH 08/17] fix: memory backend looked up event ids by attributes
 that events don't have

---
 src_py/hat/event/backends/memory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..277430b 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
@@ -174,5 +174,5 @@ def _filter_source_t_to(events, source_t_to):
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From bca9376616b7e8d52bd901ae5a6e128ca871d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:58 +0000
Subject: [PATCH 09/17] fix: timeseries queries of memory backend always failed

---
 src_py/hat/event/backends/memory.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 277430b..3891761 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -89,9 +89,10 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: (event.timestamp, event)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            events = _filter_source_timestamp(events)
+            sort_key = lambda event: (event.source_timestamp, event)  # NOQA
         else:
             raise ValueError('invalid order by')
 
@@ -160,14 +161,20 @@ def _filter_t_to(events, t_to):
             yield event
 
 
-def _filter_source_t_from(events, source_t_from):
+def _filter_source_timestamp(events):
     for event in events:
+        if event.source_timestamp is not None:
+            yield event
+
+
+def _filter_source_t_from(events, source_t_from):
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp >= source_t_from:
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
-    for event in events:
+    for event in _filter_source_timestamp(events):
         if event.source_timestamp <= source_t_to:
             yield event
 
-- 
2.43.0


From 54a0d09e78a14d82417f99f076323b40e5113537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:58 +0000
Subject: [PATCH 10/17] fix: server query of memory backend repeated the last
 event

---
 src_py/hat/event/backends/memory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 3891761..d7325b5 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -124,10 +124,8 @@ class MemoryBackend(common.Backend):
         events = sorted(_filter_server_id(self._events, params.server_id))
 
         if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
-- 
2.43.0


From 9efa84b4619ee4dffcb6bc84feb93d40ed24527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:15 +0000
Subject: [PATCH 11/17] fix: adding a subscription to a collection stopped at a
 type that is already there

---
 src_py/hat/event/common/collection/pytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/collection/pytree.py b/src_py/hat/event/common/collection/pytree.py
index cb37721..c57839d 100644
--- a/src_py/hat/event/common/collection/pytree.py
+++ b/src_py/hat/event/common/collection/pytree.py
@@ -26,7 +26,7 @@ class PyTreeEventTypeCollection(common.EventTypeCollection):
                 node = node.children[head]
 
             if value in node.values:
-                return
+                continue
 
             node.values.add(value)
             self._value_nodes[value].append(node)
-- 
2.43.0


From 5d2fe9d83f7d9ecec1dcc9573e0a34fe39ce15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:24 +0000
Subject: [PATCH 12/17] fix: server query of manager used parameters of
 timeseries query

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..95e7fcf 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -180,7 +180,7 @@ def main():
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
-- 
2.43.0


From 1924fb4440ed2a95f476cdbf7223679169001326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:24 +0000
Subject: [PATCH 13/17] fix: manager could not parse event ids

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 95e7fcf..07d786f 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -305,7 +305,7 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
+    return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
 def _parse_order(order):
-- 
2.43.0


From 87ac786bc80fe986aaebe7d89b94bb21bbc4244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:24 +0000
Subject: [PATCH 14/17] fix: manager rejected every order and order by argument

---
 src_py/hat/event/manager/main.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 07d786f..5ab9e05 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,8 +173,8 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=common.Order[args.order],
+                order_by=common.OrderBy[args.order_by],
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
@@ -308,14 +307,6 @@ def _parse_event_id(event_id):
     return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
-def _parse_order(order):
-    return common.Order[order]
-
-
-def _parse_order_by(order_by):
-    return common.OrderBy[order_by]
-
-
 def _read_payload(payload_type, binary_type, path):
     if payload_type == 'none':
         return
-- 
2.43.0


From 7fdb78b66da338cfde094eeef84dc79e8d211608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:24 +0000
Subject: [PATCH 15/17] fix: reference query of lmdb manager always failed

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..b8300d2 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,7 +57,7 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
-- 
2.43.0


From d0b0594c3802d1e65f5c1ed3eac82fce84079fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:24 +0000
Subject: [PATCH 16/17] fix: latest query of lmdb manager told references and
 could not tell events

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index b8300d2..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -63,7 +63,7 @@ def query(args):
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From ed808efb3473801a2b431f6ab9ff76bc5d123216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:30 +0000
Subject: [PATCH 17/17] fix: manager told every registration as failed

---
 src_py/hat/event/manager/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 5ab9e05..7ccf3d1 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -230,7 +230,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
-- 
2.43.0


From e6e735dedf5a047846e6f906f76ac07a933bc044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 01/34] fix: recognise the repetition of tunnelling request 255

The sequence counter is one octet: the frame before 0 is 255. The repetition
of frame 255 was answered with E_SEQUENCE_NUMBER instead of an ack, so the
gateway gave up on the connection.
---
 knx_stack/decode/knxnet_ip/tunneling/req.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/req.py b/knx_stack/decode/knxnet_ip/tunneling/req.py
index 14c48ee..93c8ea9 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/req.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/req.py
@@ -34,7 +34,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
         if result_tmp:
             result.extend(result_tmp)
     else:
-        if state.sequence_counter_remote == (sequence_counter + 1):
+        if state.sequence_counter_remote == (sequence_counter + 1) % 256:
             result.append(
                 Msg(sequence_counter=sequence_counter, status=ErrorCodes.E_NO_ERROR)
             )
-- 
2.43.0


From c7b6993611ba4bbcdce582b86cce1f9b5118e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 02/34] fix: acknowledge a repeated tunnelling request with its
 own number

The ack of the repetition of an already acknowledged request carried the next
expected number: the gateway discards such an ack and, after the repetition,
closes the connection.
---
 knx_stack/encode/knxnet_ip/tunneling/ack.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knx_stack/encode/knxnet_ip/tunneling/ack.py b/knx_stack/encode/knxnet_ip/tunneling/ack.py
index c509af6..8da215b 100644
--- a/knx_stack/encode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/encode/knxnet_ip/tunneling/ack.py
@@ -21,12 +21,16 @@ def encode(
     new_msg += NetMsg(
         Short(value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10).octects
     )
+    sequence_counter = state.sequence_counter_remote
+    if (msg.sequence_counter + 1) % 256 == state.sequence_counter_remote:
+        # the repetition of the last acknowledged request
+        sequence_counter = msg.sequence_counter
     new_msg += connection_header.create(
-        state, status=msg.status, sequence_counter=state.sequence_counter_remote
+        state, status=msg.status, sequence_counter=sequence_counter
     )
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.encode.ack with sequence counter={}".format(
-            state.sequence_counter_remote
+            sequence_counter
         )
     )
     if msg.sequence_counter == state.sequence_counter_remote:
-- 
2.43.0


From 6747350953551d488b34de411a65b6a58af6122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 03/34] fix: decode_msg of a tunnelling ack returns the list of
 messages

It returned the (messages, state) tuple of the inner decoder, unlike any other
service.
---
 knx_stack/decode/knxnet_ip/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/header.py b/knx_stack/decode/knxnet_ip/header.py
index 1bba136..d18fe80 100644
--- a/knx_stack/decode/knxnet_ip/header.py
+++ b/knx_stack/decode/knxnet_ip/header.py
@@ -37,7 +37,7 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTupl
         elif service.value == Services.TUNNELING_REQUEST:
             result = tunneling.req.decode(state, body)
         elif service.value == Services.TUNNELING_ACK:
-            result = tunneling.ack.decode(state, body)
+            (result, _) = tunneling.ack.decode(state, body)
         else:
             logging.getLogger(__name__).error(
                 "Unknown knxnet_ip service value %d" % service.value
-- 
2.43.0


From b5fcf6bca5603be3c39796ae0e5099351e38fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 04/34] fix: a group frame which is not a T_Data_Group decodes
 to no messages

decode_msg returned None for it instead of an empty list.
---
 knx_stack/decode/layer/network/n_data_group/con.py | 4 +++-
 knx_stack/decode/layer/network/n_data_group/ind.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/network/n_data_group/con.py b/knx_stack/decode/layer/network/n_data_group/con.py
index db7cd2c..d5a0b69 100644
--- a/knx_stack/decode/layer/network/n_data_group/con.py
+++ b/knx_stack/decode/layer/network/n_data_group/con.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import con
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return con.decode(state, msg)
+        result = con.decode(state, msg)
+    return result
diff --git a/knx_stack/decode/layer/network/n_data_group/ind.py b/knx_stack/decode/layer/network/n_data_group/ind.py
index 95467a0..089dba8 100644
--- a/knx_stack/decode/layer/network/n_data_group/ind.py
+++ b/knx_stack/decode/layer/network/n_data_group/ind.py
@@ -4,5 +4,7 @@ from knx_stack.decode.layer.transport.t_data_group import ind
 
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
+    result = []
     if state.ldata.nsdu == NSDU.T_Data_Group_PDU:
-        return ind.decode(state, msg)
+        result = ind.decode(state, msg)
+    return result
-- 
2.43.0


From ae756b824e9f84be707f752e193de514dc4b6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 05/34] fix: a tunnelling ack with an unknown status does not
 advance the counter

The local sequence counter was incremented before the status was validated.
---
 knx_stack/decode/knxnet_ip/tunneling/ack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/ack.py b/knx_stack/decode/knxnet_ip/tunneling/ack.py
index 30cf370..8656f60 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/ack.py
@@ -17,11 +17,12 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     """
     (size, body) = msg.short()
     (communication_channel_id, sequence_counter, status, body) = body.header()
+    status = ErrorCodes(status)
     if state.sequence_counter_local == sequence_counter:
         state.sequence_counter_local += 1
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.decode.req sequence counter={}".format(sequence_counter)
     )
     return [
-        Msg(sequence_counter=state.sequence_counter_local, status=ErrorCodes(status))
+        Msg(sequence_counter=state.sequence_counter_local, status=status)
     ], state
-- 
2.43.0


From 2a763d5868385ee0c5920838595120ea52a05f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 06/34] fix: a negative tunnelling ack does not advance the
 local counter

The gateway did not take the request: with the counter advanced every further
request is out of sequence and the tunnel never recovers.
---
 knx_stack/decode/knxnet_ip/tunneling/ack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/ack.py b/knx_stack/decode/knxnet_ip/tunneling/ack.py
index 8656f60..a09bc15 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/ack.py
@@ -18,7 +18,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (size, body) = msg.short()
     (communication_channel_id, sequence_counter, status, body) = body.header()
     status = ErrorCodes(status)
-    if state.sequence_counter_local == sequence_counter:
+    if (
+        status == ErrorCodes.E_NO_ERROR
+        and state.sequence_counter_local == sequence_counter
+    ):
         state.sequence_counter_local += 1
     logging.getLogger(__name__).info(
         "knxnet_ip.tunneling.decode.req sequence counter={}".format(sequence_counter)
-- 
2.43.0


From 57972f0ad733e433fd42139b062d47aa10096f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 07/34] fix: ignore tunnelling requests and acks of another
 connection

Frames carrying a communication channel other than the established one (late
frames of a previous connection) were delivered, acknowledged on the current
channel and moved the counters of the current connection.
---
 knx_stack/decode/knxnet_ip/tunneling/ack.py | 5 +++++
 knx_stack/decode/knxnet_ip/tunneling/req.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/knx_stack/decode/knxnet_ip/tunneling/ack.py b/knx_stack/decode/knxnet_ip/tunneling/ack.py
index a09bc15..412c27f 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/ack.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/ack.py
@@ -18,6 +18,11 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (size, body) = msg.short()
     (communication_channel_id, sequence_counter, status, body) = body.header()
     status = ErrorCodes(status)
+    if getattr(state, "communication_channel_id", 0) not in (
+        0,
+        communication_channel_id,
+    ):
+        return [], state  # it belongs to another connection
     if (
         status == ErrorCodes.E_NO_ERROR
         and state.sequence_counter_local == sequence_counter
diff --git a/knx_stack/decode/knxnet_ip/tunneling/req.py b/knx_stack/decode/knxnet_ip/tunneling/req.py
index 93c8ea9..285ec6c 100644
--- a/knx_stack/decode/knxnet_ip/tunneling/req.py
+++ b/knx_stack/decode/knxnet_ip/tunneling/req.py
@@ -23,6 +23,11 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     result = []
     (size, body) = msg.short()
     (communication_channel_id, sequence_counter, _, body) = body.header()
+    if getattr(state, "communication_channel_id", 0) not in (
+        0,
+        communication_channel_id,
+    ):
+        return result  # it belongs to another connection
     logging.getLogger(__name__).debug(
         "knxnet_ip.tunneling.decode.req sequence counter={}".format(sequence_counter)
     )
-- 
2.43.0


From 805736072a4971fabe527a0857d8cbb993dfdabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 08/34] fix: decode a connect response refusing the connection

A refusal consists of just channel and status, there is no HPAI to read:
decoding it raised TypeError.
---
 knx_stack/decode/knxnet_ip/core/connect/res.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/core/connect/res.py b/knx_stack/decode/knxnet_ip/core/connect/res.py
index 4b423ed..c9ed3ff 100644
--- a/knx_stack/decode/knxnet_ip/core/connect/res.py
+++ b/knx_stack/decode/knxnet_ip/core/connect/res.py
@@ -17,7 +17,10 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (size, body) = msg.short()
     (communication_channel_id, body) = body.octect()
     (status, body) = body.octect()
-    (ip, port, body) = body.HPAI()
+    if status.value == Status.E_NO_ERROR or body:
+        (ip, port, body) = body.HPAI()
+    else:  # a refusal may stop after the status
+        (ip, port) = (None, None)
     if status.value == Status.E_NO_ERROR:
         (tunnel_connection, individual_address, body) = body.CRD()
         state.communication_channel_id = communication_channel_id.value
-- 
2.43.0


From e3d1263590c41c0dca6e0b06d03907ebdae9ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 09/34] fix: a disconnect response of another connection keeps
 the channel

Any disconnect response cleared the current communication channel, so a late
one for a previous connection silenced the new connection.
---
 knx_stack/decode/knxnet_ip/core/disconnect/res.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knx_stack/decode/knxnet_ip/core/disconnect/res.py b/knx_stack/decode/knxnet_ip/core/disconnect/res.py
index 1ba7838..c20cc86 100644
--- a/knx_stack/decode/knxnet_ip/core/disconnect/res.py
+++ b/knx_stack/decode/knxnet_ip/core/disconnect/res.py
@@ -18,7 +18,8 @@ def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[Msg]:
     (communication_channel_id, body) = body.octect()
     (status, body) = body.octect()
     if status.value == ErrorCodes.E_NO_ERROR:
-        state.communication_channel_id = 0
+        if state.communication_channel_id == communication_channel_id.value:
+            state.communication_channel_id = 0
         result.append(
             Msg(
                 communication_channel_id=communication_channel_id.value,
-- 
2.43.0


From 1572930d7559e662d22ebb88fa9a643ff34965e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 10/34] fix: a refused connect request does not connect the
 tunnelling client

A connect response with an error status was taken for a connection: the writer
started to tunnel on channel 0.
---
 knx_stack/client/knxnet_ip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index 439434b..f04d69c 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -115,7 +115,10 @@ class Tunneling(asyncio.DatagramProtocol):
             self._state, knx_stack.knxnet_ip.Msg.make_from_str(data.hex())
         )
         for res in responses:
-            if isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg):
+            if (
+                isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg)
+                and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
+            ):
                 self._state.sequence_counter_remote = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
-- 
2.43.0


From edbc965899a3ba91e0c500347ebf6a7509182f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 11/34] fix: a new tunnelling connection starts the local
 counter from 0

The gateway expects the first request of a connection to be number 0; with a
state already used for a connection every request was out of sequence.
---
 knx_stack/client/knxnet_ip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index f04d69c..d7506ed 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -120,6 +120,7 @@ class Tunneling(asyncio.DatagramProtocol):
                 and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
             ):
                 self._state.sequence_counter_remote = 0
+                self._state.sequence_counter_local = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
                     addr_control_endpoint=self._local_addr,
                     port_control_endpoint=self._local_port,
-- 
2.43.0


From 480ac829f662bbb297a1e00f1bad4e5822adcf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 12/34] fix: a repeated connect response does not restart the
 counters

A connect response duplicated by the network, received when the connection was
already in use, zeroed the counter of the expected requests: the following
requests were neither delivered nor acknowledged.
---
 knx_stack/client/knxnet_ip.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index d7506ed..60725f2 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -82,11 +82,13 @@ class Tunneling(asyncio.DatagramProtocol):
         self._state = state
         self._msgs = msgs
         self.connected = False
+        self._channel = None
 
         self.logger = logging.getLogger(__name__)
 
     def connection_made(self, transport):
         self._transport = transport
+        self.connected = False
         self.logger.info("Connection made: {}".format(str(self._transport)))
 
         connect_msg = knx_stack.knxnet_ip.core.connect.req.Msg(
@@ -118,7 +120,12 @@ class Tunneling(asyncio.DatagramProtocol):
             if (
                 isinstance(res, knx_stack.knxnet_ip.core.connect.res.Msg)
                 and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
+                and not (
+                    self.connected
+                    and self._channel == self._state.communication_channel_id
+                )
             ):
+                self._channel = self._state.communication_channel_id
                 self._state.sequence_counter_remote = 0
                 self._state.sequence_counter_local = 0
                 connectionstate_msg = knx_stack.knxnet_ip.core.connectionstate.req.Msg(
-- 
2.43.0


From e5892355294a362ada6c58192a9c77efd8aeb46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 13/34] fix: adding a group address twice does not use two
 entries

The duplicate used up the capacity of the table and survived its removal.
---
 knx_stack/definition/layer/network/address_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index c6454e4..34d196b 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -132,7 +132,7 @@ class AddressTable(object):
         :param address: a new *group address* to be inserted
         :return: a new AddressTable instance
         """
-        if address not in self._group_addresses or address != self._individual_address:
+        if address not in self._group_addresses:
             if len(self._group_addresses) >= self.max_size:
                 raise AddressTableException(
                     "Max entries %d, already written inside address table"
-- 
2.43.0


From f0b8db3232951f9997fd5d8eb933909926a58c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 14/34] fix: the asaps of a tsap follow the address table

A TSAP is an index in the address table. The tsap -> asaps map was computed
only by associate and disassociate: an address added or removed through the
address table (shared by other layers) shifted the TSAPs under it and
indications went to the asaps of another address; an address with no asap
raised KeyError while decoding.
---
 .../layer/transport/association_table.py      | 26 +++++++------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index f032882..1d91cb5 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -121,7 +121,6 @@ class AssociationTable(object):
     ):
         self._address_table = address_table
         self._asap_addresses = dict()
-        self._tsap_asaps = dict()
         self.associate(
             ASAP(0, "individual address"), [self._address_table.individual_address]
         )
@@ -145,13 +144,19 @@ class AssociationTable(object):
         return tsaps
 
     def get_asaps(self, tsap: int) -> Iterable["knx_stack.ASAP"]:
-        return self._tsap_asaps[tsap]
+        if tsap is None:
+            return []
+        address = self._address_table.get_address(tsap)
+        return [
+            asap
+            for asap, addresses in self._asap_addresses.items()
+            if address in addresses
+        ]
 
     def get_asaps_from_address(
         self, address: "knx_stack.GroupAddress"
     ) -> Iterable["knx_stack.ASAP"]:
-        tsap = self._address_table.get_tsap(address)
-        return self._tsap_asaps[tsap]
+        return self.get_asaps(self._address_table.get_tsap(address))
 
     @property
     def asaps(self):
@@ -170,15 +175,6 @@ class AssociationTable(object):
             addresses.append(self._address_table.get_address(tsap))
         return addresses
 
-    def _rebuild_tsap_asaps(self):
-        self._tsap_asaps = dict()
-        for asap_, addresses in self._asap_addresses.items():
-            for address_ in addresses:
-                tsap = self._address_table.get_tsap(address_)
-                if tsap not in self._tsap_asaps:
-                    self._tsap_asaps[tsap] = list()
-                self._tsap_asaps[tsap].append(asap_)
-
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -194,8 +190,6 @@ class AssociationTable(object):
         for address in addresses:
             self._asap_addresses[asap].append(address)
 
-        self._rebuild_tsap_asaps()
-
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
@@ -204,8 +198,6 @@ class AssociationTable(object):
                 self._address_table.remove(address)
             self._asap_addresses[asap].remove(address)
 
-        self._rebuild_tsap_asaps()
-
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
         for asap, addresses in self._asap_addresses.items():
-- 
2.43.0


From 31e84b8babc516dbbb66d8310552b09594e3f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 15/34] fix: disassociate keeps an address still associated to
 another asap

The address was removed from the address table even if other asaps use it:
they got no more indications and could not send. A disassociate which fails
now leaves the tables as they were.
---
 .../layer/transport/association_table.py          | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 1d91cb5..1d9aa97 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -193,10 +193,21 @@ class AssociationTable(object):
     def disassociate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
+        addresses = list(addresses)
+        remaining = list(self._asap_addresses[asap])
         for address in addresses:
-            if address != self.individual_address:
+            remaining.remove(address)
+        self._asap_addresses[asap] = remaining
+        for address in self._address_table.addresses[:]:
+            if address in addresses and not self._is_associated(address):
                 self._address_table.remove(address)
-            self._asap_addresses[asap].remove(address)
+
+    def _is_associated(self, address: "knx_stack.GroupAddress") -> bool:
+        return any(
+            address == address_ and address_ is not self.individual_address
+            for addresses in self._asap_addresses.values()
+            for address_ in addresses
+        )
 
     def __repr__(self, *args, **kwargs):
         s = "AssociationTable: asap -> addresses\n"
-- 
2.43.0


From 403ef7fa8abce5e4f0fa5b33d82e86fca48c1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 16/34] fix: associate which does not fit the address table
 changes nothing

Some of the addresses stayed in the address table without an asap, using up
its capacity.
---
 .../definition/layer/transport/association_table.py  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index 1d9aa97..d9fe524 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -1,6 +1,8 @@
 from typing import Iterable
 from collections import namedtuple
 
+from knx_stack.definition.layer.network.address_table import AddressTableException
+
 Association = namedtuple("Association", ["asap", "address"])
 
 
@@ -178,12 +180,20 @@ class AssociationTable(object):
     def associate(
         self, asap: "knx_stack.ASAP", addresses: Iterable["knx_stack.GroupAddress"]
     ) -> None:
+        addresses = list(addresses)
+        added = list()
         for address in addresses:
             if (
                 address not in self._address_table.addresses
                 and address is not self.individual_address
             ):
-                self._address_table.add(address)
+                try:
+                    self._address_table.add(address)
+                except AddressTableException:
+                    for address_ in added:
+                        self._address_table.remove(address_)
+                    raise
+                added.append(address)
 
         if asap not in self._asap_addresses:
             self._asap_addresses[asap] = list()
-- 
2.43.0


From d8231378be4092e68bb62fdefa0a880055426590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 17/34] fix: get_free_asap_value never returns a value in use

With asaps not associated in ascending order it returned the value of another
asap.
---
 .../definition/layer/transport/association_table.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/knx_stack/definition/layer/transport/association_table.py b/knx_stack/definition/layer/transport/association_table.py
index d9fe524..00464a7 100644
--- a/knx_stack/definition/layer/transport/association_table.py
+++ b/knx_stack/definition/layer/transport/association_table.py
@@ -165,11 +165,11 @@ class AssociationTable(object):
         return self._asap_addresses.keys()
 
     def get_free_asap_value(self):
-        asaps = self._asap_addresses.keys()
-        for e, asap in enumerate(asaps):
-            if e != asap.value:
-                return e
-        return len(asaps)
+        values = set(asap.value for asap in self._asap_addresses)
+        value = 0
+        while value in values:
+            value += 1
+        return value
 
     def get_addresses(self, tsaps: Iterable[int]):
         addresses = list()
-- 
2.43.0


From fadd8d358ab8bda5d15c32f9488d629aaa03664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 18/34] fix: property confirmations with a group address equal
 to the individual one

Individual and group addresses are distinct spaces: with 1.0.4 as individual
address and 2/0/4 in the address table, the confirmations of the property
services were discarded.
---
 knx_stack/decode/layer/transport/t_data_individual/con.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knx_stack/decode/layer/transport/t_data_individual/con.py b/knx_stack/decode/layer/transport/t_data_individual/con.py
index 0cdb11c..da540d3 100644
--- a/knx_stack/decode/layer/transport/t_data_individual/con.py
+++ b/knx_stack/decode/layer/transport/t_data_individual/con.py
@@ -5,9 +5,8 @@ from knx_stack.decode.layer import application
 
 def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
     logger = logging.getLogger(__name__)
-    tsap = state.get_tsap()
     result = []
-    if tsap == 0:
+    if state.ldata.destination == state.association_table.individual_address.free_style:
         if state.ldata.apci == 0x3D5:
             result = application.a_property_value_read.con.decode(state, msg)
         elif state.ldata.apci == 0x3D6:
-- 
2.43.0


From e6142c5ff37b33124355f724e1119487d1d827de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 19/34] fix: decode transport control frames

T_Connect, T_Disconnect, T_ACK and T_NACK frames end with the TPCI, they have
no APCI octet: decoding them raised IndexError, so the tunnelling client never
acknowledged them and the gateway closed the connection.
---
 knx_stack/definition/layer/link/ldata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knx_stack/definition/layer/link/ldata.py b/knx_stack/definition/layer/link/ldata.py
index f236f25..6b1399b 100644
--- a/knx_stack/definition/layer/link/ldata.py
+++ b/knx_stack/definition/layer/link/ldata.py
@@ -1,6 +1,6 @@
 from ctypes import c_uint8, LittleEndianStructure, c_uint16, Union
 from enum import IntEnum
-from knx_stack import Msg
+from knx_stack import Msg, Octect
 
 
 class Priority(IntEnum):
@@ -358,7 +358,10 @@ class L_Data(LittleEndianStructure):
         l_data._npdu_length = npdu_length.value
         (tpci, body) = body.octect()
         l_data._tpci = TPCI(value=tpci.value)
-        (apci, body) = body.octect()
+        if l_data.connected and not body:
+            apci = Octect(value=0)  # a control frame ends with the tpci
+        else:
+            (apci, body) = body.octect()
         l_data._apci = APCI(value=apci.value)
 
         if body:
-- 
2.43.0


From 45d0dcf62933f537eebb509b50e57099e48c6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 20/34] fix: a malformed line does not stop the reception of
 the USB HID client

Any exception while decoding a line ended the reading task. At the end of the
stream the task stopped only because of the exception raised by an empty line,
and an interrupted line was decoded without its last nibble.
---
 knx_stack/client/usbhid.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 5d7e748..490446d 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -86,8 +86,15 @@ class Client(object):
     async def _knx_read(self):
         while True:
             msg = await self._read()
-            octects_msg = knx_stack.Msg.make_from_str(msg)
-            data = knx_stack.decode_msg(self._state, octects_msg)
+            if msg is None:
+                self.logger.error("connection closed")
+                break
+            try:
+                octects_msg = knx_stack.Msg.make_from_str(msg)
+                data = knx_stack.decode_msg(self._state, octects_msg)
+            except Exception as e:
+                self.logger.error("discarded {}: {}".format(repr(msg), repr(e)))
+                continue
             self.logger.error("read {}".format(data))
 
     def _write(self, msg):
@@ -95,7 +102,9 @@ class Client(object):
 
     async def _read(self):
         msg = await self.rsock.readline()
-        return msg.decode()[0:-1]
+        if not msg.endswith(b"\n"):
+            return None  # end of stream, maybe in the middle of a line
+        return msg.decode(errors="replace")[0:-1]
 
     def run(self):
         self.loop.run_forever()
-- 
2.43.0


From 4f61e684f6038e2642812853ce0625a940e470b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 21/34] fix: start_tunneling and the discovery functions work
 when imported

They used a global loop which exists only when the module is run as a script.
---
 knx_stack/client/knxnet_ip.py           | 1 +
 knx_stack/client/knxnet_ip_discovery.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/knx_stack/client/knxnet_ip.py b/knx_stack/client/knxnet_ip.py
index 60725f2..522606b 100644
--- a/knx_stack/client/knxnet_ip.py
+++ b/knx_stack/client/knxnet_ip.py
@@ -164,6 +164,7 @@ async def start_tunneling(
     state: knx_stack.knxnet_ip.State,
     msgs: Iterable[NamedTuple],
 ):
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Tunneling(
             local_addr, local_port, remote_addr, remote_port, state, msgs
diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 6def8fb..022591b 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -144,6 +144,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
     sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Request(local_addr, local_port),
         sock=sock,
@@ -152,6 +153,7 @@ async def send_discovery_request(local_addr: str, local_port: int):
 
 
 async def listen_discovery_responses(local_addr: str, local_port: int):
+    loop = asyncio.get_running_loop()
     transport, protocol = await loop.create_datagram_endpoint(
         lambda: Listen(),
         local_addr=(local_addr, local_port),
-- 
2.43.0


From 20315a280f672fdb59c5bdeadd375eb4ec0bc595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 22/34] fix: the discovery script uses the ip address given as
 argument

It took sys.argv[0], the path of the script, for the ip address.
---
 knx_stack/client/knxnet_ip_discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 022591b..167fce1 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -171,12 +171,12 @@ if __name__ == "__main__":
 
     loop = asyncio.get_event_loop()
 
-    if len(sys.argv):
+    if len(sys.argv) > 1:
         transport1, _ = loop.run_until_complete(
-            loop.create_task(listen_discovery_responses(sys.argv[0], 5544))
+            loop.create_task(listen_discovery_responses(sys.argv[1], 5544))
         )
         transport2, _ = loop.run_until_complete(
-            loop.create_task(send_discovery_request(sys.argv[0], 5544))
+            loop.create_task(send_discovery_request(sys.argv[1], 5544))
         )
 
     try:
-- 
2.43.0


From 8b61a4c6efe34e7d011e72234807596a0f883614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 23/34] fix: daemon refuses the clients it has no place for

A client over MAX_CLIENTS was accepted and could write, but it never got any
message from the bus.
---
 daemon/usbhid.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 303f34a..67e0740 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -248,13 +248,18 @@ int main(int argc, char *argv[]) {
 					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
 							inet_ntoa(clientname.sin_addr),
 							ntohs(clientname.sin_port));
-					FD_SET(new_client, &active_fd_set);
 					for (j = 0; j < MAX_CLIENTS; j++) {
 						if (client_fds[j] == -1) {
 							client_fds[j] = new_client;
 							break;
 						}
 					}
+					if (j == MAX_CLIENTS) {
+						fprintf(stderr, "Server: too many clients.\n");
+						close(new_client);
+						continue;
+					}
+					FD_SET(new_client, &active_fd_set);
 				} else if (i == fd_cemi) {
 					int l = read_from_knx_cemi(fd_cemi, packet);
 					for (j = 0; j < MAX_CLIENTS; j++) {
-- 
2.43.0


From f4e4e6bdad10e08cef594cfc9a37dead9883d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 24/34] fix: daemon reassembles the lines of each client

TCP is a stream: a read can return a piece of a line or more than one line.
The pieces were written to the device as packets of their own, lines after the
first one were lost or mangled and, for a malformed line, the previous packet
was written again. A buffer made only of a newline was read out of bounds and
the bytes after a short message were those of the previous packet.
---
 daemon/usbhid.c | 70 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 67e0740..6cf0916 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <errno.h>
@@ -28,7 +29,8 @@ int make_socket(uint16_t port);
 void init_sockaddr (struct sockaddr_in *name,
 		const char *hostname,
 		uint16_t port);
-int read_from_client(int filedes, unsigned char *packet);
+int read_from_client(int filedes, char *line, int *line_len);
+int parse_line(const char *line, int nbytes, unsigned char *packet);
 int write_to_client(int filedes, unsigned char *packet, int len);
 
 int open_knx_cemi(char *hidraw) {
@@ -127,32 +129,38 @@ void init_sockaddr (struct sockaddr_in *name,
 	name->sin_addr = *(struct in_addr *)hostinfo->h_addr;
 }
 
-int read_from_client(int filedes, unsigned char *packet) {
-	int nbytes, i;
-	char buffer[KNXHIDPACKETLEN * 2 + 1];
+int read_from_client(int filedes, char *line, int *line_len) {
+	int nbytes;
 
-	nbytes = read(filedes, buffer, KNXHIDPACKETLEN * 2 + 1);
+	nbytes = read(filedes, line + *line_len, MAXMSG - *line_len);
 	if (nbytes < 0) {
 		perror("read");
 		return -1;
 	} else if (nbytes == 0)
 		return -1;
-	else {
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
-			nbytes--;
-		if (buffer[nbytes - 1] == '\n' || buffer[nbytes - 1] == '\r')
-			nbytes--;
-		if ((nbytes % 2) != 0) {
+	*line_len += nbytes;
+	return nbytes;
+}
+
+int parse_line(const char *line, int nbytes, unsigned char *packet) {
+	int i;
+
+	if ((nbytes % 2) != 0 || nbytes > KNXHIDPACKETLEN * 2) {
+		return 0;
+	}
+	for (i = 0; i < nbytes; i++) {
+		if (!isxdigit((unsigned char) line[i])) {
 			return 0;
 		}
-		for (i = 0; i < nbytes / 2; i++) {
-			if (sscanf(&buffer[i * 2], "%2hhx", &packet[i]) != 1) {
-				return 0;
-			}
+	}
+	memset(packet, 0, KNXHIDPACKETLEN);
+	for (i = 0; i < nbytes / 2; i++) {
+		if (sscanf(&line[i * 2], "%2hhx", &packet[i]) != 1) {
+			return 0;
 		}
-		fprintf(stderr, "Server: got message %s len %d\n", buffer, nbytes);
-		return i;
 	}
+	fprintf(stderr, "Server: got message %.*s len %d\n", nbytes, line, nbytes);
+	return i;
 }
 
 int write_to_client(int filedes, unsigned char *packet, int len) {
@@ -184,6 +192,8 @@ int main(int argc, char *argv[]) {
 	int c;
 	int i;
 	int client_fds[64];
+	static char lines[MAX_CLIENTS][MAXMSG];
+	int lines_len[MAX_CLIENTS];
 
 	while ((c = getopt_long(argc, argv, shortopts, longopts, &option_index))
 			!= -1) {
@@ -251,6 +261,7 @@ int main(int argc, char *argv[]) {
 					for (j = 0; j < MAX_CLIENTS; j++) {
 						if (client_fds[j] == -1) {
 							client_fds[j] = new_client;
+							lines_len[j] = 0;
 							break;
 						}
 					}
@@ -268,8 +279,29 @@ int main(int argc, char *argv[]) {
 						}
 					}
 				} else {
-					if (read_from_client(i, packet) >= 0) {
-						write_to_knx_cemi(fd_cemi, packet);
+					for (j = 0; j < MAX_CLIENTS; j++) {
+						if (client_fds[j] == i) {
+							break;
+						}
+					}
+					if (read_from_client(i, lines[j], &lines_len[j]) >= 0) {
+						char *line = lines[j];
+						char *end = line + lines_len[j];
+						char *eol;
+						for (eol = line; eol < end; eol++) {
+							if (*eol == '\n' || *eol == '\r') {
+								if (parse_line(line, eol - line, packet) > 0) {
+									write_to_knx_cemi(fd_cemi, packet);
+								}
+								line = eol + 1;
+							}
+						}
+						lines_len[j] = end - line;
+						memmove(lines[j], line, lines_len[j]);
+						if (lines_len[j] == MAXMSG) {
+							// not a line: keep it invalid until its end
+							lines_len[j] = MAXMSG / 2 + 1;
+						}
 					} else {
 						FD_CLR(i, &active_fd_set);
 						for (j = 0; j < MAX_CLIENTS; j++) {
-- 
2.43.0


From 3d6bcee79186e0a454804ac0a0054157604deb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 25/34] fix: daemon drops a client which is gone or does not
 read

Writing to a closed connection killed the daemon with SIGPIPE, a client which
does not read blocked it forever, a short write corrupted the stream.
---
 daemon/usbhid.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 6cf0916..f942e85 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -171,7 +171,12 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 		sprintf(&buffer[i * 2], "%02x", packet[i]);
 	}
 	buffer[len * 2] = '\n';
-	write(filedes, buffer, len * 2 + 1);
+	// a client which is gone or does not read must not stop the others
+	if (send(filedes, buffer, len * 2 + 1, MSG_DONTWAIT | MSG_NOSIGNAL)
+			!= len * 2 + 1) {
+		return -1;
+	}
+	return 0;
 }
 
 int main(int argc, char *argv[]) {
@@ -274,8 +279,13 @@ int main(int argc, char *argv[]) {
 				} else if (i == fd_cemi) {
 					int l = read_from_knx_cemi(fd_cemi, packet);
 					for (j = 0; j < MAX_CLIENTS; j++) {
-						if (client_fds[j] > 0) {
-							write_to_client(client_fds[j], packet, l);
+						if (client_fds[j] > 0
+								&& write_to_client(client_fds[j], packet, l) < 0) {
+							perror("send");
+							FD_CLR(client_fds[j], &active_fd_set);
+							FD_CLR(client_fds[j], &read_fd_set);
+							close(client_fds[j]);
+							client_fds[j] = -1;
 						}
 					}
 				} else {
-- 
2.43.0


From bf63889fb8c2fb92f7abdc1e3d53aa65c973807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 26/34] fix: daemon survives an accept error

A connection aborted before being accepted, or a momentary lack of resources,
ended the daemon.
---
 daemon/usbhid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index f942e85..ce6d586 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -258,7 +258,7 @@ int main(int argc, char *argv[]) {
 							&len);
 					if (new_client < 0) {
 						perror("accept");
-						exit(EXIT_FAILURE);
+						continue;
 					}
 					fprintf(stderr, "Server: connect from host %d, port %hd.\n",
 							inet_ntoa(clientname.sin_addr),
-- 
2.43.0


From 5e07e493c1a9e74f3f44a7100bd0835ccf4c75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 27/34] fix: describe a datapoint with a value which has no
 name

Decoding a frame formats its datapoint for the log: a bus value out of the
known ones (DPTSetupClima, DPTInfoClimaReport) raised ValueError, so the frame
was neither delivered nor acknowledged.
---
 knx_stack/datapointtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 431c7c1..4e08b42 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -76,7 +76,10 @@ class Description_Factory(object):
             ["bits", "value", "__weakref__", "_b_base_", "_b_needsfree_", "_objects"]
         )
         for name in fields:
-            field = dpt.__getattribute__(name)
+            try:
+                field = dpt.__getattribute__(name)
+            except ValueError:  # not one of the known values
+                field = getattr(dpt.bits, name)
             if isinstance(field, IntEnum):
                 description[name] = field.name
             else:
-- 
2.43.0


From 28d3e9fc5ee1013629b46d30ceb1d533ff454c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 28/34] fix: an overlong line does not stop the reception of
 the USB HID client

---
 knx_stack/client/usbhid.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index 490446d..da4e210 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -101,10 +101,19 @@ class Client(object):
         self.wsock.write(msg.encode())
 
     async def _read(self):
-        msg = await self.rsock.readline()
-        if not msg.endswith(b"\n"):
-            return None  # end of stream, maybe in the middle of a line
-        return msg.decode(errors="replace")[0:-1]
+        overlong = False
+        while True:
+            try:
+                msg = await self.rsock.readuntil(b"\n")
+            except asyncio.IncompleteReadError:
+                return None  # end of stream, maybe in the middle of a line
+            except asyncio.LimitOverrunError as e:
+                await self.rsock.readexactly(e.consumed)
+                overlong = True
+                continue
+            if not overlong:
+                return msg.decode(errors="replace")[0:-1]
+            overlong = False  # it was the end of a line too long to be a message
 
     def run(self):
         self.loop.run_forever()
-- 
2.43.0


From 6f8e4d2c2aff0165c869cc9be88cf3342b7a71fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 29/34] fix: daemon takes the device of its short option -d

---
 daemon/usbhid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index ce6d586..6384fad 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -182,7 +182,7 @@ int write_to_client(int filedes, unsigned char *packet, int len) {
 int main(int argc, char *argv[]) {
 	fd_set active_fd_set, read_fd_set;
 	struct sockaddr_in clientname;
-	static char *shortopts = "hdpi";
+	static char *shortopts = "hd:pi";
 	static struct option longopts[] = { { "help", 0, NULL, 'h' }, { "host", 1,
 			NULL, 's' }, { "port", 1, NULL, 'p' },
 			{ "dev-hidraw", 1, NULL, 'd' }, { 0, 0, 0, 0 }, };
-- 
2.43.0


From 4e0d4235e9db4c6826a2b17d095e0da5a04f4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:03 +0000
Subject: [PATCH 30/34] fix: daemon does not use a packet buffer which was not
 allocated

When malloc fails, the first read of the interface wrote through a null
pointer.
---
 daemon/usbhid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daemon/usbhid.c b/daemon/usbhid.c
index 6384fad..8b3e345 100644
--- a/daemon/usbhid.c
+++ b/daemon/usbhid.c
@@ -232,6 +232,10 @@ int main(int argc, char *argv[]) {
 
 	fd_cemi = open_knx_cemi(dev_hidraw);
 	packet = (char *) malloc(KNXHIDPACKETLEN);
+	if (packet == NULL) {
+		perror("malloc");
+		exit(EXIT_FAILURE);
+	}
 
 	FD_ZERO(&active_fd_set);
 	FD_SET(sock, &active_fd_set);
-- 
2.43.0


From 12c41e571f37ca72bef934942a9113cdd56635a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:06 +0000
Subject: [PATCH 31/34] fix: the USB HID client stops when a message cannot be
 sent

The task which sends the messages ended with the exception and never
stopped the loop: run_forever did not return.
---
 knx_stack/client/usbhid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knx_stack/client/usbhid.py b/knx_stack/client/usbhid.py
index da4e210..7711068 100644
--- a/knx_stack/client/usbhid.py
+++ b/knx_stack/client/usbhid.py
@@ -67,7 +67,8 @@ class Client(object):
         self._state = state
         self.loop = asyncio.get_event_loop()
         self.loop.run_until_complete(self._open_connection())
-        self.loop.create_task(self._knx_write(send_msgs))
+        writer = self.loop.create_task(self._knx_write(send_msgs))
+        writer.add_done_callback(lambda task: self.loop.stop())
         self.loop.create_task(self._knx_read())
 
         self.logger = logging.getLogger(__name__)
@@ -81,7 +82,6 @@ class Client(object):
             self._write(str(octect_msg) + "\n")
             self.logger.error("written {}".format(msg))
             await asyncio.sleep(3)
-        self.loop.stop()
 
     async def _knx_read(self):
         while True:
-- 
2.43.0


From 4a051316ef7d7a8978ad5ddd16d0ab3e6a66d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:08 +0000
Subject: [PATCH 32/34] fix: discovery shares the multicast port with other
 programs

SO_REUSEADDR and SO_REUSEPORT were set after bind, when they have no effect:
bind failed with EADDRINUSE.
---
 knx_stack/client/knxnet_ip_discovery.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/knx_stack/client/knxnet_ip_discovery.py b/knx_stack/client/knxnet_ip_discovery.py
index 167fce1..cf5cea9 100644
--- a/knx_stack/client/knxnet_ip_discovery.py
+++ b/knx_stack/client/knxnet_ip_discovery.py
@@ -18,12 +18,12 @@ class Request(asyncio.DatagramProtocol):
 
             async def send_discovery_request(local_addr: str, local_port: int):
                 sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
+                sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+                sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
                 sock.bind(('', knx_stack.knxnet_ip.DISCOVERY_MULTICAST_PORT))
                 group = socket.inet_aton(knx_stack.knxnet_ip.DISCOVERY_MULTICAST_ADDR)
                 mreq = struct.pack('!4sL', group, socket.INADDR_ANY)
                 sock.setsockopt(socket.IPPROTO_IP, socket.IP_ADD_MEMBERSHIP, mreq)
-                sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
-                sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
                 sock.setblocking(False)
 
                 transport, protocol = await loop.create_datagram_endpoint(
@@ -136,12 +136,12 @@ class Listen(asyncio.DatagramProtocol):
 
 async def send_discovery_request(local_addr: str, local_port: int):
     sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
+    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.bind(("", knx_stack.knxnet_ip.DISCOVERY_MULTICAST_PORT))
     group = socket.inet_aton(knx_stack.knxnet_ip.DISCOVERY_MULTICAST_ADDR)
     mreq = struct.pack("!4sL", group, socket.INADDR_ANY)
     sock.setsockopt(socket.IPPROTO_IP, socket.IP_ADD_MEMBERSHIP, mreq)
-    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
-    sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
     sock.setblocking(False)
 
     loop = asyncio.get_running_loop()
-- 
2.43.0


From 96af8a7dffd7f5c0d33ee1fe57e3d29aa59530a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:09 +0000
Subject: [PATCH 33/34] fix: encode a 16 bit float which rounds to a negative
 zero as zero

-0.0 (or -0.001) got the sign bit with mantissa 0, which is -20.48 on the bus.
---
 knx_stack/datapointtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knx_stack/datapointtypes.py b/knx_stack/datapointtypes.py
index 4e08b42..72a6605 100644
--- a/knx_stack/datapointtypes.py
+++ b/knx_stack/datapointtypes.py
@@ -677,6 +677,8 @@ class DPT_Float_16(Union):
             value / 0.01
         )  # used decimal to avoid different rounding
         mantissa = abs(int(round(decimal_mantissa, 2)))  # two decimals
+        if mantissa == 0:
+            sign = 1  # a negative sign with this mantissa is -20.48
 
         exp = 0
         max_mantissa_value = (1 << 11) - 1
-- 
2.43.0


From 706df23cbac9143ca666c85ea2fe4e5455eda9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:35 +0000
Subject: [PATCH 34/34] fix: refuse an address table of more addresses than its
 capacity

Only add() looked at max_size: a table made with more addresses exceeded it from
the start. An address named twice takes one entry, as with add().
---
 knx_stack/definition/layer/network/address_table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knx_stack/definition/layer/network/address_table.py b/knx_stack/definition/layer/network/address_table.py
index 34d196b..c081962 100644
--- a/knx_stack/definition/layer/network/address_table.py
+++ b/knx_stack/definition/layer/network/address_table.py
@@ -87,7 +87,12 @@ class AddressTable(object):
         """
         self._max_size = max_size
         self._individual_address = ia
-        self._group_addresses = list(addresses)
+        self._group_addresses = list(set(addresses))
+        if len(self._group_addresses) > max_size:
+            raise AddressTableException(
+                "%d addresses, max entries of address table are %d"
+                % (len(self._group_addresses), max_size)
+            )
         self._group_addresses.sort(key=lambda group_address: group_address.free_style)
 
     @property
-- 
2.43.0


#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Tunnelled frames reach the application exactly once and in order",
 "Within an established KNXnet/IP tunnelling connection, every L_Data indication or confirmation that the gateway tunnels is delivered by the client to the application at most once, in the order the gateway sent them, and with the value, service and ASAPs that the frame and the routing tables define; each frame whose acknowledgement the gateway got was delivered exactly once. This holds for any loss, duplication, reordering and delay of datagrams in both directions (short of a datagram outliving 255 newer ones) and for connections of any length, including the wrap-around of the 8-bit sequence number.",
 ["schedules", "fault_sequences", "histories"],
 "all finite sequences of tunnelled frames, all interleavings with outgoing traffic and all per-datagram loss/duplication/delay/reordering patterns the gateway's stop-and-wait retransmission can meet",
 "The doctests decode one datagram on a fresh State; nothing drives a sequence of requests, a repetition, a wrap-around or a lost ack, and the client module has no test at all.",
 ["knx_stack/client/knxnet_ip.py", "knx_stack/decode/knxnet_ip/tunneling/req.py", "knx_stack/encode/knxnet_ip/tunneling/ack.py", "knx_stack/decode/knxnet_ip/header.py", "knx_stack/decode/cemi/msg_code.py", "knx_stack/state.py", "knx_stack/definition/layer/link/ldata.py"],
 [("duplicate filter on the remote sequence counter", "knx_stack/decode/knxnet_ip/tunneling/req.py: decode"), ("advance of the remote counter with the ack", "knx_stack/encode/knxnet_ip/tunneling/ack.py: encode"), ("ack of every request without error", "knx_stack/client/knxnet_ip.py: Tunneling.datagram_received")],
 [("sequence_counter_remote", "number of the next expected tunnelling request", "knx_stack/state.py")],
 ["messages returned by knx_stack.decode_msg to the client", "datagrams sent by the client"])

prop("C02", "Expected or repeated tunnelling requests are acked with their own number",
 "In an established connection the client answers each received tunnelling request that carries the next expected number, or repeats the last accepted one, with exactly one positive tunnelling ack carrying that request's own number and the connection's channel. It never acknowledges a request with any other number, whatever was lost, duplicated, reordered or delayed before, so a gateway with the standard retransmission policy is never driven to give up a connection whose datagrams do get through.",
 ["schedules", "fault_sequences", "histories"],
 "all sequences of received request numbers reachable under loss, duplication, reordering and delay, all 256 counter values, all frame contents including services and control frames the stack does not deliver",
 "Ack encoding is tested for one State and one number; the repetition of a request, the wrap at 255/0 and frames that decode to no message are never exercised.",
 ["knx_stack/client/knxnet_ip.py", "knx_stack/encode/knxnet_ip/tunneling/ack.py", "knx_stack/encode/knxnet_ip/tunneling/connection_header.py", "knx_stack/decode/knxnet_ip/tunneling/req.py", "knx_stack/definition/layer/link/ldata.py"],
 [("ack for requests reported without error", "knx_stack/client/knxnet_ip.py: Tunneling.datagram_received"), ("number of the ack", "knx_stack/encode/knxnet_ip/tunneling/ack.py: encode")],
 [("sequence_counter_remote", "number of the next expected tunnelling request", "knx_stack/state.py"), ("communication_channel_id", "channel of the established connection", "knx_stack/definition/knxnet_ip/state.py")],
 ["datagrams sent by the client", "gateway's retransmission state"])

prop("C03", "Outgoing requests are numbered by the acks and resynchronise after losses",
 "Each tunnelling request the client sends carries the connection's channel and a number that starts at 0 and advances by one (modulo 256) exactly when the positive ack of the current number arrives, and never on late, repeated, negative, foreign or malformed acks. A gateway therefore accepts every message at most once and in sending order, each datagram that is lost or comes later than the next message costs at most one message, and once faults stop every further message is accepted.",
 ["schedules", "fault_sequences", "histories"],
 "all sequences of outgoing messages and all loss/duplication/delay/reordering patterns of requests and acks, including stale and negative acks and connections of more than 256 messages",
 "The tests encode one request and decode one ack on a fresh State; no test pairs requests with acks, repeats or loses one, or reaches the wrap-around.",
 ["knx_stack/encode/knxnet_ip/tunneling/req.py", "knx_stack/encode/knxnet_ip/tunneling/connection_header.py", "knx_stack/decode/knxnet_ip/tunneling/ack.py", "knx_stack/decode/knxnet_ip/header.py", "knx_stack/client/knxnet_ip.py", "knx_stack/state.py"],
 [("advance of the local counter on its ack", "knx_stack/decode/knxnet_ip/tunneling/ack.py: decode"), ("number of a request", "knx_stack/encode/knxnet_ip/tunneling/req.py: encode")],
 [("sequence_counter_local", "number of the next outgoing request", "knx_stack/state.py")],
 ["datagrams sent by the client", "requests accepted by the gateway"])

prop("C04", "A tunnelling session starts only when accepted, and starts fresh",
 "The client advertises its own endpoint in the connect request, tunnels nothing before the gateway accepted it, and a refusal is reported as such and leaves it not connected. After an acceptance it asks for the state of the new connection and uses that response's channel with both sequence counters starting at 0, even when its State already served an earlier session; repeated connect responses of the session, refusals and disconnect responses of other channels arriving later change nothing.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "all histories of connect attempts, refusals, gateway or client restarts and reconnections on the same or a new State, with late, duplicated and reordered core-service datagrams of this and earlier sessions",
 "Each core service is encoded or decoded once in isolation; no test runs a handshake, a refusal, a second session or a duplicated response.",
 ["knx_stack/client/knxnet_ip.py", "knx_stack/decode/knxnet_ip/core/connect/res.py", "knx_stack/decode/knxnet_ip/core/disconnect/res.py", "knx_stack/encode/knxnet_ip/core/connect/req.py", "knx_stack/encode/knxnet_ip/core/connectionstate/req.py", "knx_stack/definition/knxnet_ip/state.py"],
 [("connect response handling", "knx_stack/client/knxnet_ip.py: Tunneling.datagram_received"), ("channel adoption", "knx_stack/decode/knxnet_ip/core/connect/res.py: decode"), ("channel release", "knx_stack/decode/knxnet_ip/core/disconnect/res.py: decode")],
 [("communication_channel_id", "channel of the established connection", "knx_stack/definition/knxnet_ip/state.py"), ("connected", "an accepted connection exists", "knx_stack/client/knxnet_ip.py")],
 ["datagrams sent by the client", "Tunneling.connected", "messages delivered"])

prop("C05", "Malformed, unknown and foreign datagrams change nothing",
 "A datagram that is empty, shorter than its fixed header, of another protocol version, of a service the client does not implement, or a tunnelling request, tunnelling ack, connection state response or disconnect response of a channel that is not the established one, is never acknowledged, delivers no bus message to the application and changes neither channel nor counters. The rest of the session behaves exactly as if that datagram had never arrived.",
 ["inputs", "schedules", "fault_sequences"],
 "all such datagrams injected at any point of any session, before and after the connection is established, between a request and its ack, and in bursts",
 "No test feeds a malformed datagram to the client or checks the session that follows it.",
 ["knx_stack/decode/knxnet_ip/header.py", "knx_stack/definition/knxnet_ip/msg.py", "knx_stack/decode/knxnet_ip/tunneling/req.py", "knx_stack/decode/knxnet_ip/tunneling/ack.py", "knx_stack/decode/knxnet_ip/core/connect/res.py", "knx_stack/client/knxnet_ip.py", "knx_stack/msg.py"],
 [("header validation and service dispatch", "knx_stack/decode/knxnet_ip/header.py: decode"), ("validation before state changes", "knx_stack/decode/knxnet_ip")],
 [("communication_channel_id", "channel of the established connection", "knx_stack/definition/knxnet_ip/state.py")],
 ["datagrams sent by the client", "messages returned by knx_stack.decode_msg", "whole recorded history, compared with the run without the injected datagrams"])

prop("C06", "The tunnelling writer sends all its messages once, in order, and finishes",
 "The messages given to the tunnelling client are sent as tunnelling requests exactly once each, in the given order, each with the destination, service and value the message and the routing tables define, only after the gateway accepted the connection, and the writer then finishes and stops the loop within bounded time. Incoming traffic, lost or late acks, refusals before the acceptance and reported socket errors neither skip, repeat, reorder nor block them. If a message cannot be encoded, or the list of messages fails, the ones before it are sent, nothing is sent in its place, and the writer still comes to an end (with or without an error).",
 ["schedules", "fault_sequences", "configurations"],
 "all message lists, table configurations, times of acceptance and interleavings with received traffic and socket errors",
 "The client is not tested at all; encoders are tested for single messages and a single address.",
 ["knx_stack/client/knxnet_ip.py", "knx_stack/__init__.py", "knx_stack/encode/layer/application/a_group_value_write/encode.py", "knx_stack/encode/layer/application/a_group_value_read/req.py", "knx_stack/encode/layer/network/n_data_group/encode.py", "knx_stack/encode/cemi/ldata/req.py"],
 [("writer coroutine", "knx_stack/client/knxnet_ip.py: Tunneling.writer"), ("encoder chain", "knx_stack/encode")],
 [("connected", "an accepted connection exists", "knx_stack/client/knxnet_ip.py")],
 ["datagrams sent by the client", "completion of the writer"])

prop("C07", "Discovery asks once and reports every gateway that answers",
 "A discovery sends one search request to the KNXnet/IP multicast address advertising the given endpoint, and reports every well-formed search response that reaches that endpoint, once per received datagram, with the ip address, port and individual address the gateway announced. Garbage, other services, duplicates, reordering and late responses do not stop or alter the reports of the other gateways, and another program of the host sharing the discovery port does not keep the request from being sent.",
 ["schedules", "fault_sequences", "configurations"],
 "all numbers of gateways and response contents, all arrival orders, losses, duplications, and malformed datagrams in between; used as a script or through the module's functions",
 "One search response is decoded and one request encoded by doctests; the discovery services themselves are never run.",
 ["knx_stack/client/knxnet_ip_discovery.py", "knx_stack/decode/knxnet_ip/core/search/res.py", "knx_stack/encode/knxnet_ip/core/search/req.py", "knx_stack/encode/knxnet_ip/core/hpai.py"],
 [("request service", "knx_stack/client/knxnet_ip_discovery.py: Request.connection_made"), ("listener service", "knx_stack/client/knxnet_ip_discovery.py: Listen.datagram_received"), ("search response decoder", "knx_stack/decode/knxnet_ip/core/search/res.py")],
 [], ["datagrams sent to the multicast address", "decoded responses and log records of the listener"])

prop("C08", "The USB HID client decodes every received line once and in order",
 "Whatever way the stream from the USB HID daemon is cut into segments, the client decodes each complete line exactly once, in order, to the messages its frame and the routing tables define. A malformed line is skipped without any effect on the following ones, and when the stream ends, even in the middle of a line, the client stops reading without decoding the fragment and without busy looping, while its pending messages are still sent.",
 ["schedules", "fault_sequences", "inputs"],
 "all segmentations, coalescings and delays of the stream, all placements of malformed lines, end of stream at any byte",
 "The USB client has no test: nothing reads a stream, a partial line or a malformed line.",
 ["knx_stack/client/usbhid.py", "knx_stack/decode/usb_hid/report_header/report_identifier.py", "knx_stack/decode/usb_hid/report_header/packet_info.py", "knx_stack/msg.py"],
 [("line reader task", "knx_stack/client/usbhid.py: Client._knx_read"), ("USB HID decoder chain", "knx_stack/decode/usb_hid")],
 [], ["messages returned by knx_stack.decode_msg", "completion of the reader"])

prop("C09", "The USB HID client sends every message as one line, in order, and stops",
 "The messages given to the USB HID client are written to the daemon exactly once each, in the given order, one hexadecimal line per message whose USB HID packet has consistent length fields and the destination, service and value the message and the tables define. The client then stops its loop within bounded time, whatever is received meanwhile and however slowly the peer reads. If a message cannot be encoded, or the list of messages fails, the ones before it are written, nothing is written in its place, and the client still stops.",
 ["schedules", "fault_sequences", "configurations"],
 "all message lists, table configurations, peer speeds and interleavings with received lines, malformed lines and the end of the incoming stream",
 "The USB client has no test; encoders are tested for single messages.",
 ["knx_stack/client/usbhid.py", "knx_stack/encode/usb_hid", "knx_stack/encode/cemi/ldata/req.py", "knx_stack/__init__.py"],
 [("writer task", "knx_stack/client/usbhid.py: Client._knx_write"), ("USB HID encoder chain", "knx_stack/encode/usb_hid")],
 [], ["bytes written to the daemon", "end of Client.run"])

prop("C10", "The daemon relays every HID report to every connected client in order",
 "Each report the USB HID daemon reads from the device is sent to every client connected at that time as exactly one lowercase hexadecimal line with the report's bytes, in the order of the reports. Clients connecting, disconnecting, crashing, sending or reading slowly never alter, split, drop, repeat or reorder what the other connected clients receive.",
 ["schedules", "fault_sequences"],
 "all interleavings of reports, connections, disconnections and client input over up to 64 concurrent clients, including resets and peers that stop reading",
 "The daemon has no test.",
 ["daemon/usbhid.c"],
 [("select loop", "daemon/usbhid.c: main"), ("fan-out", "daemon/usbhid.c: write_to_client")],
 [("client_fds", "connected clients", "daemon/usbhid.c: main")],
 ["bytes sent on each client socket"])

prop("C11", "Each line a daemon client sends becomes exactly one HID packet",
 "Each complete line of at most 56 hexadecimal-coded bytes that a client sends is written to the device exactly once, as one 56-byte packet holding these bytes followed by zeros, in the order of that client's lines. This does not depend on how TCP cuts or merges the stream nor on what other clients send at the same time; malformed lines and lines interrupted by a disconnection write nothing.",
 ["schedules", "fault_sequences", "inputs"],
 "all line contents, segmentations and interleavings of the streams of up to 64 clients, disconnection at any byte",
 "The daemon has no test.",
 ["daemon/usbhid.c"],
 [("client input", "daemon/usbhid.c: read_from_client"), ("device output", "daemon/usbhid.c: write_to_knx_cemi")],
 [("lines", "input of each client which is not a complete line yet", "daemon/usbhid.c: main")],
 ["packets written to the device"])

prop("C12", "The daemon survives any client behaviour and keeps serving",
 "No behaviour of its clients (connection resets, half-sent or overlong or binary input, connections aborted before being accepted, more than 64 clients, clients that never read) makes the daemon exit, access memory out of bounds or block. As soon as such faults stop, reports still reach the connected clients, lines of connected clients still reach the device, and a new client is served whenever fewer than 64 are connected.",
 ["schedules", "fault_sequences", "crash_points"],
 "all sequences of connects, sends, resets, stalls, closes and accept failures",
 "The daemon has no test.",
 ["daemon/usbhid.c"],
 [("select loop and client slots", "daemon/usbhid.c: main"), ("write to a client", "daemon/usbhid.c: write_to_client")],
 [("client_fds", "connected clients", "daemon/usbhid.c: main")],
 ["liveness of the process", "bytes sent on each client socket", "packets written to the device"])

prop("C13", "Routing follows the association tables, through any reconfiguration",
 "At any point of any history of table changes (no ASAP is associated twice with one address), a group frame received on any medium is delivered exactly once to each ASAP that is then associated with its destination address and has a datapoint type, and to nobody else, and a request for an ASAP (or an indication, encoded for a USB HID State) is sent to the first of the addresses then associated with it. Changing one association never redirects, loses or duplicates the traffic of the others, whatever the order of addresses, shared addresses, or addresses numerically equal to the individual one.",
 ["histories", "schedules", "configurations"],
 "all interleavings of traffic with associate/disassociate, address table and datapoint type changes, all address sets up to the table capacity",
 "The doctests make four associations and one disassociation with no traffic and no shared address.",
 ["knx_stack/definition/layer/transport/association_table.py", "knx_stack/definition/layer/network/address_table.py", "knx_stack/definition/layer/application/groupobject_table.py", "knx_stack/state.py", "knx_stack/decode/layer/transport/t_data_group/ind.py", "knx_stack/decode/layer/application/a_group_value.py", "knx_stack/encode/layer/network/n_data_group/encode.py"],
 [("address -> TSAP -> ASAPs", "knx_stack/definition/layer/transport/association_table.py: get_asaps"), ("sorted address table", "knx_stack/definition/layer/network/address_table.py: add, remove")],
 [("addresses of each asap", "associations in insertion order", "knx_stack/definition/layer/transport/association_table.py"), ("group addresses", "sorted group addresses, index+1 = TSAP", "knx_stack/definition/layer/network/address_table.py")],
 ["messages returned by knx_stack.decode_msg", "frames returned by knx_stack.encode_msg"])

prop("C14", "Receiving and sending on one State from two threads do not interfere",
 "A State whose received datagrams are processed by one thread (decode and, for KNXnet/IP, ack) while another thread encodes requests, and different States sharing the same tables used by any threads, give at every interleaving the same decoded messages, acks and frames as some sequential order of the same calls. No call raises an error that its sequential execution does not.",
 ["schedules"],
 "all thread interleavings at bytecode granularity of a receiving and a sending thread on one State, and of several threads on several States sharing tables",
 "No test uses threads; an interleaving window of one bytecode cannot be hit on purpose by running code.",
 ["knx_stack/state.py", "knx_stack/definition/knxnet_ip/state.py", "knx_stack/decode", "knx_stack/encode", "knx_stack/definition/layer/transport/association_table.py"],
 [("separate scratch fields for the two directions", "knx_stack/state.py: ldata / asap, apci, address_type"), ("separate counters for the two directions", "knx_stack/state.py: sequence_counter_remote, sequence_counter_local")],
 [("ldata", "frame being decoded", "knx_stack/state.py"), ("asap, apci, address_type", "request being encoded", "knx_stack/state.py")],
 ["results of knx_stack.decode_msg and knx_stack.encode_msg"])

prop("C15", "A write on the bus reaches every other node's ASAPs with its value",
 "In an installation of tunnelling and USB HID nodes sharing one bus, each group write the bus carries is indicated exactly once, with its value, at every ASAP of every other node associated with its address, and confirmed to the nodes of the sending interface (all clients of one daemon share its interface); nothing else is indicated anywhere, and each node sees the frames in bus order. Nodes in one process do not influence one another, and nodes starting, stopping or crashing do not disturb the rest.",
 ["schedules", "fault_sequences", "configurations", "histories"],
 "all node sets, table configurations, write sequences and interleavings; datagram loss, duplication, reordering and delay; TCP segmentation; node crash and restart",
 "No test connects an encoder to a decoder, let alone two clients, the daemon and a gateway.",
 ["knx_stack/client/knxnet_ip.py", "knx_stack/client/usbhid.py", "daemon/usbhid.c", "knx_stack/encode", "knx_stack/decode"],
 [("tunnelling client", "knx_stack/client/knxnet_ip.py"), ("USB HID client and daemon", "knx_stack/client/usbhid.py, daemon/usbhid.c"), ("codec of both media", "knx_stack/encode, knx_stack/decode")],
 [], ["messages delivered at each node", "frames on the simulated bus"])

prop("C16", "Property services pair requests with the right answers",
 "A property read or write request is sent to the node's own individual address with the given object, property, range and data; its confirmation, and each answer coming from that address, are delivered exactly once with the same object, property, range and data (and confirmation status). Property traffic of other devices and group traffic, interleaved in any order on any medium, is neither delivered as a property message nor changes what is delivered.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of property requests, confirmations (positive and negative), responses, foreign property traffic and group traffic, under datagram faults or stream segmentation",
 "Tests decode single property frames; none pairs a request with an answer nor interleaves foreign traffic.",
 ["knx_stack/encode/layer/application/a_property_value_read/req.py", "knx_stack/encode/layer/application/a_property_value_write/req.py", "knx_stack/encode/layer/network/n_data_individual/req.py", "knx_stack/decode/layer/transport/t_data_individual/ind.py", "knx_stack/decode/layer/transport/t_data_individual/con.py", "knx_stack/decode/layer/application/a_property_value.py"],
 [("filter on the individual address", "knx_stack/decode/layer/transport/t_data_individual"), ("property header codec", "knx_stack/definition/layer/application/a_property_value.py")],
 [], ["frames sent by the client", "messages returned by knx_stack.decode_msg"])

prop("C17", "Table operations are atomic, within capacity, and hand out free ASAPs",
 "A table operation that fails (no room left, unknown ASAP or address) leaves addresses, associations and routing exactly as they were; the number of group addresses never exceeds the capacity, and an address is held as long as some ASAP is associated with it and, unless it was added explicitly (then it may stay), no longer, so that released room can be used again. The free ASAP value offered is never one in use.",
 ["histories", "fault_sequences"],
 "all histories of table operations with capacity exhaustion and invalid arguments at any step and at any position of a multi-address operation, with live traffic in between",
 "The doctests never fill a table nor fail an operation.",
 ["knx_stack/definition/layer/transport/association_table.py", "knx_stack/definition/layer/network/address_table.py"],
 [("roll back of associate", "knx_stack/definition/layer/transport/association_table.py: associate"), ("validation of disassociate", "knx_stack/definition/layer/transport/association_table.py: disassociate"), ("capacity check", "knx_stack/definition/layer/network/address_table.py: add")],
 [("group addresses", "sorted group addresses within max_size", "knx_stack/definition/layer/network/address_table.py")],
 ["public accessors of the tables", "routing of frames and requests"])

prop("C18", "Keep-alive and disconnect name the connection; only its own end ends it",
 "A connection state or disconnect request the application encodes names the channel of the connection then in force, zero while there is none, and the control endpoint given. A connection state response for that channel is reported once with its status, whichever it is, and a successful disconnect response for it once with the channel. Only the latter ends the connection: after any other response of the core services (other statuses, other channels, late or repeated ones of an earlier connection) the connection carries on with the same channel and numbers, and after an end a new connection of the same State works like the first.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of keep-alive and disconnect requests with traffic, refusals, gateway restarts and reconnections (same or new State and port), loss, duplication and delay of any datagram",
 "One request of either kind is encoded on a fresh State and one response decoded; nothing exchanges them within a session, nor reconnects.",
 ["knx_stack/encode/knxnet_ip/core/connectionstate/req.py", "knx_stack/encode/knxnet_ip/core/disconnect/req.py", "knx_stack/decode/knxnet_ip/core/connectionstate/res.py", "knx_stack/decode/knxnet_ip/core/disconnect/res.py", "knx_stack/definition/knxnet_ip/state.py", "knx_stack/client/knxnet_ip.py"],
 [("channel of the requests", "knx_stack/encode/knxnet_ip/core: connectionstate.req.encode, disconnect.req.encode"), ("end of the connection", "knx_stack/decode/knxnet_ip/core/disconnect/res.py: decode"), ("start of a connection", "knx_stack/client/knxnet_ip.py: Tunneling.datagram_received")],
 [("communication_channel_id", "channel of the connection in force, 0 without one", "knx_stack/definition/knxnet_ip/state.py")],
 ["datagrams sent by the client", "messages returned by knx_stack.decode_msg"])

prop("C19", "Status reports of the USB interface are delivered as what they are",
 "Each report in which the USB interface informs of (or answers) its bus connection status or its active EMI type is delivered exactly once, in the order of the stream among the frames, with the status or type it carries; feature reports of other services, features, manufacturers or values deliver nothing. No such report is ever taken for a frame of the bus, nor changes how the frames and lines around it are decoded, and the pending messages of the client are sent as without it.",
 ["schedules", "inputs", "fault_sequences"],
 "all feature reports (services, features, values, lengths), interleaved with frames and malformed lines in any order and segmentation of the stream",
 "No test decodes a feature report of the bus access server.",
 ["knx_stack/client/usbhid.py", "knx_stack/decode/usb_hid/report_body/usb_protocol_header/protocol_id.py", "knx_stack/decode/usb_hid/report_body/usb_protocol_header/body_length.py", "knx_stack/decode/usb_hid/report_body/usb_protocol_header/bus_access_server_feature/service_identifier.py", "knx_stack/decode/usb_hid/report_body/usb_protocol_header/bus_access_server_feature/device_feature_info/feature_identifier.py"],
 [("dispatch on the protocol", "knx_stack/decode/usb_hid/report_body/usb_protocol_header/protocol_id.py: decode"), ("feature decoder", "knx_stack/decode/usb_hid/report_body/usb_protocol_header/bus_access_server_feature")],
 [], ["messages returned by knx_stack.decode_msg", "bytes written to the daemon"])

prop("C23", "A call which fails leaves no trace",
 "An encode call which raises (a request for an ASAP the tables do not know, without or with unusable data, with an invalid address, or no request at all) leaves the State and the tables as they were: whatever is received and sent afterwards, on either medium, in a running connection or not, is received and sent exactly as if the failed call had never been made, including channel, sequence numbers, destinations, values and acks.",
 ["histories", "fault_sequences", "schedules"],
 "all placements of failing calls in any session of the tunnelling client (between a request and its ack, around the wrap of the numbers, across reconnections) and of the USB HID client",
 "No test makes a failing call and then uses the State.",
 ["knx_stack/__init__.py", "knx_stack/state.py", "knx_stack/encode", "knx_stack/definition/knxnet_ip/state.py"],
 [("scratch fields of a request", "knx_stack/encode/layer/application"), ("numbers of the connection", "knx_stack/encode/knxnet_ip/tunneling")],
 [("asap, apci, address_type", "request being encoded", "knx_stack/state.py")],
 ["datagrams and lines sent by the clients", "messages returned by knx_stack.decode_msg", "whole recorded history, compared with the run without the failing calls"])

prop("C24", "The daemon serves the device it was given or ends with a failure",
 "Started while its port and its device are to be had, the USB HID daemon serves the device named with -d or --dev-hidraw (else /dev/hidraw1), also directly after an earlier daemon ended with clients connected. If the port, the device or memory cannot be had at its start, or the device is lost later, it ends with a failure status instead of running on without it, whatever its clients do meanwhile; what it read from the device before is still relayed to every connected client, and nothing that is not a report is. Asked for help it opens nothing and ends successfully.",
 ["crash_points", "fault_sequences", "histories"],
 "all sequences of starts, kills and losses of the device at any system call, all failing calls of the start, with any clients, reports and lines in progress",
 "No test runs the daemon, let alone without its device or its port, or a second time.",
 ["daemon/usbhid.c"],
 [("start", "daemon/usbhid.c: main, make_socket, open_knx_cemi"), ("loss of the device", "daemon/usbhid.c: read_from_knx_cemi, write_to_knx_cemi")],
 [], ["exit status of the daemon", "device it opens", "bytes sent to the clients"])

prop("C20", "16- and 32-bit float datapoints round-trip within their resolution",
 "Encoding any representable number in a KNX float datapoint and decoding it yields that number within the resolution of the datapoint type.",
 ["inputs"], "all representable numbers", "The doctests try a dozen values.",
 ["knx_stack/datapointtypes.py"], [("DPT_Float_16 codec", "knx_stack/datapointtypes.py: DPT_Float_16.encode, decode")], [], ["DPT_Float_16.value, decode()"])
prop("C21", "Free, two and three level styles denote the same group address",
 "A group address built in any of the three styles reads back consistently in the other two.",
 ["inputs"], "all 65536 addresses", "Two addresses are tried.",
 ["knx_stack/address.py"], [("bit fields over one 16-bit value", "knx_stack/address.py")], [], ["GroupAddress fields"])
prop("C22", "Datapoint factories invert each other",
 "For every datapoint type, building a datapoint from the description of a datapoint yields an equal datapoint.",
 ["inputs"], "all datapoint types and values", "Three types and one value each are tried.",
 ["knx_stack/datapointtypes.py"], [("DPT_Factory and Description_Factory", "knx_stack/datapointtypes.py")], [], ["DPT_Factory.make, Description_Factory.make"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")

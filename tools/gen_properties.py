#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

prop("R01", "In-order, gap-free, exactly-once delivery",
 "Within one subscription, the packets a subscriber hands to its application come from that publisher in publication order, with no packet missing between two delivered ones and none delivered twice, whatever mix of multicast and TCP copies, losses, duplicates, delays and reorderings carried them. A packet becomes available to the application in the same read call that completes the run of packets up to it, not later. Nothing is ever delivered that the publisher did not publish as data.",
 ["schedules", "histories", "inputs", "configurations"],
 "For every interleaving of application calls, every loss/duplication/delay/reordering pattern of multicast, every fragmentation and delay of the TCP channel, any number of publishers and subscribers within capacity.",
 "The unit tests drive a handful of packet ids through the list code in one order; the protocol tests run one publisher and one subscriber over a loss-free loopback. The guarantee is over all loss patterns and schedules.",
 ["sub.c", "rmc_sub_read.c", "rmc_sub_packet.c", "rmc_pub_write.c", "pub.c"],
 [("duplicate test and in-order promotion", "sub.c: sub_packet_is_duplicate, sub_packet_received, sub_process_received_packets"),
  ("both receive paths feed the same ordering", "rmc_sub_read.c: decode_subscribed_multicast, process_cmd_packet")],
 ["rmc_sub_get_next_dispatch_ready/rmc_sub_get_dispatch_ready_count at the API", "datagrams and TCP bytes at the socket calls"])

prop("R02", "Payloads arrive byte-identical",
 "The payload handed to the subscribing application has exactly the length and bytes the publisher queued, for every size from empty to the documented maximum, whether it arrived by multicast or by TCP resend. Larger payloads are refused when they are queued, and a refused packet is never sent.",
 ["inputs", "schedules", "histories"],
 "For every payload size and content, and every buffer state (wrap position, partial writes, partial reads) the transport can be in when the packet passes through.",
 "Tests send one 4-byte counter per packet, so no packet ever straddles a buffer wrap or needs several reads.",
 ["rmc_pub_write.c", "rmc_sub_read.c", "rmc_protocol.c", "circular_buffer.c", "rmc_pub_packet.c"],
 [("scatter/gather send", "rmc_pub_write.c: send_single_multicast_packet, rmc_pub_resend_packet"),
  ("copy out of the receive buffers", "rmc_sub_read.c: decode_subscribed_multicast, process_cmd_packet")],
 ["payload bytes at rmc_sub_packet_payload against the bytes given to rmc_pub_queue_packet"])

prop("R03", "Lost packets are recovered within a bounded time",
 "Every packet a publisher multicasts while a subscriber's connection is established is eventually handed to that subscriber's application, however many multicast copies are lost, as long as the TCP connection stays up and both applications keep servicing their poll events and timeouts. A packet whose acknowledgement has not arrived within the resend timeout is sent over TCP at the next timeout service, oldest first, no matter how much newer traffic is flowing, and exactly once per subscriber. Packets acknowledged in time are not resent.",
 ["schedules", "fault_sequences", "histories"],
 "For every loss pattern (single, burst, total, per-subscriber), every traffic rate, every number of subscribers, every back-pressure state of the TCP channel that eventually clears. Bounded form: within resend timeout + transport latency + service slack when TCP has room; by the end of a bounded drain otherwise.",
 "Loopback never loses a datagram in the tests, so the resend path is not exercised at all by them.",
 ["rmc_pub_timeout.c", "pub.c", "rmc_pub_write.c", "rmc_sub_read.c", "sub.c"],
 [("per-subscriber in-flight lists and timeout scan", "pub.c: pub_get_timed_out_subscribers, pub_get_timed_out_packets"),
  ("resend over TCP", "rmc_pub_timeout.c: process_subscriber_timeout; rmc_pub_write.c: rmc_pub_resend_packet")],
 ["publication at sendmsg", "availability at the dispatch queue", "resends in the publisher-to-subscriber TCP stream"])

prop("R04", "Payloads are held until every subscriber is accounted for",
 "A published payload stays untouched and is not released before, for each subscriber that was connected when the packet was multicast, that subscriber has acknowledged the packet, or the packet has been handed to its TCP connection, or its connection has been closed. Once that is the case for the last subscriber (or at once when there was none), the payload is released in the same library call, through the release callback given by the application or free().",
 ["histories", "schedules", "fault_sequences"],
 "For every order of acknowledgements, resends, connects and disconnects across any number of subscribers, including acknowledgements that are duplicated, overlapping, or name packets never sent.",
 "The publisher unit test acknowledges a few packets in one order with two subscribers; connects and disconnects between send and acknowledgement are not covered.",
 ["pub.c", "rmc_pub_packet.c", "rmc_pub_read.c", "rmc_pub_timeout.c"],
 [("reference count per packet", "pub.c: pub_packet_sent, pub_packet_ack, pub_reset_subscriber"),
  ("interval acknowledgement", "rmc_pub_read.c: process_cmd_ack_interval")],
 ["payload_free callback", "acknowledgement bytes read by the publisher", "resend bytes in the TCP stream"])

prop("R05", "Every payload and every internal block is freed exactly once",
 "Each payload accepted by the publisher and each payload buffer obtained by the subscriber is released exactly once, or kept by the application that asked to keep it, with its original pointer and length; deleting a context releases everything it still holds. After all contexts are deleted the library holds no memory, and long-running traffic does not make its memory grow beyond what is queued, in flight or undelivered. No execution reads or writes freed, uninitialised or foreign memory.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "For every history of traffic, loss, announcement, disconnect, deactivation and deletion, with application-supplied or default allocators, at every point of which the contexts may be torn down.",
 "No existing test deletes a context or counts allocations.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_sub_packet.c", "pub.c", "sub.c", "rmc_pub_timeout.c", "rmc_list_template.h"],
 [("release on last acknowledgement", "pub.c: pub_packet_ack"), ("release on dispatch", "rmc_sub_packet.c: rmc_sub_packet_dispatched"),
  ("teardown", "rmc_pub_delete_context, rmc_sub_delete_context, rmc_sub_deactivate_context")],
 ["allocation table kept under malloc/free of the library objects", "payload callbacks", "AddressSanitizer"])

prop("R06", "Acknowledgements are truthful and timely",
 "A subscriber acknowledges to a publisher only packets it received from that publisher by multicast in that subscription, each at most once. Every packet it accepted by multicast is acknowledged on the TCP channel no later than the acknowledgement timeout after its arrival, given that the application services timeouts and the channel accepts data, whatever order packets arrive in and whatever other publishers are doing.",
 ["schedules", "histories", "inputs"],
 "For every arrival order, gap pattern and mix of publishers, and every moment at which timeouts are serviced.",
 "The interval unit test checks the interval list for a few insert orders with manual timestamps; the choice of which publisher to acknowledge and when is untested.",
 ["rmc_sub_timeout.c", "rmc_sub_packet.c", "rmc_sub_write.c", "sub.c"],
 [("received intervals", "sub.c: sub_packet_add_to_received_interval"),
  ("list of publishers with pending acknowledgements", "rmc_sub_packet.c: rmc_sub_packet_received; rmc_sub_timeout.c")],
 ["acknowledgement intervals in the subscriber-to-publisher TCP stream", "datagrams returned to the subscriber"])

prop("R07", "Received-packet intervals represent exactly the received set",
 "After any sequence of distinct packet numbers, in any order, the recorded intervals are sorted, disjoint and non-adjacent, and their union is exactly the set of numbers recorded. The reported oldest unacknowledged time is the earliest arrival time still covered by an interval, or zero when there is none.",
 ["inputs", "histories"],
 "For every permutation, every gap structure and every number range (including the top of the 64-bit range), interleaved with removal of leading intervals.",
 "The unit test tries a few fixed sequences.",
 ["sub.c", "rmc_list_template.h"],
 [("interval insertion and merging", "sub.c: sub_packet_add_to_received_interval, sub_oldest_unacknowledged_packet")],
 ["interval list after each insertion against a set model"])

prop("R08", "The circular buffer is an exact bounded byte FIFO",
 "For any sequence of operations the circular buffer behaves as a bounded first-in first-out byte queue: reservations succeed exactly while enough space is available, reads (with or without offset), segment views, trims from the tail and frees from the head return exactly the bytes written in order, and reported use and availability always match. The first segment of a non-empty reservation or view is never empty, so its first byte can be reached through it. No operation touches a byte outside the storage it was given.",
 ["inputs", "histories", "configurations"],
 "For every operation sequence, every buffer size and every wrap position.",
 "The unit tests walk one buffer through a fixed sequence; trims, offset reads and segment views at the wrap are untested (a FIXME says so).",
 ["circular_buffer.c", "circular_buffer.h"],
 [("index arithmetic", "circular_buffer.c: all functions")],
 ["results and contents after every operation against a byte-queue model; AddressSanitizer on exact-size storage"])

prop("R09", "The linked list is an exact sequence container",
 "For any sequence of operations the list behaves as an ordered sequence: pushes, pops, inserts before and after, sorted inserts from either end, unlinking, deletion, searching, iteration and emptying have the effect of the same operation on a sequence, forwards and backwards traversals agree, and the size is the number of elements. Sorted inserts keep a sorted list sorted and place equal elements consistently.",
 ["inputs", "histories"],
 "For every operation sequence and every element position.",
 "The list test inserts and removes a few elements in fixed order.",
 ["rmc_list_template.h", "rmc_list.h"],
 [("doubly linked list", "rmc_list_template.h: RMC_LIST_IMPL")],
 ["forward and backward traversals after every operation against a sequence model"])

prop("R10", "Publisher bookkeeping tracks exactly who still owes what",
 "For any history of queueing, sending, acknowledging, subscribing and unsubscribing, packet numbers are consecutive from one in queue order, packets leave the queue oldest first, a packet is owed by exactly the subscribers present when it was sent that have neither acknowledged it nor left, and it is released exactly when nobody owes it any more. The timed-out subscribers, the timed-out packets of a subscriber (oldest first), the oldest unacknowledged send time and the in-flight count are always those implied by that history.",
 ["histories", "inputs"],
 "For every operation sequence over any number of subscribers, with arbitrary non-decreasing send times, repeated, unknown and out-of-order acknowledgements.",
 "The unit test follows one scripted sequence and never asks for the timed-out packets.",
 ["pub.c", "rmc_pub.h"],
 [("queued and in-flight lists, reference counts", "pub.c")],
 ["return values and release callbacks after every operation against an executable model"])

prop("R11", "Control messages arrive intact, in order and exactly once, or fail",
 "Every control message whose write call reports success reaches the publisher's callback exactly once, unmodified, in the order written by that subscriber, with the address of that subscriber, as long as the connection stays up; a message whose write call reports an error is never delivered, in whole or in part. Messages addressed by node id or by address go to that publisher and no other, and are dropped harmlessly when the publisher has set no callback.",
 ["inputs", "schedules", "histories"],
 "For every message size that fits, every interleaving with acknowledgements, every fragmentation and back-pressure of the TCP channel, and every wrap position of the send and receive buffers.",
 "The protocol tests send one short message on a fresh connection.",
 ["rmc_sub_write.c", "rmc_pub_read.c", "circular_buffer.c", "rmc_connection.c"],
 [("message framing", "rmc_sub_write.c: rmc_sub_write_control_message"), ("dispatch", "rmc_pub_read.c: process_control_message"),
  ("routing", "rmc_connection.c: rmc_conn_find_by_node_id, rmc_conn_find_by_address")],
 ["control message callback against the log of successful write calls"])

prop("R12", "TCP stream processing does not depend on fragmentation",
 "The effect of a byte stream on the control channel (packets accepted, acknowledgements applied, control messages delivered, connection errors) depends only on its bytes, never on how the transport splits them into reads or how often the reader is woken up without data. Each command takes effect exactly once, in the read call that receives its last byte, and outgoing commands reach the wire whole and in order however few bytes each write accepts.",
 ["inputs", "schedules"],
 "For every split of the stream, including single bytes, splits inside headers and payloads, many commands per read, streams far longer than the buffers, and wake-ups without data.",
 "On loopback every command arrives in a single read.",
 ["rmc_protocol.c", "rmc_pub_read.c", "rmc_sub_read.c", "circular_buffer.c"],
 [("incremental command parser", "rmc_protocol.c: rmc_conn_tcp_read, rmc_conn_process_tcp_read"),
  ("partial writes", "rmc_protocol.c: rmc_conn_process_tcp_write")],
 ["callbacks and releases against an independent parse of the byte stream"])

prop("R13", "Hostile network input cannot harm the process or honest peers",
 "No datagram and no TCP byte stream, however malformed, truncated, oversized or adversarial, makes the library access memory outside its objects, execute undefined behaviour, terminate the process, loop without end or spin on input it will never consume. Honest peers connected at the same time keep their ordering and delivery guarantees, and honest peers can still connect afterwards.",
 ["inputs", "schedules", "histories"],
 "For every datagram and byte stream sent to the multicast port, to a publisher's control port or by a publisher a subscriber connected to, mixed with honest traffic.",
 "No test sends a malformed byte.",
 ["rmc_sub_read.c", "rmc_pub_read.c", "rmc_protocol.c", "rmc_connection.c", "pub.c", "sub.c"],
 [("length checks", "rmc_sub_read.c: process_multicast_read, process_cmd_packet; rmc_pub_read.c"),
  ("unknown command handling", "rmc_protocol.c: rmc_conn_process_tcp_read")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, per-case work bound", "delivery monitors of the honest peers"])

prop("R14", "Throttling suspends and resumes exactly at its thresholds",
 "With throttling configured, queueing is refused with a busy error exactly from the moment the number of sent but unreleased packets is found at or above the suspend threshold after a packet was queued, until that number has fallen to the resume threshold or below, whether through acknowledgements, resends or subscribers leaving; refused packets are neither sent nor released. Inconsistent thresholds are rejected without changing the configuration, and without throttling queueing is never refused as busy.",
 ["histories", "schedules", "configurations"],
 "For every pair of thresholds and every history of queueing, sending, acknowledging, resending and disconnecting.",
 "No unit test sets a threshold.",
 ["rmc_pub_packet.c", "rmc_pub_context.c", "rmc_pub_read.c", "pub.c"],
 [("suspend flag", "rmc_pub_packet.c: rmc_pub_queue_packet, rmc_pub_packet_ack")],
 ["return value of rmc_pub_queue_packet and rmc_pub_traffic_suspended against a model fed from sends and releases"])

prop("R15", "Announcement and discovery set up one subscription per publisher",
 "An active publisher with an announce interval multicasts an announcement carrying the callback's payload when the interval elapses, then one per interval, and none when the callback declines or the interval is zero. A subscriber reports each announcement of a publisher it is not subscribed or connecting to, with that publisher's address, port, node id and payload, connects exactly when its callback agrees (always without one), never holds two connections to one publisher, and never delivers an announcement as data. After a lost or failed connection the next announcement sets the subscription up again.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "For every interval, loss/duplication/reordering of announcements, connect latency or failure, and callback decision sequence.",
 "The protocol tests see one announcement that is accepted immediately.",
 ["rmc_pub_timeout.c", "rmc_sub_read.c", "rmc_connection.c", "rmc_pub_write.c", "rmc_sub_write.c"],
 [("announce timer", "rmc_pub_timeout.c: rmc_pub_timeout_process"), ("discovery", "rmc_sub_read.c: decode_unsubscribed_multicast; rmc_connection.c: rmc_conn_connect_tcp_by_address")],
 ["announcements on the wire", "announce and subscription-complete callbacks", "connect calls"])

prop("R16", "Poll registrations mirror the sockets and their pending work",
 "Every socket the library opens is announced once through the add callback, only announced descriptor/index pairs are modified, and each is removed exactly once, before its descriptor is closed; no descriptor is closed twice, used after closing or leaked, on success or failure. While a connection is up its read interest is on, and write interest is on exactly while there is something to send, so that an application that only acts on reported interest never stalls and never spins.",
 ["histories", "schedules", "fault_sequences"],
 "For every history of connects, failed connects, traffic, back-pressure, disconnects, deactivation and deletion, for applications that apply every change and for those that skip changes reported as no change.",
 "The protocol tests exercise one epoll program whose descriptors stay open until exit.",
 ["rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_pub_read.c", "rmc_sub_read.c", "rmc_pub_packet.c"],
 [("poll callbacks", "all call sites of poll_add, poll_modify, poll_remove"), ("close path", "rmc_connection.c: rmc_conn_close_connection")],
 ["poll callbacks and socket calls against a descriptor table"])

prop("R17", "A faulty subscriber does not disturb the others",
 "A subscriber that stops reading, never acknowledges, disconnects at any moment, sends garbage or acknowledges nonsense does not delay, suppress, reorder or corrupt delivery to any other subscriber of the same publisher, as long as throttling is not configured. The publisher's resend to a healthy subscriber is not held up by a full channel towards another one.",
 ["fault_sequences", "schedules", "histories"],
 "For every kind and moment of misbehaviour of one or more subscribers and any number of healthy ones, with multicast loss at the healthy ones.",
 "The tests never run two subscribers on one publisher, nor a misbehaving one.",
 ["rmc_pub_timeout.c", "rmc_pub_write.c", "rmc_pub_read.c", "pub.c"],
 [("per-subscriber in-flight lists", "pub.c"), ("timeout loop over subscribers", "rmc_pub_timeout.c: rmc_pub_timeout_process")],
 ["bounded-delivery monitor on the healthy subscribers"])

prop("R18", "Reported timeouts are exact and sufficient",
 "The publisher's next timeout is the earlier of the next announcement time and the oldest unacknowledged send time plus the resend timeout; the subscriber's is the oldest unacknowledged arrival time plus the acknowledgement timeout; both report infinite when nothing is pending. An application that sleeps until that time and then calls the timeout function makes progress: what was due is done and the reported time moves on, unless a full channel prevents it. Timeout calls made early do nothing.",
 ["histories", "schedules"],
 "For every history of sends, arrivals, acknowledgements, resends, connects and disconnects, and every moment of asking.",
 "The unit test checks the oldest-packet query on one scripted state; no test checks the context-level timeouts.",
 ["rmc_pub_timeout.c", "rmc_sub_timeout.c", "pub.c", "sub.c", "rmc_sub_packet.c"],
 [("timeout queries", "rmc_pub_timeout.c: rmc_pub_timeout_get_next; rmc_sub_timeout.c: rmc_sub_timeout_get_next")],
 ["returned timestamps against a model built from observed sends, arrivals and acknowledgements"])

prop("R19", "Counters and pending-work reports are exact",
 "At every moment between calls, the reported queue length, pending packet/byte/acknowledgement counts, dispatch-ready count, subscriber, publisher and socket counts and capacities equal what the history of calls, sends, acknowledgements, connections and disconnections implies. The pending query reports busy exactly while something is queued, unsent or unacknowledged.",
 ["histories", "schedules"],
 "For every reachable state of publishers and subscribers.",
 "The tests use these numbers to decide when to exit but never compare them with the truth.",
 ["rmc_pub_write.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_connection.c", "rmc_sub_packet.c", "pub.c"],
 [("pending query", "rmc_pub_write.c: rmc_pub_context_get_pending"), ("connection counters", "rmc_connection.c")],
 ["query results after every call against the monitor's own accounting"])

prop("R20", "Slots are reusable and a new subscription starts clean",
 "After any number of disconnects, failed connects, rejections and re-subscriptions, all advertised connection capacity is usable again, up to capacity and no further. A new subscription, also on a reused slot and after the contexts were deactivated and reactivated, starts with the first packet received on it and inherits nothing (packets, acknowledgements, partial commands, addresses, unsent data) from an earlier one.",
 ["histories", "fault_sequences", "configurations"],
 "For every sequence of connects, disconnects (from either side, at any moment), rejections, connection failures and reactivations, at every capacity.",
 "The tests connect once and exit.",
 ["rmc_connection.c", "rmc_pub_read.c", "rmc_sub_read.c", "rmc_sub_write.c", "sub.c", "pub.c"],
 [("slot allocation and reset", "rmc_connection.c: _get_free_slot, rmc_conn_reset_connection, rmc_conn_close_connection"),
  ("publisher/subscriber state reset", "sub.c: sub_init_publisher, sub_reset_publisher; pub.c: pub_init_subscriber, pub_reset_subscriber")],
 ["connections established at capacity", "delivery and stream monitors per subscription"])

prop("R21", "Publishers and contexts are independent of each other",
 "Loss, delay, disconnection or misbehaviour of one publisher never delays, blocks, reorders or mixes up delivery and acknowledgement of another one at the same subscriber. Contexts share no mutable state: contexts of one process, driven from different threads, neither race nor influence each other.",
 ["schedules", "histories", "configurations"],
 "For any number of publishers per subscriber and contexts per process, for every interleaving of their traffic, and for concurrent execution on threads that do not share a context.",
 "The tests run one context per process.",
 ["rmc_sub_read.c", "rmc_sub_packet.c", "rmc_sub_timeout.c", "rmc_connection.c", "sub.c"],
 [("per-connection publisher state", "rmc_sub_context.publishers"), ("lookup by publisher address", "rmc_connection.c: rmc_conn_find_by_address")],
 ["per-publisher delivery monitors", "ThreadSanitizer over concurrently driven contexts"])

prop("R22", "Failing system calls are survived",
 "When any single system call fails with an error it can return, the library neither crashes, terminates the process, leaks or double-closes descriptors, nor leaves inconsistent poll registrations or memory; an initialisation that fails reports an error and can be retried. Once the failure is over, the affected contexts work again: packets queued stay queued and are sent, lost connections are re-established by the next announcement, and ordering and exactly-once hold throughout.",
 ["fault_sequences", "schedules"],
 "For every system call the library makes in a session from initialisation to deletion, at every occurrence, and every errno of a per-call list; single faults enumerated, multiple faults sampled.",
 "No test makes a system call fail.",
 ["rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c", "rmc_protocol.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_pub_read.c"],
 [("error paths", "rmc_pub_activate_context, rmc_sub_activate_context, rmc_conn_process_accept, rmc_conn_complete_connection, rmc_conn_tcp_read, rmc_conn_process_tcp_write")],
 ["injected failure per call index; descriptor, poll, memory and delivery monitors"])

prop("R23", "Callbacks get the documented arguments at the documented moments",
 "Every callback receives the application's current user data or its context, and one that was not given is not missed; connect and disconnect callbacks and control messages report the peer's real address and port in host byte order; a rejected subscriber is disconnected and receives nothing. The subscription-complete callback fires once per established subscription and never for a failed one, the packet-ready callback fires in every read call that makes packets available and never without one, and the disconnect callback fires exactly once per accepted subscriber that goes away.",
 ["histories", "schedules", "configurations"],
 "For every configuration of set and unset callbacks, callback decision, user-data change and order of connects, disconnects and traffic.",
 "The protocol tests print the arguments but do not check them.",
 ["rmc_pub_read.c", "rmc_sub_read.c", "rmc_sub_write.c", "rmc_connection.c", "rmc_pub_context.c", "rmc_sub_context.c"],
 [("callback invocations", "rmc_pub_read.c: rmc_pub_read, rmc_pub_close_connection; rmc_sub_write.c: rmc_sub_write; rmc_sub_read.c")],
 ["callback log against connection and datagram logs"])

prop("R24", "Library calls never block the caller",
 "No library call waits for the network or for another process: every socket operation that could wait is made non-blocking or is only made when it can complete at once, also towards peers that do not read, do not answer or vanish between the poll event and the call. Each call does an amount of work bounded by what is queued and what its socket has received, and ends once that is used up.",
 ["schedules", "fault_sequences", "inputs"],
 "For every peer behaviour and every state of the socket buffers at the moment of each call made on a reported poll event or timeout.",
 "On an idle loopback every call completes at once.",
 ["rmc_connection.c", "rmc_protocol.c", "rmc_pub_write.c", "rmc_sub_read.c", "rmc_pub_read.c"],
 [("O_NONBLOCK on TCP sockets", "rmc_connection.c"), ("MSG_DONTWAIT on multicast", "rmc_pub_write.c, rmc_sub_read.c")],
 ["a socket layer that flags any operation that would have waited; per-call system-call budget"])

prop("R25", "Logging never changes behaviour",
 "The observable behaviour (socket traffic, callbacks, results, deliveries) of any session is identical at every log level, and producing the log output is itself free of memory errors for every value logged.",
 ["configurations", "inputs", "histories"],
 "For every log level and every session, including hostile input, error paths and every connection index.",
 "Tests run at the default level only.",
 ["rmc_log.c", "rmc_log.h"],
 [("level-guarded macros", "rmc_log.h"), ("formatter", "rmc_log.c: rmc_log")],
 ["trace of a session at log level none against the trace of the same session at each other level"])

prop("R26", "The wire format is stable and interoperable",
 "Multicast datagrams and TCP commands have the documented layout: a 20-byte little-endian header (packet number, node id, payload length, control address, control port) followed by the payload, packet numbers consecutive from one with zero for announcements, and the resend, interval-acknowledgement and control-message commands in their fixed layouts with no stray bytes. A peer implementing only this format interoperates in either role, also for packet numbers and lengths across their whole range.",
 ["inputs", "histories", "configurations"],
 "For every packet, acknowledgement and message sent or received, every node id, listen address, port, packet number and length.",
 "Both ends of every test are the same build, so a symmetric format change goes unnoticed.",
 ["rmc_protocol.h", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_sub_read.c", "rmc_pub_read.c"],
 [("packed structs", "rmc_protocol.h"), ("header setup", "rmc_pub_write.c: setup_packet_header")],
 ["independent encoder/decoder at the socket boundary"])

prop("R27", "Subscriber receive bookkeeping is an exact reordering buffer",
 "For any arrival sequence of packet numbers, a number is reported as duplicate exactly when it was received before or lies below the start of the stream, the stream starts at the first number processed, and processing releases exactly the longest run of consecutive numbers available, in ascending order, with the payload and length given on arrival. Resetting a publisher frees every packet still held back exactly once and forgets it.",
 ["inputs", "histories"],
 "For every arrival order, batch size, gap pattern and number range, interleaved with processing and resets.",
 "The unit test follows a few scripted orders.",
 ["sub.c", "rmc_sub.h"],
 [("received list and promotion", "sub.c: sub_packet_is_duplicate, sub_packet_received, sub_process_received_packets, sub_reset_publisher")],
 ["dispatch list and duplicate verdicts after every operation against a set model"])

prop("R28", "Calls report truthfully what they did, and failed calls leave no trace",
 "Every read and write call returns success exactly when it did its work, and its operation result names what happened: datagram processed, looped back or not ready, connection accepted, completed or lost, TCP data read or written, or an error. A call that cannot succeed, because its context or argument is missing, its address malformed, its connection index closed or out of range, its payload empty or oversized or its context in the wrong state, returns an error. Such a call has no effect: no callback, no system call, no memory retained, no other connection or report changed.",
 ["inputs", "histories", "configurations"],
 "For every public call with every kind of invalid argument in every state a session can reach, and for every outcome of a read or write.",
 "The tests call the library only with valid arguments and ignore operation results.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_pub_read.c", "rmc_sub_read.c", "rmc_pub_write.c", "rmc_sub_write.c", "rmc_connection.c", "rmc_sub_packet.c", "rmc_pub_packet.c"],
 [("argument checks", "the first lines of every public function; rmc_connection.c: rmc_conn_find_by_index"),
  ("operation results", "rmc_pub_read, rmc_sub_read, rmc_pub_write, rmc_sub_write, rmc_protocol.c: rmc_conn_tcp_read")],
 ["return codes and operation results at the API", "callbacks, system calls and allocations made during the call"])

prop("R29", "Traffic stays within the configured group, port, interface and hop limit",
 "A publisher sends its datagrams to exactly the configured multicast group and port, through the configured interface and with the hop limit last set, and accepts subscribers on exactly the configured control address and port, or the port the system assigned; control connections run without Nagle's delay. A subscriber reacts only to multicast traffic of its own group and port on its configured interface, also next to contexts for other groups, ports or interfaces on the same host, and contexts that share a host and port do not disturb each other. All of this holds again after every deactivation, reactivation and failed activation, except the hop limit, which starts at its default.",
 ["configurations", "histories", "fault_sequences"],
 "For every combination of groups, ports, interfaces, control addresses and hop limits of the contexts on the hosts of a network, and every history of activations.",
 "The tests use one group, one port and one interface, with one context of each kind.",
 ["rmc_pub_context.c", "rmc_sub_context.c", "rmc_connection.c", "rmc_pub_write.c"],
 [("socket setup", "rmc_pub_context.c: rmc_pub_activate_context, rmc_pub_set_multicast_ttl; rmc_sub_context.c: rmc_sub_activate_context"),
  ("control connections", "rmc_connection.c: rmc_conn_process_accept, rmc_conn_complete_connection")],
 ["destination, interface and hop limit of every datagram, options of every socket", "traffic of foreign groups, ports and interfaces offered to every subscriber"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

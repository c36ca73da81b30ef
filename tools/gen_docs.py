#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here once)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

RX = "src/messages/receiver.rs"
SUBS = ["src/messages/ack_nack.rs", "src/messages/gap.rs", "src/messages/heartbeat.rs",
        "src/messages/heartbeat_frag.rs", "src/messages/nack_frag.rs"]
HOOK = "--cfg rtps_sim: re-exports of private items"

prop("M01", "Every submessage of a datagram is delivered once, in order, unchanged",
 "For every well-formed RTPS message received as one datagram, in either byte order per submessage and in any combination of submessages, the receiver hands out exactly the ACKNACK, GAP, HEARTBEAT, HEARTBEAT_FRAG and NACK_FRAG submessages it holds, once each and in order, with the identifiers, numbers, number sets, counts and flags that were sent, and reports no error for it. "
 "A last submessage whose length is zero extends to the end of the message. "
 "Nothing carries over from one datagram to the next, whatever datagrams were lost, duplicated, reordered or cut off by a restart in between.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every sequence of well-formed messages from several senders, every loss, duplication, reordering, restart and polling order",
 "The existing tests decode one hand-made submessage each (one happy message per kind); no test feeds a decoder a second message, mixes byte orders or combines submessages.",
 [RX] + SUBS,
 [("header then submessages, split off the buffer by length", RX), ("length zero means up to the end of the message", "src/messages/submessage_header.rs")],
 [("decoding state", "whether a header or a submessage comes next", RX)],
 ["items, errors and ends returned by the decoder for each datagram"], HOOK)

prop("M02", "Submessages are interpreted under the state their own message established",
 "When a submessage is delivered, the state it is to be interpreted under is what its own message has established so far: source version, vendor and participant from the message header or the latest INFO_SRC, the destination participant from the latest INFO_DST (the receiving participant, as initially, if that names none), the timestamp of the latest INFO_TS unless invalidated, and the reply locators of the latest INFO_REPLY or INFO_REPLY_IP4, multicast ones only if it has any. "
 "INFO_SRC also takes back the timestamp and the reply locators to invalid ones, and every message begins with no timestamp, the receiving participant as destination, and the initial reply locators. "
 "Nothing of that state comes from another message, whoever sent it and whether or not it was damaged.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every sequence of interleaved intact and damaged messages from several participants, every order of the INFO submessages in them",
 "Existing tests check the state after a single INFO submessage in a fresh receiver; stale state shows only in the second message of a history.",
 [RX, "src/messages/info_source.rs", "src/messages/info_destination.rs", "src/messages/info_reply.rs", "src/messages/info_timestamp.rs", "src/structure/locator_udp_v4.rs"],
 [("state set anew with each header, updated by INFO submessages", RX)],
 [("receiver state", "source, destination, timestamp, reply locators", RX)],
 ["receiver state right after each delivered submessage"], "--cfg rtps_sim: read access to the receiver state")

prop("M03", "No network input makes a receiver panic, hang, or forget what came before damage",
 "Whatever bytes arrive, in however many datagrams, decoding never panics or aborts and always comes to an end. "
 "All submessages which precede the damage in a datagram are delivered, the damage (truncation, counts or lengths which do not fit, a number set of more than 256 bits, a submessage shorter than its contents) is reported as one error, nothing after it is delivered, and the next datagram is decoded as by a fresh receiver. "
 "A datagram without damage causes no error.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of datagrams, intact or with bits, bytes, lengths, counts and kinds overwritten, truncated, spliced, zero-filled or random, at every point, in every order",
 "No existing test feeds malformed bytes to the receiver except two invalid headers; the damage space cannot be listed.",
 [RX, "src/common/bit_set.rs", "src/common/ranged_bit_set.rs", "src/structure/locator.rs", "src/messages/submessage_header.rs"] + SUBS,
 [("frames are taken off the buffer only when complete; errors drop the rest of the message", RX), ("limit on the size of bitmaps", "src/common/bit_set.rs")],
 [("decoding state after an error", "must be that of a fresh receiver", RX)],
 ["items, errors, panics and ends for each datagram"], HOOK)

prop("M04", "Unknown submessages, trailing content and padding are skipped exactly",
 "A submessage of a kind the receiver does not know, padding of any length, and content a submessage has beyond what this version of the protocol defines, of any size, are skipped without an error and exactly up to where the next submessage starts by the declared length. "
 "All submessages around them are delivered with the values and under the state as if they were not there.",
 ["inputs", "histories", "schedules"],
 "every message in which unknown kinds, vendor-specific kinds, padding and extended submessages of any length are mixed with known ones, in either byte order, and every sequence of such messages",
 "The existing tests never send an unknown kind or a submessage longer than its contents followed by another one.",
 [RX, "src/messages/submessage_kind.rs", "src/messages/submessage_header.rs", "src/messages/pad.rs"],
 [("split by declared length", RX)],
 (), ["items and state after skipped content"], HOOK)

prop("M05", "Only messages of this protocol and version are interpreted",
 "A datagram is interpreted only if its header is complete, names the RTPS protocol, and has a major version not above 2, whatever its minor version and vendor; all such datagrams are interpreted. "
 "Any other datagram is refused with an error, none of its submessages is delivered, and the datagrams after it are interpreted as by a fresh receiver.",
 ["inputs", "histories"],
 "every protocol identifier, version, vendor and header length, in every sequence of acceptable and unacceptable datagrams",
 "Existing tests try two invalid headers in a fresh decoder and look at nothing that follows them.",
 [RX, "src/messages/header.rs", "src/messages/protocol_id.rs", "src/messages/protocol_version.rs"],
 [("validity of the header", "src/messages/header.rs")], (),
 ["items and errors per datagram"], HOOK)

prop("M06", "Over a byte stream a message decodes the same however its bytes arrive",
 "When a message arrives as a byte stream, the delivered submessages, the state they are interpreted under and the errors are the same for every way its bytes are cut into pieces and every order of arrivals and polls. "
 "Each submessage is delivered as soon as it has arrived completely (one that extends to the end of the message, when the stream ends) and never before; polling again without new bytes changes nothing. "
 "A stream closed inside a header or submessage is reported as an error after everything complete was delivered, and the decoder can then be used for the next stream.",
 ["inputs", "schedules", "fault_sequences"],
 "every partition of every message into reads, every interleaving of arrivals and polls, every point of close, reset and restart",
 "All existing tests put one complete message into the buffer at once; partial input, the very purpose of a stream decoder, is never tried.",
 [RX], [("a frame is decoded only once all of it is there", RX), ("end of stream ends the message", RX)],
 [("decoding state across calls", "between two calls with partial input", RX)],
 ["FramedRead items; decode and decode_eof results"], HOOK)

prop("M07", "Memory taken for input is bounded by the size of the input",
 "While decoding a datagram or stream of n bytes the receiver takes memory in proportion to n plus a constant, whatever counts and lengths the bytes declare. "
 "What it keeps afterwards is bounded by the largest message received, however many messages it has processed.",
 ["inputs", "histories"],
 "every datagram or stream, hostile counts of locators and bits included, and every long history of them",
 "No existing test observes memory, and a count of four thousand million with nothing behind it is not among their inputs.",
 [RX, "src/structure/locator.rs", "src/common/bit_set.rs"],
 [("no reservation beyond what the remaining bytes can hold", "src/structure/locator.rs"), ("bitmaps limited to 256 bits", "src/common/bit_set.rs")],
 (), ["allocator: peak during each call, live bytes of the receiver"], HOOK)

prop("C01", "Every wire type round-trips through streams and buffers, and never from a part",
 "Each value of each wire type (entity ids, prefixes, GUIDs, sequence and fragment numbers, counts, times, durations, locators and their lists, protocol ids and versions, vendor ids, message and submessage headers, instance handles, topic and reliability kinds, parameters and their ids, number sets, and all submessages) has, in each byte order, exactly the bytes the protocol gives it, and reads back as the same value (a parameter with its padding to four bytes), taking exactly those bytes, from a stream with short and interrupted reads as from a buffer holding more. "
 "A part of those bytes never reads back as a value, and a write to a stream that fills up is reported as failed with only a prefix written. "
 "Values of a type with different bytes are not equal, and discriminants which do not exist are refused.",
 ["inputs", "schedules", "fault_sequences"],
 "every value of every wire type, both byte orders, every cutting of reads and writes, every point where the stream fills up, closes or resets",
 "Existing tests encode and decode a few constants per type through buffers; none uses a stream, a partial buffer, or a value at the edge of a type.",
 ["src/structure/entity_id.rs", "src/structure/guid.rs", "src/structure/guid_prefix.rs", "src/structure/sequence_number.rs", "src/structure/time.rs", "src/structure/duration.rs", "src/structure/locator.rs", "src/structure/locator_udp_v4.rs", "src/structure/instance_handle.rs", "src/messages/header.rs", "src/messages/submessage_header.rs", "src/messages/vendor_id.rs", "src/messages/protocol_id.rs", "src/messages/submessage_elements/parameter.rs", "src/common/ranged_bit_set.rs"] + SUBS,
 [("hand-written and derived codecs, minimum lengths", "src/structure, src/messages")], (),
 ["bytes written, values read, bytes consumed, errors"], HOOK + "; constructors for private fields")

prop("L01", "Replies reach exactly the addresses a request named",
 "A socket address of either family put into a locator, sent in an INFO_REPLY or (IPv4) a compact INFO_REPLY_IP4, and read by the receiver comes back as the same address and port, IPv4 ones as IPv4 and IPv6 ones, also IPv4-mapped or -compatible, as IPv6, so that replies reach exactly the unicast and multicast addresses the request named and nobody else. "
 "Locators of another implementation in a known address family are read the same way. "
 "Wildcard addresses and locators of any other kind are no address anybody can be reached at.",
 ["inputs", "histories", "fault_sequences"],
 "every set of requesters and addresses close to each other, every interleaving, loss, duplication and restart on other ports",
 "Existing tests convert a handful of addresses; none sends a locator through a message and uses what was received.",
 ["src/structure/locator.rs", "src/structure/locator_udp_v4.rs", RX],
 [("conversion between locators and socket addresses", "src/structure/locator.rs"), ("compact locators", "src/structure/locator_udp_v4.rs")],
 (), ["reply locators in force, and the addresses they convert to"], HOOK)

prop("T01", "Timestamps preserve instants and their order across the network",
 "A clock reading from 1970 to 2038 becomes a timestamp in seconds and 2^-32 fractions which travels unchanged and is read back at most a nanosecond earlier, so that readings a nanosecond apart keep their order as timestamps, and never appear in the opposite order when read back. "
 "A clock reading before or after that range becomes the invalid timestamp and never one of another instant; a timestamp with negative seconds never reads as an instant. "
 "Any timestamp another implementation sends is read, or refused, without a panic.",
 ["inputs", "histories", "fault_sequences"],
 "every set of skewed and jumping clocks, every sequence of stamps down to a nanosecond apart, every foreign timestamp",
 "Existing tests convert four fixed instants; order, range and round trip over all instants are not sampled.",
 ["src/structure/time.rs", "src/messages/info_timestamp.rs", RX],
 [("conversion between clock readings and timestamps", "src/structure/time.rs")], (),
 ["timestamps in force, instants they convert to"], "--cfg rtps_sim: raw parts of a timestamp")

prop("T02", "Announced durations mean the same to the peer, so leases expire exactly on time",
 "A duration a participant announces among other parameters, of any lengths, is understood by its peer as exactly that duration if its seconds fit 31 bits and otherwise as no shorter than the largest of those, so that a lease never ends early or late. "
 "Each parameter occupies a multiple of four bytes on the wire, its declared length says so, its value is found unchanged in front of the padding, and the following parameter is found behind it, also when a foreign peer's declared length leaves the padding out. "
 "Whatever a foreign peer announces is read without a panic, and a negative duration as none.",
 ["inputs", "histories", "fault_sequences"],
 "every duration, every list of parameters in either byte order, every schedule of announcements, losses, crashes and timers, every damaged list",
 "Existing tests convert six fixed durations and write two parameters of convenient sizes.",
 ["src/structure/duration.rs", "src/messages/submessage_elements/parameter.rs", "src/structure/parameter_id.rs"],
 [("conversion between durations", "src/structure/duration.rs"), ("padding", "src/messages/submessage_elements/parameter.rs")], (),
 ["durations understood, expiry times, parameter bytes"], "--cfg rtps_sim: constructors for durations and parameters")

prop("A01", "A number set means exactly the numbers put into it, here and at the receiver",
 "Inserting into a set of sequence or fragment numbers succeeds exactly for numbers from its base up to base plus 255 which it does not contain yet, and otherwise changes nothing. "
 "Sent in an ACKNACK, GAP or NACK_FRAG in either byte order, or built by another implementation with any number of bits up to 256, the set reads at the receiver, in rising order, as exactly the same numbers and base, and can be extended and passed on there like any other. "
 "Two sets are equal exactly if their base and numbers are. Numbers near the ends of their range neither panic nor wrap around.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every base, every sequence of interleaved insertions, every encoding, every delivery order",
 "Existing tests insert and read a few numbers near base 0 or 10, and compare encodings; none reads the members of a decoded set.",
 ["src/common/ranged_bit_set.rs", "src/common/bit_set.rs", "src/structure/sequence_number_set.rs", "src/messages/fragment_number_set.rs", "src/structure/sequence_number.rs", "src/messages/fragment_number.rs"],
 [("window check on insertion", "src/common/ranged_bit_set.rs"), ("bitmap codec", "src/common/bit_set.rs")],
 [("base and bits", "the set", "src/common/ranged_bit_set.rs")],
 ["results of insertions, numbers read from sets"], HOOK)

prop("A02", "Sequence and fragment numbers compare and compute as the integers they are",
 "Sequence numbers are ordered, hashed, added, subtracted, multiplied, divided and converted as the 64-bit signed integers, and fragment numbers as the 32-bit unsigned ones, they stand for, wherever they come from: made on the spot, computed, or received in a submessage. "
 "Checked operations and conversions whose result does not fit, and checked divisions by zero, give none, never a wrapped number and never a panic. The first number is 1.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every sequence of operations on every pair of numbers, on every node they travel to in whatever order",
 "Existing tests check the first number and a few encodings; none computes with a number, compares two, or lets an operation overflow.",
 ["src/structure/sequence_number.rs", "src/messages/fragment_number.rs", "src/checked_impl.rs"],
 [("checked arithmetic", "src/checked_impl.rs"), ("derived order, hash, conversions", "src/structure/sequence_number.rs")],
 (), ["results of operations, comparisons and conversions; numbers delivered"], HOOK)

prop("A03", "Identities are equal exactly if they are the same, and ordered one way",
 "GUIDs and their parts, instance handles, cache changes, protocol versions, vendor ids, counts, times, durations and locators are equal exactly if they agree in every byte, whether made on the spot, copied or received. "
 "Those which are ordered have one total order which agrees with that equality and never changes: versions by major and then minor number, counts as 32-bit signed integers, times and durations by seconds and then fraction. Equal ones, where they can be hashed, hash the same. What is kept in order is found again, and nothing else.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every set of values, however similar, on every node they reach in whatever order and however often",
 "Existing tests compare a value with what it was built from; none looks for one among similar ones, orders any, or compares what came over the network with what is there.",
 ["src/structure/guid.rs", "src/structure/guid_prefix.rs", "src/structure/entity_id.rs", "src/structure/instance_handle.rs", "src/structure/cache_change.rs", "src/structure/count.rs", "src/structure/time.rs", "src/structure/duration.rs", "src/structure/locator.rs", "src/messages/protocol_version.rs", "src/messages/vendor_id.rs"],
 [("derived equality and order", "src/structure/guid.rs")],
 (), ["results of comparisons, lookups in sorted and unsorted directories"], HOOK)

prop("W01", "A writer numbers its changes consecutively, never twice, across restarts",
 "Each change a writer creates has the number after that of its previous one, starting after the last number it was created with (so also after a restart from stored state), and carries exactly the kind, instance and writer it was created for. "
 "The writer reports that number as its last one and its own identity and attributes as given, and other writers are not affected by it.",
 ["histories", "schedules", "crash_points"],
 "every interleaving of publishers and of destinations coming and going, every crash point, every number",
 "The existing test creates two changes with one writer starting at 0.",
 ["src/behavior/stateless_writer.rs", "src/behavior/writer.rs", "src/structure/cache_change.rs", "src/structure/sequence_number.rs"],
 [("number taken from the last one and incremented", "src/behavior/stateless_writer.rs")],
 [("last change sequence number", "number of the latest change", "src/behavior/writer.rs")],
 ["changes created, attributes reported"], "--cfg rtps_sim: the writer is private")

prop("W02", "Each reader is pushed every change once and in order, whatever the history does",
 "For each reader the next change to push is always the one with the lowest number above the last one pushed to it, among those in the history, and none if there is none, wherever the history has gaps, grows, shrinks or is handed over in another order. "
 "The changes listed as unsent to a reader are exactly those above the last one pushed, listing them changes nothing, and readers do not affect each other.",
 ["histories", "schedules", "crash_points"],
 "every history of additions, removals, pushes and looks, readers joining late and restarting, changes of one writer or several in every order, numbers up to the highest there is",
 "Existing tests push four changes to one reader, in order, from one unchanging history.",
 ["src/behavior/reader_proxy.rs", "src/structure/history_cache.rs", "src/structure/cache_change.rs"],
 [("highest number sent so far, minimum over the rest", "src/behavior/reader_proxy.rs")],
 [("highest sent sequence number", "last change pushed", "src/behavior/reader_proxy.rs")],
 ["change returned by each push, changes listed"], HOOK)

prop("W03", "A history cache holds exactly the changes added and not removed",
 "After any sequence of additions, removals and lookups a cache finds a change exactly if it was added and not removed since, with everything it was added with; numbers which differ in any bit are different changes. "
 "The lowest and highest numbers it reports are those of the changes it holds, and none if it holds none. "
 "Removing what is not there, and looking, changes nothing, and a cache rebuilt from storage in any order is the same cache.",
 ["histories", "schedules", "crash_points"],
 "every sequence of additions (also out of order), removals, evictions, lookups, crashes and rebuilds, over the unreliable network",
 "Existing tests add and remove a few changes in order; out-of-order arrival and eviction from the middle are not covered.",
 ["src/structure/history_cache.rs", "src/structure/cache_change.rs", "src/structure/sequence_number.rs"],
 [("linear search and minimum over a vector", "src/structure/history_cache.rs")],
 [("changes", "what is held", "src/structure/history_cache.rs")],
 ["lookups, bounds, contents"], "--cfg rtps_sim: the cache is private")

prop("W04", "Writers find exactly their matched readers and send to exactly their locators",
 "A stateful writer finds a remote reader exactly if a reader of that very identifier, all 16 bytes of it, has been matched, once per match and with that identifier, however similar the identifiers of others. "
 "A stateless writer's destinations are exactly those added and not removed since, compared by kind, address, port and whether inline parameters are expected; removing one which is not there changes nothing, and no removal affects another.",
 ["histories", "schedules", "fault_sequences"],
 "every order of repeated, lost, late and withdrawn announcements with identifiers and locators one bit apart",
 "Existing tests match a single reader and add a single locator.",
 ["src/behavior/stateful_writer.rs", "src/behavior/stateless_writer.rs", "src/behavior/reader_locator.rs", "src/structure/guid.rs", "src/structure/locator.rs"],
 [("lookup by identifier", "src/behavior/stateful_writer.rs"), ("removal by equality", "src/behavior/stateless_writer.rs")],
 [("matched readers", "who is matched", "src/behavior/stateful_writer.rs"), ("reader locators", "where to send", "src/behavior/stateless_writer.rs")],
 ["lookups, list of destinations"], "--cfg rtps_sim: constructors")

prop("W05", "Reliable exchange: every change arrives once, in order, unchanged, eventually",
 "When writers announce with HEARTBEAT, readers request with ACKNACK and writers answer with the change or a GAP, a reader is given every change of a writer at most once, in rising order, as it was written, under the right writer, and never skips a change the writer still has, whatever is lost, repeated, delayed or reordered and whoever crashes, restarts or is partitioned meanwhile. "
 "Once faults stop, within a bounded number of heartbeats every matched reader has been given every change the writer still has, and the writer knows that it has.",
 ["schedules", "histories", "crash_points", "fault_sequences"],
 "every system of up to four participants, three writers and four readers, every schedule and fault sequence",
 "The existing tests have no two parties; the parts of the protocol are never put together.",
 [RX, "src/behavior/reader_proxy.rs", "src/behavior/stateful_writer.rs", "src/behavior/stateless_writer.rs", "src/structure/history_cache.rs", "src/common/ranged_bit_set.rs", "src/common/bit_set.rs"] + SUBS,
 [("numbering, history, pushing, requesting, acknowledging", "src/behavior, src/structure, src/messages")],
 [("history caches, reader proxies, receiver state", "the protocol's state", "src/behavior, src/structure")],
 ["changes given to readers, acknowledgements known to writers, every submessage received"], HOOK)

prop("N01", "Data payloads and fragments reach the application as they were published",
 "The payload and inline parameters of a published change, sent whole or in fragments which arrive in any order, some of them repeated or lost and sent again, reach every matched reader byte for byte.",
 ["inputs", "schedules", "fault_sequences"], "every payload and fragment size, every delivery order",
 "There is nothing to test: payloads do not exist yet.",
 ["src/messages/data.rs", "src/messages/data_frag.rs", "src/structure/data.rs", RX],
 [("unimplemented!()", RX)], (), (), None)

prop("N02", "A stateful writer tracks acknowledgements and forgets readers which leave",
 "A writer considers a change acknowledged by all exactly when every matched reader has acknowledged it, sends again what readers request, and stops considering a reader once it is no longer matched.",
 ["histories", "schedules", "crash_points"], "every history of matches, acknowledgements, requests and departures",
 "There is nothing to test: these operations are declared and not implemented.",
 ["src/behavior/stateful_writer.rs", "src/behavior/reader_locator.rs", "src/behavior/stateless_writer.rs"],
 [("unimplemented!()", "src/behavior/stateful_writer.rs")], (), (), None)

prop("N03", "Predefined identifiers have the values the protocol assigns",
 "Well-known entity ids, submessage kinds, parameter ids, locator kinds, vendor ids and protocol versions have the values the RTPS specification assigns to them, bitmaps have their bits in the order it says, and the fraction of a duration is in its unit.",
 ["inputs"], "every predefined constant",
 "Each constant is settled by reading it against the specification; some of the existing tests fix another reading of it.",
 ["src/structure/entity_id.rs", "src/messages/submessage_kind.rs", "src/structure/parameter_id.rs", "src/structure/locator_kind.rs", "src/common/bit_set.rs", "src/structure/duration.rs"],
 [("constants", "src/structure, src/messages")], (), (), None)

NA = {
 "N01": "DATA and DATA_FRAG are not implemented in this library (decoding them is unimplemented!(), their types have no fields, a change has no payload): there is no behaviour to simulate. That a DATA submessage panics is a recorded finding of M03.",
 "N02": "The operations (creating a stateful writer, its changes, removing a reader, acknowledged-by-all, the change lists of a reader locator, resetting unsent changes) are unimplemented!(): there is no behaviour to simulate.",
 "N03": "Constants have no schedule, clock, fault or history: a simulation decides nothing about them. (Values that travel are compared with an independent codec in C01; the bit order of bitmaps and the unit of Duration_t are taken as the existing tests fix them.)",
}

TECH = {
 "M01": "deterministic simulation: receivers on a simulated lossy datagram network vs a reference decoder",
 "M02": "deterministic simulation: interleaved senders, lossy and corrupting network vs a reference interpreter",
 "M03": "deterministic simulation with fault injection: corrupted, truncated and spliced datagrams vs a reference interpreter",
 "M04": "deterministic simulation: messages with unknown and extended submessages vs a reference decoder",
 "M05": "deterministic simulation: acceptable and unacceptable headers in one history vs a reference decoder",
 "M06": "deterministic simulation: simulated sockets and task schedule under FramedRead, cut, closed and reset at drawn points",
 "M07": "deterministic simulation with fault injection: hostile counts and damage under a counting allocator",
 "C01": "deterministic simulation: streams with short, interrupted and failing I/O vs a reference codec",
 "L01": "deterministic simulation: requests and replies over a simulated network with restarts",
 "T01": "deterministic simulation: skewed and jumping simulated clocks, lossy network",
 "T02": "deterministic simulation: leases on simulated timers, crashes, foreign and damaged announcements",
 "A01": "deterministic simulation: interleaved insertions, lossy network, relays vs a set model",
 "A02": "deterministic simulation: nodes computing with and exchanging numbers over a lossy network vs 128-bit integers",
 "A03": "deterministic simulation: directories fed over a lossy network with crashes vs byte-string sets",
 "W01": "deterministic simulation: interleaved publishers and crashes vs a counter model",
 "W02": "deterministic simulation: interleaved pushes, evictions, joins and crashes vs an ordered-map model",
 "W03": "deterministic simulation: caches fed over a lossy network with crashes vs a map model",
 "W04": "deterministic simulation: lost, repeated and reordered announcements vs a set model",
 "W05": "deterministic simulation: whole reliable protocol under loss, partitions, crashes; safety invariants and bounded liveness",
}

def hook_commits():
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    return [l.split()[0] for l in out.splitlines() if l.split(" ", 1)[1].startswith("sim:")]

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")

note = ("Seeded search over schedules, histories and faults; sampled, not exhaustive. Every run is a pure "
        "function of its seed, every violation is minimised to a tape of choices which replays exactly. ")
EXTRA = {
 "M03": "Trusts the reference interpreter. Silent on the rest of a message after a locator kind the protocol does not define, other than that it ends without a panic. One recorded finding: DATA and DATA_FRAG panic.",
 "M07": "The bounds (16 bytes per byte plus 16 KiB while decoding; 4 plus 16 KiB kept) leave room for other representations.",
 "W05": "The reactions to HEARTBEAT, ACKNACK and GAP, timers and discovery are the harness's, as the library has none; a change travels in the fields of a HEARTBEAT_FRAG, as DATA is not implemented.",
 "T02": "Lease timers and announcements are the harness's; durations, parameters and their codecs are real.",
 "W04": "Stateful writers are created through the seam, as their constructor is unimplemented.",
}
M = dict(version=1, setup_cmd="bash build.sh",
  hooks=dict(guard="--cfg rtps_sim", enable="RUSTFLAGS of build.sh (--cfg rtps_sim, with the values stateless and stateful for the writers' hooks; the crate in sim/ has a path dependency on /repo)", source_commits=hook_commits()),
  checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="Replay: 'bash check.sh replay <file>' runs the minimised tape of a violation again and prints its events.")
for p in P:
    i = p["id"]
    if i in NA: continue
    M["checks"].append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration",
        level_note=note + EXTRA.get(i, "Trusts the reference model in sim/src.")))
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

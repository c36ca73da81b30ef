//! What each property runs, how much of it, and what that covers.

use crate::driver::Prop;
use crate::*;

/// Thorough runs are so many times as many.
const MORE: u64 = 40;

const RECEIVER: &str = "message receiver and its state (src/messages/receiver.rs) with every \
                        submessage, element and bitmap decoder";
const NET: &str = "datagram network and socket queue: simulated (loss, duplication, delay, \
                   reordering), one decode_eof loop per datagram like tokio_util's UdpFramed";
const SENDERS: &str = "senders: workload generator with a reference encoder which shares no code \
                       with the repository, mixed with the repository's own encoders";
const CLOCK: &str = "time, task scheduling: discrete-event queue, every decision drawn from the seed";
const STORAGE: &str = "durable storage: a simulated map, of which only what was stored survives a \
                       crash";

const SAMPLED: &str = "sampled, not enumerated: a clean batch is evidence, not proof";
const ORACLE: &str = "the reference codec and interpreter in sim/src/wire.rs reads the protocol \
                      as the existing tests of the repository do (bit 0 of each bitmap word is \
                      its least significant one; the fraction of a Duration_t is nanoseconds)";
const NO_DATA: &str = "DATA and DATA_FRAG are not decoded by this library (recorded finding of \
                       M03) and kept out of the workload";
const SEAMS: &str = "built with --cfg rtps_sim, which adds constructors and readers for private \
                     items and changes nothing else";

const RULE_RECV: &str = "one run: 1-4 senders, 1-2 receivers, up to 8 generated messages on the \
                         simulated network, with the fault kinds, rates, message shapes and \
                         restarts drawn per run. Non-trivial: at least one comparison of what the \
                         receiver did with the oracle took place; distinct: by the fingerprint of \
                         all events of the run (times, datagrams, deliveries, polls, results)";

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.push(Prop {
        id: "M01",
        run: recv::m01,
        quick: 800_000,
        thorough: 800_000 * MORE,
        rule: RULE_RECV,
        real: &[RECEIVER, "entity submessage encoders"],
        stub: &[NET, SENDERS, CLOCK],
        assumptions: &[SAMPLED, ORACLE, NO_DATA, SEAMS],
    });
    v.push(Prop {
        id: "M02",
        run: recv::m02,
        quick: 800_000,
        thorough: 800_000 * MORE,
        rule: RULE_RECV,
        real: &[RECEIVER, "entity submessage encoders"],
        stub: &[NET, SENDERS, CLOCK],
        assumptions: &[
            SAMPLED,
            ORACLE,
            NO_DATA,
            SEAMS,
            "the state in force is read through the seam right after each delivered \
             submessage",
        ],
    });
    v.push(Prop {
        id: "M03",
        run: recv::m03,
        quick: 800_000,
        thorough: 800_000 * MORE,
        rule: RULE_RECV,
        real: &[RECEIVER, "entity submessage encoders"],
        stub: &[NET, SENDERS, CLOCK],
        assumptions: &[
            SAMPLED,
            ORACLE,
            SEAMS,
            "locator kinds the protocol does not define and compact locators with a port \
             above 65535 may be refused or accepted: the model has no opinion from there to \
             the end of that message, except that there is no panic and no endless loop",
            "built with overflow checks and debug assertions: an arithmetic overflow counts \
             as a panic",
        ],
    });
    v.push(Prop {
        id: "M04",
        run: recv::m04,
        quick: 800_000,
        thorough: 800_000 * MORE,
        rule: RULE_RECV,
        real: &[RECEIVER, "entity submessage encoders"],
        stub: &[NET, SENDERS, CLOCK],
        assumptions: &[SAMPLED, ORACLE, NO_DATA, SEAMS],
    });
    v.push(Prop {
        id: "M05",
        run: recv::m05,
        quick: 1_000_000,
        thorough: 1_000_000 * MORE,
        rule: RULE_RECV,
        real: &[RECEIVER, "header validation"],
        stub: &[NET, SENDERS, CLOCK],
        assumptions: &[SAMPLED, ORACLE, NO_DATA, SEAMS],
    });
    #[cfg(feature = "stream")]
    v.push(Prop {
        id: "M06",
        run: stream::m06,
        quick: 400_000,
        thorough: 400_000 * MORE,
        rule: "one run: 1-3 connections of 1-3 messages each, whose bytes arrive in drawn \
               pieces at drawn times and are read by a task in drawn pieces, with the \
               connection closed, reset or damaged and the task stalled or restarted at drawn \
               points. Non-trivial: at least one comparison with the oracle; distinct: by the \
               fingerprint of all events (arrivals, polls, results)",
        real: &[RECEIVER, "tokio_util::codec::FramedRead (two runs of three)"],
        stub: &[
            "sockets: simulated AsyncRead with short reads, end of stream and resets",
            "executor: the simulator polls",
            SENDERS,
            CLOCK,
        ],
        assumptions: &[
            SAMPLED,
            ORACLE,
            NO_DATA,
            SEAMS,
            "one message per connection: a message has no length of its own, its end is the \
             end of the stream",
        ],
    });
    #[cfg(feature = "mem")]
    v.push(Prop {
        id: "M07",
        run: mem::m07,
        quick: 500_000,
        thorough: 500_000 * MORE,
        rule: "one run: 1-600 datagrams or streams, many of them hostile (counts far beyond \
               what follows) or damaged, or a flood of 2000-6000 small ones, no two alike, \
               through one receiver under a counting allocator. \
               Non-trivial: at least one comparison with the bound; distinct: by the \
               fingerprint of all datagrams",
        real: &[RECEIVER],
        stub: &["allocator: counts live and peak bytes of the thread", SENDERS, CLOCK],
        assumptions: &[
            SAMPLED,
            NO_DATA,
            SEAMS,
            "bounds: 16 bytes of memory per byte received plus 16 KiB while decoding, 4 per \
             byte of the largest datagram plus 16 KiB kept",
        ],
    });
    #[cfg(feature = "codec")]
    v.push(Prop {
        id: "C01",
        run: codec::c01,
        quick: 2_000_000,
        thorough: 2_000_000 * MORE,
        rule: "one run: 1-8 values of drawn wire types written one after the other into a \
               stream and read back, with short and interrupted calls, a sink that fills up, \
               a stream closed or reset at a drawn byte, and buffers cut short or holding \
               more. Non-trivial: at least one comparison; distinct: by the fingerprint of \
               values, cuts and results",
        real: &[
            "Readable and Writable of every wire type",
            "speedy's buffer and stream readers and writers",
        ],
        stub: &["std::io::Read / Write: simulated pipe", SENDERS, CLOCK],
        assumptions: &[
            SAMPLED,
            ORACLE,
            SEAMS,
            "parameters of up to 257 bytes (65532 is the most a length field can say)",
        ],
    });
    #[cfg(feature = "routing")]
    v.push(Prop {
        id: "L01",
        run: routing::l01,
        quick: 1_500_000,
        thorough: 1_500_000 * MORE,
        rule: "one run: 1-4 requesters with up to six neighbouring addresses ask one \
               responder, which replies to the locators it was given, on a network which \
               loses, repeats and delays; requesters restart on other ports; other \
               implementations name any locators. Non-trivial: at least one address \
               compared; distinct: by the fingerprint of all events",
        real: &[
            RECEIVER,
            "locators, compact locators, their conversions and encodings, headers",
        ],
        stub: &[NET, "requesters and responder around the locators", CLOCK],
        assumptions: &[SAMPLED, SEAMS, "ports up to 65535, as UDP has them"],
    });
    #[cfg(feature = "timing")]
    v.push(Prop {
        id: "T01",
        run: timing::t01,
        quick: 2_000_000,
        thorough: 2_000_000 * MORE,
        rule: "one run: 1-3 nodes with skewed, jumping simulated clocks stamp messages down \
               to a nanosecond apart; a receiver reads the timestamps back. Non-trivial: at \
               least one timestamp compared; distinct: by the fingerprint of all events",
        real: &[RECEIVER, "Time_t, its conversions and encodings", "INFO_TS"],
        stub: &["clocks: simulated, with skew and jumps", NET, CLOCK],
        assumptions: &[
            SAMPLED,
            SEAMS,
            "converting from or to a timestamp may round down by up to a nanosecond",
        ],
    });
    #[cfg(feature = "timing")]
    v.push(Prop {
        id: "T02",
        run: timing::t02,
        quick: 500_000,
        thorough: 500_000 * MORE,
        rule: "one run: 1-3 participants announce leases of drawn lengths among other \
               parameters, die at drawn times, and are expired by timers set from what was \
               received; other implementations announce arbitrary durations and damaged \
               parameter lists. Non-trivial: at least one lease compared; distinct: by the \
               fingerprint of all events",
        real: &[
            "Duration_t, its conversions and encodings",
            "parameters and their padding",
            "parameter ids",
        ],
        stub: &["lease timers and announcements around the durations", NET, CLOCK],
        assumptions: &[SAMPLED, ORACLE, SEAMS],
    });
    #[cfg(feature = "sets")]
    v.push(Prop {
        id: "A01",
        run: sets::a01,
        quick: 1_500_000,
        thorough: 1_500_000 * MORE,
        rule: "one run: 1-3 owners build number sets by interleaved insertions in and out of \
               the window, send them in ACKNACK, GAP and NACK_FRAG over the unreliable \
               network, relays extend what they received; other implementations send their \
               own encodings. Non-trivial: at least one comparison; distinct: by the \
               fingerprint of all insertions, messages and readings",
        real: &[
            RECEIVER,
            "number sets (src/common/ranged_bit_set.rs, bit_set.rs) and their encoders",
        ],
        stub: &[NET, SENDERS, CLOCK],
        assumptions: &[SAMPLED, ORACLE, SEAMS],
    });
    #[cfg(feature = "numbers")]
    v.push(Prop {
        id: "A02",
        run: numbers::a02,
        quick: 2_000_000,
        thorough: 2_000_000 * MORE,
        rule: "one run: 1-3 nodes compute with sequence and fragment numbers, compare, sort and \
               convert them and tell each other of them over the unreliable network, until \
               they crash and start over. Non-trivial: at least one comparison; distinct: by \
               the fingerprint of all operations and messages",
        real: &[
            "sequence and fragment numbers: arithmetic, order, hashes, conversions \
             (src/structure/sequence_number.rs, src/messages/fragment_number.rs, \
             src/checked_impl.rs), HEARTBEAT_FRAG and its codec, the message receiver",
        ],
        stub: &[NET, CLOCK],
        assumptions: &[SAMPLED, SEAMS],
    });
    #[cfg(feature = "ident")]
    v.push(Prop {
        id: "A03",
        run: ident::a03,
        quick: 1_000_000,
        thorough: 1_000_000 * MORE,
        rule: "one run: 1-3 nodes keep directories of identifiers, changes, versions, counts, \
               times, vendors or locators they are told of over the unreliable network, sorted \
               by the library's order and unsorted, find them, forget those which leave, and \
               crash. Non-trivial: at least one comparison; distinct: by the fingerprint of \
               all announcements, deliveries and lookups",
        real: &[
            "GUIDs, prefixes, entity ids, instance handles, protocol versions, vendor ids, \
             counts, times, durations, locators, cache changes: equality, order and codecs",
        ],
        stub: &["directories", NET, CLOCK],
        assumptions: &[SAMPLED, SEAMS],
    });
    #[cfg(feature = "stateless")]
    v.push(Prop {
        id: "W01",
        run: behavior::w01,
        quick: 2_000_000,
        thorough: 2_000_000 * MORE,
        rule: "one run: 1-4 writers, bursts of changes by interleaved publishers, crashes \
               after which numbering goes on from what was stored. Non-trivial: at least one \
               change compared; distinct: by the fingerprint of all events",
        real: &["stateless writer, its attributes, cache changes, sequence numbers"],
        stub: &[STORAGE, "publishers", CLOCK],
        assumptions: &[
            SAMPLED,
            SEAMS,
            "sequence numbers up to 2^62",
        ],
    });
    v.push(Prop {
        id: "W02",
        run: behavior::w02,
        quick: 200_000,
        thorough: 200_000 * MORE,
        rule: "one run: a history of up to some hundred changes which grows and shrinks, one \
               to four readers which join late and restart, interleaved pushes and looks, \
               over histories in any order. Non-trivial: at least one push compared; \
               distinct: by the fingerprint of all events",
        real: &["reader proxy, history cache, cache changes, sequence numbers"],
        stub: &[STORAGE, "writer and readers around the proxy", NET, CLOCK],
        assumptions: &[
            SAMPLED,
            SEAMS,
            "changes are added with rising numbers, as a writer numbers them",
        ],
    });
    v.push(Prop {
        id: "W03",
        run: behavior::w03,
        quick: 800_000,
        thorough: 800_000 * MORE,
        rule: "one run: the cache of a writer with bounded depth and those of 1-3 readers, \
               fed over the unreliable network, with evictions, takes, removals of what is \
               not there, crashes and rebuilding from storage in any order. Non-trivial: at \
               least one comparison with the model; distinct: by the fingerprint of all \
               events",
        real: &["history cache, cache changes, sequence numbers"],
        stub: &[STORAGE, "writer and readers around the cache", NET, CLOCK],
        assumptions: &[
            SAMPLED,
            SEAMS,
            "a number is not added while a change of that number is held",
        ],
    });
    #[cfg(feature = "writers")]
    v.push(Prop {
        id: "W04",
        run: behavior::w04,
        quick: 1_500_000,
        thorough: 1_500_000 * MORE,
        rule: "one run: readers and locators whose ids differ in a bit or a byte are \
               announced, repeated, lost and withdrawn in any order at a stateful and a \
               stateless writer, which may restart. Non-trivial: at least one lookup \
               compared; distinct: by the fingerprint of all events",
        real: &[
            "matched readers of the stateful writer",
            "reader locators of the stateless writer",
            "GUIDs and locators, their equality",
        ],
        stub: &["discovery", NET, CLOCK],
        assumptions: &[
            SAMPLED,
            SEAMS,
            "a stateful writer cannot be created or give up a reader without the seam: both \
             are unimplemented",
        ],
    });
    #[cfg(feature = "writers")]
    v.push(Prop {
        id: "W05",
        run: e2e::w05,
        quick: 90_000,
        thorough: 90_000 * MORE,
        rule: "one run: 2-4 participants, 1-3 writers, 1-4 readers; writes, removals, bounded \
               depth, late discovery, crashes at any event (also between numbering and \
               storing a change), restarts under old or new ids, one- and two-way \
               partitions, stalls, loss, duplication, delay and reordering up to a drawn \
               time, then none. Non-trivial: at least one comparison; distinct: by the \
               fingerprint of all events",
        real: &[
            RECEIVER,
            "stateless writer numbering, history caches, reader proxies, matched readers",
            "encoders of headers, submessages, number sets, locators, timestamps",
        ],
        stub: &[
            "the reactions to HEARTBEAT, ACKNACK and GAP, timers and discovery, which this \
             library does not have",
            "DATA: not implemented; a change travels in the fields of a HEARTBEAT_FRAG",
            NET,
            STORAGE,
            CLOCK,
        ],
        assumptions: &[
            SAMPLED,
            SEAMS,
            "liveness: 14 heartbeat periods after the last fault, and four more per 200 \
             changes",
        ],
    });
    v
}

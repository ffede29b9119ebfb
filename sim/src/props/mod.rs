pub mod aggregates;
pub mod ci;
pub mod delivery;
#[cfg(feature = "std")]
pub mod features;
pub mod fields;
pub mod iterators;
pub mod noalloc;
pub mod packets;
pub mod recv;
pub mod sysex;
pub mod text;
pub mod transfer;
use crate::engine::Property;

const SYSEX_REAL: &str = "the whole midi2 crate: message types, resizing, splicing, packet layout, parsers (built from /repo, default + all message features)";
const BUF_STUB: &str = "storage behind midi2::buffer (fixed, exact, over-granting, previously used memory), byte sources (size hints, interruption); real Vec, array and slice storage also used";

pub static PROPS: &[Property] = &[
    Property {
        id: "C01",
        rule: "One seed draws a message form (sysex7 packets, sysex7 bytes, sysex8), its storage, an origin (new, or received from a foreign sender that packs loosely) and up to a dozen payload edits from sources that state, understate or hide their length; after every edit payload, size and addressing are compared with a byte list. Non-trivial: an edit carried at least one byte or wrote one byte. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("sysex payload edits", 1, sysex::payload_edits)],
        quick_runs: 12_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["fault: source hides its length", "received message edited"],
        assumptions: &[],
    },
    Property {
        id: "C02",
        rule: "Edit histories as for C01 and C06 on storage of a drawn capacity with refusals injected (capacity, nth request, transient); the outcome of every fallible edit is compared with list model plus capacity arithmetic. Non-trivial: an edit that carried bytes succeeded, or an edit was refused. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("sysex edits with refusals", 3, sysex::refusals), ("text edits with refusals", 1, text::refusals)],
        quick_runs: 8_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["fault: buffer out of capacity", "fault: transient allocation refusal", "overflow reported"],
        assumptions: &[],
    },
    Property {
        id: "C03",
        rule: "Edit histories in which the byte source unwinds after a drawn number of bytes; after each interruption the message is read completely, decoded by an independent packet decoder, moved on, and must give the exact result of the next full replacement. Non-trivial: an interruption fired. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("interrupted sysex edits", 1, sysex::interrupted)],
        quick_runs: 6_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["fault: edit interrupted"],
        assumptions: &[],
    },
    Property {
        id: "C04",
        rule: "Histories of header changes, growing and shrinking edits, refused and interrupted edits; after every step every packet is decoded independently and its addressing compared with the model. Non-trivial: a header was changed. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("sysex addressing", 2, sysex::addressing), ("text addressing", 1, text::addressing)],
        quick_runs: 12_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["fault: edit interrupted", "fault: edit refused"],
        assumptions: &[],
    },
    Property {
        id: "C05",
        rule: "One of 51 fixed-size kinds, new on clean or used storage or received with random reserved bits, and up to a dozen field edits; after each step all readings and all wire bits are compared with an independent layout table, then the data goes over the link and is read again. Non-trivial: at least one field was edited. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("field edits", 1, fields::field_edits)],
        quick_runs: 15_000_000,
        thorough_runs: 300_000_000,
        big: false,
        must_reach: &["received message edited"],
        assumptions: &[],
    },
    Property {
        id: "C06",
        rule: "Text edit histories on 20 text kinds with texts biased to packet boundaries and multi-byte characters, new and received; text, packet count, padding and packet statuses compared with a string model. Non-trivial: a text that is not empty was written. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("text edits", 1, text::text_edits)],
        quick_runs: 8_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["received message edited"],
        assumptions: &[],
    },
    Property {
        id: "C07",
        rule: "One history run in lock step on differently built storages (vector, array, slice, simulated; clean and used memory; exact and with room); data, readings and refusals have to agree. Non-trivial: the history could be lived through on a second storage and was compared. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("sysex in several storages", 2, sysex::storages), ("text in several storages", 1, text::storages), ("fixed-size messages in several storages", 1, fields::storages)],
        quick_runs: 5_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &[],
        assumptions: &[],
    },
    Property {
        id: "C08",
        rule: "Senders' messages through a link that loses, repeats, reorders, truncates, corrupts and splices, and noise, into every parser; whatever is accepted is read exhaustively, moved, converted and edited. Non-trivial: anything was received at all. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: "the link and its senders (discrete-event simulation with loss, duplication, reordering, corruption, truncation, interleaving), reference encoders for well-formed traffic",
        scenarios: &[("damaged packets", 4, recv::damaged_ump), ("damaged bytes", 1, recv::damaged_bytes)],
        quick_runs: 20_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["fault: packet lost", "fault: packet duplicated", "fault: packets reordered", "fault: packet of another message interleaved", "damaged traffic accepted as a message"],
        assumptions: &[],
    },
    Property {
        id: "C09",
        rule: "Collected runs of packets after link faults; the verdict of the parser is compared with an independent validator of the protocol's structure. Non-trivial: more than one packet's worth was received, or it was judged as a single packet. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: "the link and its senders, reference encoders and decoders for well-formed traffic",
        scenarios: &[("collected packets", 6, recv::whole_ump), ("collected bytes", 1, recv::whole_bytes), ("single packets", 1, recv::whole_packet), ("single packet messages", 1, recv::single)],
        quick_runs: 20_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["fault: packet lost", "fault: packet duplicated", "fault: packets reordered", "whole message among the traffic", "broken message among the traffic"],
        assumptions: &[],
    },
    Property {
        id: "C10",
        rule: "Several senders cut messages into packets which travel over one link; first with faults, then, after faults stop, cleanly; a receiver collecting by type, group and stream must then rebuild every message, equal to what was sent, within one delivery of each. Non-trivial: a message of two packets or more was sent. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: "the link, its clock and its delays, the senders' turns, the receiver's collecting of packets; storage behind midi2::buffer and byte sources as in C01",
        scenarios: &[("several senders, one receiver", 1, delivery::delivery)],
        quick_runs: 2_000_000,
        thorough_runs: 150_000_000,
        big: true,
        must_reach: &["message arrived", "packets of several messages interleaved", "faults stopped, link clean", "fault: link left a partial message behind", "fault: packet lost", "fault: packet duplicated", "fault: packet delayed past others", "fault: edit refused"],
        assumptions: &[],
    },
    Property {
        id: "C11",
        rule: "Chains of conversions between packet and byte form over storages of drawn capacity; kind, fields, payload compared with the source after each, overflow exactly when the result does not fit. Non-trivial: a conversion took place or was refused. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("conversions", 1, transfer::conversions)],
        quick_runs: 16_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["message converted", "overflow reported"],
        assumptions: &[],
    },
    Property {
        id: "C12",
        rule: "Chains of moves between storages of drawn capacity, from received messages with room behind them and from messages constructed in a caller's slice; data and readings compared after each, overflow exactly when the message does not fit. Non-trivial: a move took place or was refused. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("moves", 1, transfer::moves)],
        quick_runs: 12_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["message moved", "overflow reported", "unused room behind the message in its buffer"],
        assumptions: &[],
    },
    Property {
        id: "C13",
        rule: "A seeded consumer drives two clones or more of each iterator by next, nth (including far past the end), size_hint, len, count, last, drop, against the list of its items. Non-trivial: the iterator has items. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: BUF_STUB,
        scenarios: &[("sysex payload iterators", 3, iterators::sysex_iters), ("text iterators", 1, iterators::text_iters), ("packet iterators", 1, iterators::packet_iters)],
        quick_runs: 10_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["jump past the end", "jump far past the end", "words behind the message"],
        assumptions: &[],
    },
    Property {
        id: "C14",
        rule: "Intact and damaged traffic to aggregate and concrete parsers; verdict, kind, data and readings compared by a table of header bits; then edits, moves and conversions on both. Non-trivial: the header bits identify one message type. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: "the damage done in transit; storage behind midi2::buffer for the moves; the table of header bits is the harness's own",
        scenarios: &[("dispatch of packets", 4, aggregates::dispatch), ("dispatch of bytes", 1, aggregates::dispatch_bytes), ("operations on aggregates", 3, aggregates::operations)],
        quick_runs: 16_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["fault: header bit flipped", "no message", "message of a known type", "operation on an aggregate", "aggregate converted", "message moved", "two messages compared"],
        assumptions: &[],
    },
    Property {
        id: "C15",
        rule: "Discovery messages of each version and carrier: field edits against a layout table, damaged messages against a validator, and transport inside system exclusive packets. Non-trivial: at least one field was edited, or something was received, or the message was transported. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: "the link, storage behind midi2::buffer, the layout table of discovery messages is the harness's own",
        scenarios: &[("field edits", 3, ci::edits), ("damaged messages", 3, ci::damaged), ("sent in packets", 1, ci::transport)],
        quick_runs: 16_000_000,
        thorough_runs: 300_000_000,
        big: false,
        must_reach: &["received message edited", "new message edited", "overflow reported", "discovery query accepted", "discovery query rejected", "message arrived", "damaged on the way and rejected", "fault: end byte too early"],
        assumptions: &[],
    },
    Property {
        id: "C18",
        rule: "Construction, reception, edits, moves, conversions and comparisons on arrays, mutable slices and borrowed data under an allocator that counts per thread; any request made inside a call is a violation. Non-trivial: at least two (fixed-size) or three (variable-size) operations in one run, or traffic that was received. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: "the heap (a counting allocator, per thread); byte sources; the damage done in transit; storage is real arrays and slices",
        scenarios: &[("fixed-size messages", 3, noalloc::messages), ("system exclusive", 3, noalloc::exclusives), ("texts", 2, noalloc::texts), ("damaged traffic", 2, noalloc::traffic), ("capability inquiry", 1, noalloc::inquiry)],
        quick_runs: 16_000_000,
        thorough_runs: 300_000_000,
        big: true,
        must_reach: &["message converted", "overflow reported", "fault: header bit flipped", "fault: byte changed", "fault: packet lost"],
        assumptions: &[],
    },
    Property {
        id: "C19",
        rule: "Single packets taken from intact, damaged and random words, edited by group and channel; verdicts and readings compared with an independent single packet decoder. Non-trivial: at least one single-packet operation followed the parse. Distinct: by the hash of the run's ordered operations, faults and outcomes.",
        real: SYSEX_REAL,
        stub: "the link and its senders, the reference decoder of single packets",
        scenarios: &[("arriving packets", 1, packets::arriving)],
        quick_runs: 20_000_000,
        thorough_runs: 400_000_000,
        big: false,
        must_reach: &["packet changed", "no packet", "packet of a known family", "packet with missing words", "fault: header bit flipped", "fault: cut short"],
        assumptions: &[],
    },
    #[cfg(feature = "std")]
    Property {
        id: "C20",
        rule: "the history of another property, lived through by both builds of the library from the same choices; outcome, events and (for one run in four) every line of the history compared",
        real: "the whole midi2 crate twice in one process: built with std and built without it",
        stub: BUF_STUB,
        scenarios: &[("both builds", 1, features::two_builds), ("one family", 1, features::one_family)],
        quick_runs: 5_000_000,
        thorough_runs: 200_000_000,
        big: true,
        must_reach: &["histories compared line by line", "C08", "C06", "its own family"],
        assumptions: &["without std the growable storage is supplied by the simulator and behaves like a vector"],
    },
];

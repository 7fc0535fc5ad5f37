//! The properties: what is simulated and what is checked.

mod build;
mod link;
mod peers;
mod save;
mod share;
mod transport;
mod vals;

use crate::rt::PropFn;

pub struct Spec {
    pub id: &'static str,
    pub run: PropFn,
    /// (runs, seconds)
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    /// seconds of processor time after which a run counts as hanging
    pub cpu_limit: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub time_unit: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub probes: &'static [(&'static str, PropFn)],
}

const ANY: u64 = u64::MAX / 4;

pub fn all() -> Vec<Spec> {
    vec![
        Spec {
            id: "C01",
            run: build::c01,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random sets of compiled-in types, orders of feeding them, hash seeds of the \
                   processes, interleavings of simultaneous builds",
            time_unit: "scheduled steps",
            real: &["LibBuilder", "SymbolicLib", "TypeLib", "derived types (strict_encoding)"],
            stub: &["thread scheduler", "random hash keys (getrandom)"],
            assumptions: &["SHA-256 of the sha2 crate is correct"],
            probes: &[],
        },
        Spec {
            id: "C14",
            run: build::c14,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random registries of library versions, lost, late and partial announcements, \
                   simultaneous builds",
            time_unit: "announcements and scheduled steps",
            real: &["LibBuilder", "SymbolicLib", "TypeLib", "SystemBuilder", "derived types (strict_encoding)"],
            stub: &["network", "thread scheduler", "random hash keys (getrandom)"],
            assumptions: &["SHA-256 of the sha2 crate is correct"],
            probes: &[],
        },
        Spec {
            id: "C02",
            run: link::c02,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random worlds of libraries, delivery schedules and crashes",
            time_unit: "message deliveries",
            real: &["SystemBuilder", "SymbolicSys", "TypeSystem", "Symbols", "TypeLib"],
            stub: &["network", "nodes' durable storage (snapshots of the builder)"],
            assumptions: &["SHA-256 of the sha2 crate is correct"],
            probes: &[(link::AMBIGUOUS, link::c02_probe)],
        },
        Spec {
            id: "C03",
            run: link::c03,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random worlds of libraries, some never arriving, some not providing what \
                   is referenced",
            time_unit: "message deliveries",
            real: &["SystemBuilder", "SymbolicSys", "TypeSystem", "TypeLib"],
            stub: &["network", "nodes' durable storage (snapshots of the builder)"],
            assumptions: &["SHA-256 of the sha2 crate is correct"],
            probes: &[],
        },
        Spec {
            id: "C04",
            run: link::c04,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random systems, parts, delivery schedules and crashes",
            time_unit: "message deliveries",
            real: &["TypeSystem", "SystemBuilder", "ascii armor", "strict encoding"],
            stub: &["network", "nodes' durable storage (snapshots of the system)"],
            assumptions: &["SHA-256 of the sha2 crate is correct"],
            probes: &[],
        },
        Spec {
            id: "C09",
            run: vals::c09,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random types, values, and delivery plans of the streams, over up to three \
                   hops",
            time_unit: "stream calls",
            real: &["TypeSystem::strict_read_type", "strict_write_value", "typify", "StreamReader"],
            stub: &["source and destination streams"],
            assumptions: &[],
            probes: &[],
        },
        Spec {
            id: "C10",
            run: vals::c10,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random types, values, and failures of the streams",
            time_unit: "values read",
            real: &["TypeSystem::strict_read_type", "strict_write_value", "StreamReader"],
            stub: &["source and destination streams"],
            assumptions: &[],
            probes: &[],
        },
        Spec {
            id: "C11",
            run: peers::c11,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random values of compiled-in types, routes over compiled-in and dynamic \
                   peers, delivery plans, damage",
            time_unit: "scheduled steps",
            real: &["derived types (strict_encoding)", "LibBuilder", "SystemBuilder", "SymbolicSys::strict_read_type", "strict_write_value", "typify"],
            stub: &["source and destination streams", "thread scheduler"],
            assumptions: &["the derived encoders of strict_encoding define the format"],
            probes: &[(peers::CHARS, peers::c11_probe)],
        },
        Spec {
            id: "C13",
            run: share::c13,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random type systems, operations of several threads on them, interleavings, \
                   failing and stalled streams",
            time_unit: "scheduled steps",
            real: &["SymbolicSys", "TypeSystem", "SystemBuilder", "LibBuilder", "typify", "strict_read_type", "strict_write_value"],
            stub: &["source and destination streams", "thread scheduler", "random hash keys (getrandom)"],
            assumptions: &["control changes hands only at calls of streams and sample values and between operations"],
            probes: &[],
        },
        Spec {
            id: "C12",
            run: vals::c12,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random types, and damaged or random data",
            time_unit: "messages",
            real: &["TypeSystem::strict_read_type", "strict_deserialize_type", "StreamReader"],
            stub: &["source stream", "memory limit (allocator)"],
            assumptions: &[],
            probes: &[(vals::EMPTY_ITEMS, vals::c12_probe)],
        },
        Spec {
            id: "C05",
            run: transport::c05,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random libraries and systems, routes of transport forms, delivery plans and \
                   failures of the streams, several transfers at a time",
            time_unit: "hops",
            real: &["TypeLib", "SymbolicLib", "SymbolicSys", "Symbols", "TypeSystem", "strict encoding", "ascii armor", "serde"],
            stub: &["source and destination streams", "thread schedule"],
            assumptions: &[],
            probes: &[],
        },
        Spec {
            id: "C06",
            run: transport::c06,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random libraries and systems, and damage to their stored forms",
            time_unit: "messages",
            real: &["TypeLib", "SymbolicLib", "SymbolicSys", "Symbols", "TypeSystem", "SystemBuilder", "TypeTree", "strict encoding", "ascii armor"],
            stub: &["source stream", "memory limit (allocator)"],
            assumptions: &["SHA-256 of the sha2 crate is correct"],
            probes: &[
                (transport::AMBIGUOUS, transport::c06_ambiguous),
                (transport::CYCLE, transport::c06_cycle),
            ],
        },
        Spec {
            id: "C07",
            run: save::c07,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random libraries, formats, targets and device faults",
            time_unit: "device writes",
            real: &["TypeLib::serialize", "SymbolicLib::serialize", "ascii armor", "std::fs", "std::io::stdout"],
            stub: &["system calls of the file system and of the standard output (faults injected)"],
            assumptions: &["close(2) reports no error (std ignores it)"],
            probes: &[],
        },
        Spec {
            id: "C08",
            run: save::c08,
            quick: (ANY, 20),
            thorough: (ANY, 600),
            cpu_limit: 60,
            level: "exploration",
            rule: "seeded random libraries, older files, crash points, torn and lost writes",
            time_unit: "device operations and restarts",
            real: &["TypeLib::serialize", "strict_deserialize_from_file", "ascii armor", "std::fs"],
            stub: &["durability of the storage device (crash images of the logged operations)"],
            assumptions: &["truncation, creation and file size are ordered with the data"],
            probes: &[(save::LOST_SECTORS, save::c08_probe)],
        },
    ]
}

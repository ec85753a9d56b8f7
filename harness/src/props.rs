//! The registered properties.
use crate::runner::{Engine, Prop};

const PDB: &[&str] = &["rekordcrate::pdb (all modules), rekordcrate::util, binrw"];
const ALL: &[&str] =
    &["rekordcrate (pdb, anlz, setting, xml, xor, util, device::get_playlists), binrw, quick-xml"];
const DISK: &[&str] = &["the storage stream: simulated disk with write-back cache (simio.rs)"];

const TOOL: &[&str] =
    &["the rekordcrate command-line tool and library as a process, std"];
const SYS: &[&str] = &["the operating system's file calls, standard output, allocator and randomness: decided by the shim (shim.c)"];

pub fn all() -> &'static [Prop] {
    &[
        Prop {
            id: "C01",
            run: crate::reading::c01,
            quick: 300_000,
            thorough: 15_000_000,
            engine: Engine::Lib,
            rule: "Generated, real and damaged files of every format, read through a stream that answers in pieces or interrupts, with and without a buffered reader.",
            real: ALL,
            stub: DISK,
            must: &["compared_value", "compared_error", "through_bufreader"],
        },
        Prop {
            id: "C02",
            run: crate::writing::c02,
            quick: 150_000,
            thorough: 7_500_000,
            engine: Engine::Lib,
            rule: "Databases after edits and insertions, pages, analysis and settings files written at any position to a stream that accepts pieces or interrupts.",
            real: ALL,
            stub: DISK,
            must: &["flush", "page", "anlz", "setting"],
        },
        Prop {
            id: "C03",
            run: crate::reading::c03,
            quick: 300_000,
            thorough: 15_000_000,
            engine: Engine::Lib,
            rule: "Generated and real files of every format, read through a stream that fails or ends at a drawn step, or that is cut short.",
            real: ALL,
            stub: DISK,
            must: &["same_data", "fault_reported"],
        },
        Prop {
            id: "C11",
            run: crate::reading::c11,
            quick: 100_000,
            thorough: 5_000_000,
            engine: Engine::Lib,
            rule: "Generated and real files of every format, damaged (flips, overwrites, zeroing, truncation, splices, moved blocks), read, printed and written back.",
            real: ALL,
            stub: DISK,
            must: &["value", "error", "anlz_value", "anlz_error", "xml_error", "setting_error", "flush_ok"],
        },
        Prop {
            id: "C16",
            run: crate::writing::c16,
            quick: 25_000,
            thorough: 1_500_000,
            engine: Engine::Lib,
            rule: "Analysis files with song structures, read and written under short transfers, interruptions and failing calls; the cipher is computed independently.",
            real: &["rekordcrate::anlz, rekordcrate::xor, binrw"],
            stub: DISK,
            must: &["read_same", "read_failure_reported", "written_same", "write_failure_reported"],
        },
        Prop {
            id: "C18",
            run: crate::writing::c18,
            quick: 200_000,
            thorough: 10_000_000,
            engine: Engine::Lib,
            rule: "Databases after edits and insertions, pages, analysis and settings files written to a stream that fails at a drawn step, accepts nothing or is full.",
            real: ALL,
            stub: DISK,
            must: &["failure_reported", "complete"],
        },
        Prop {
            id: "C04",
            run: crate::hist::c04,
            quick: 60_000,
            thorough: 3_000_000,
            engine: Engine::Lib,
            rule: "Random histories of open/load/edit/insert/flush/close/drop/crash/reopen of a generated database.",
            real: PDB,
            stub: DISK,
            must: &[],
        },
        Prop {
            id: "C05",
            run: crate::hist::c05,
            quick: 100_000,
            thorough: 5_000_000,
            engine: Engine::Lib,
            rule: "Histories of edits and insertions, then flushes that crash or fail at a drawn I/O step.",
            real: PDB,
            stub: DISK,
            must: &[],
        },
        Prop {
            id: "C06",
            run: crate::hist::c06,
            quick: 40_000,
            thorough: 2_000_000,
            engine: Engine::Lib,
            rule: "Histories of edits, then flushes that fail at a drawn I/O step, then retries.",
            real: PDB,
            stub: DISK,
            must: &[],
        },
        Prop {
            id: "C07",
            run: crate::hist::c07,
            quick: 150_000,
            thorough: 7_000_000,
            engine: Engine::Lib,
            rule: "Histories without flush, with failing loads and dropped handles.",
            real: PDB,
            stub: DISK,
            must: &[],
        },
        Prop {
            id: "C08",
            run: crate::hist::c08,
            quick: 120_000,
            thorough: 6_000_000,
            engine: Engine::Lib,
            rule: "Random access orders and paths with loads failing at drawn I/O steps.",
            real: PDB,
            stub: DISK,
            must: &[],
        },
        Prop {
            id: "C10",
            run: crate::ins::c10,
            quick: 24_000,
            thorough: 1_000_000,
            engine: Engine::Lib,
            rule: "Histories of allocations of any size (inserted or abandoned), flushes, failing flushes and reopenings on data pages of any fill.",
            real: PDB,
            stub: DISK,
            must: &["inserted", "abandoned", "refused", "new_row_group", "refused_counts_full", "reopened"],
        },
        Prop {
            id: "C09",
            run: crate::walk::c09,
            quick: 200_000,
            thorough: 10_000_000,
            engine: Engine::Lib,
            rule: "Walks over pages and rows of tables with intact and broken chains, with loaded pages and failing reads, advanced again after errors.",
            real: PDB,
            stub: DISK,
            must: &["walk_reported_error", "row_walk_reported_error"],
        },
        Prop {
            id: "C13",
            run: crate::walk::c13,
            quick: 200_000,
            thorough: 10_000_000,
            engine: Engine::Lib,
            rule: "Playlist trees of any shape over any page layout and hash seed, edited in memory, with cycles, broken chains and failing reads.",
            real: &["rekordcrate::device::get_playlists", "rekordcrate::pdb", "binrw"],
            stub: DISK,
            must: &["tree_compared", "cycle_or_broken_chain_reported", "fault_reported"],
        },
        Prop {
            id: "C12",
            run: crate::cli::c12,
            quick: 6000,
            thorough: 300000,
            engine: Engine::Proc,
            rule: "Device exports with settings files that are fine, missing, cut short, damaged, swapped or directories, listed by the real tool while open, read and seek calls fail.",
            real: TOOL,
            stub: SYS,
            must: &["loaded", "bad_file_reported", "fault_reported"],
        },
        Prop {
            id: "C14",
            run: crate::cli::c14,
            quick: 5000,
            thorough: 250000,
            engine: Engine::Proc,
            rule: "Playlist exports by the real tool with failing, short and interrupted system calls, full disks, failing allocations and crashes, then run again.",
            real: TOOL,
            stub: SYS,
            must: &["complete", "crashed", "fault_reported", "rerun_complete", "cut_reported"],
        },
        Prop {
            id: "C15",
            run: crate::cli::c15,
            quick: 5000,
            thorough: 250000,
            engine: Engine::Proc,
            rule: "Playlist exports of databases with hostile names, and all other commands, under failing system calls and crashes; every changing call is recorded.",
            real: TOOL,
            stub: SYS,
            must: &["exported", "failed", "with_faults", "other_command"],
        },
        Prop {
            id: "C17",
            run: crate::cli::c17,
            quick: 5000,
            thorough: 250000,
            engine: Engine::Proc,
            rule: "Every command on generated, real and damaged input under hash seeds, short and interrupted calls, failing calls and truncation.",
            real: TOOL,
            stub: SYS,
            must: &["same_output", "fault_reported", "fault_without_effect"],
        },
        Prop {
            id: "C19",
            run: crate::cli::c19,
            quick: 6000,
            thorough: 300000,
            engine: Engine::Proc,
            rule: "Playlist listings of generated databases by the real tool under hash seeds, short and interrupted calls, failing calls and truncation.",
            real: TOOL,
            stub: SYS,
            must: &["complete", "cycle_reported", "fault_reported"],
        },
        Prop {
            id: "C25",
            run: crate::cli::c25,
            quick: 5000,
            thorough: 250000,
            engine: Engine::Proc,
            rule: "Every command while standard output fails, accepts nothing, is full or is closed.",
            real: TOOL,
            stub: SYS,
            must: &["fault_reported"],
        },
        Prop {
            id: "C26",
            run: crate::cli::c26,
            quick: 6000,
            thorough: 300000,
            engine: Engine::Proc,
            rule: "Dumps of generated databases (intact, or with broken chains), analysis, settings and XML files by the real tool, with failing, short and interrupted input calls.",
            real: TOOL,
            stub: SYS,
            must: &["database_complete", "file_complete", "fault_reported"],
        },
        Prop {
            id: "C27",
            run: crate::writing::c27,
            quick: 150_000,
            thorough: 7_500_000,
            engine: Engine::Lib,
            rule: "Analysis (also damaged but accepted ones) and settings files on one medium, read, edited and written back at any position, after failed attempts, over streams that deliver and accept in pieces.",
            real: ALL,
            stub: DISK,
            must: &["anlz_reproduced", "setting_reproduced", "damaged_reproduced", "sections_swapped", "settings_replaced", "write_failed"],
        },
        Prop {
            id: "C23",
            run: crate::rows::c23,
            quick: 200_000,
            thorough: 10_000_000,
            engine: Engine::Lib,
            rule: "Rows and offset tables with calculated or given offsets, written at any place of a used medium in pieces, after failed attempts, with strings replaced in between.",
            real: &["rekordcrate::pdb (offset_array, string, rows), binrw"],
            stub: DISK,
            must: &["row_calculated", "row_given", "in_database", "inserted", "table_calculated", "table_given", "string_replaced", "write_failed", "refused_offsets"],
        },
        Prop {
            id: "C22",
            run: crate::xlib::c22,
            quick: 60_000,
            thorough: 3_000_000,
            engine: Engine::Lib,
            rule: "XML libraries read from streams that deliver in pieces, fail or end early, edited, written to streams and text sinks that accept in pieces, fail or fill up, and read back; in between, libraries that cannot be read.",
            real: &["rekordcrate::xml, quick-xml, serde"],
            stub: DISK,
            must: &["read", "written", "edited", "read_failure_reported", "write_failure_reported", "broken_refused"],
        },
    ]
}

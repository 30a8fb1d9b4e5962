use crate::run::{Check, Ctx};

pub mod attrs;
pub mod diag;
pub mod entity;
pub mod fix;
pub mod ir;
pub mod layout;
pub mod migrate;
pub mod project;
pub mod refs;
pub mod robust;
pub mod server;
pub mod suggest;

fn c(id: &'static str, rule: &'static str, quick: u64, thorough: u64, run: fn(&mut Ctx, u64), need: &'static [(&'static str, u64)]) -> Check {
    Check { id, rule, quick, thorough, run, need, workers: 8, case_cpu_s: 60 }
}

const BROKEN: &str = "a generated valid program with exactly one rule broken at a random place, random layout; stratified over the rules; non-trivial: the mutation applied; distinct by source text";

const SESSION: &str = "a random session with the real server process over stdio: several documents in projects on disk and elsewhere, opened, changed and closed; queries; malformed, unknown and unexpected messages; everything the server sends is compared in order with a model; distinct by message trace and by answer";

const SESSION_U: &str = "a random session with the real server process over stdio, documents full of characters of all encoded lengths, one of the three position encodings; every position sent and received is translated independently and compared; distinct by message trace and by answer";
const SESSION_C: &str = "a random session with the real server process over stdio under random client capabilities: queries and project commands; every answer is compared with the one those capabilities call for; distinct by message trace and by answer";
const SESSION_P: &str = "a random session with the real server process over stdio: create, migrate and extract commands (executed or resolved) on projects on disk with all kinds of manifests; each resulting edit is applied to a model of the workspace and judged; distinct by message trace and by answer";
const SESSION_V: &str = "a random session with the real server process over stdio: projects on disk with all kinds of ink! dependency declarations (own, workspace, path, git, optional), nested directories, migrations and re-opening; version-dependent answers are compared; distinct by message trace and by answer";

pub fn all() -> Vec<Check> {
    vec![
        c("D01", "generated valid ink! 4/5 programs in canonical and random layouts; non-trivial: contains an ink! entity; distinct by source text", 14_000, 600_000, diag::d01,
            &[("programs", 1000), ("feature:chain_extension", 50), ("feature:trait_impl", 50), ("feature:wildcard-complement", 10)]),
        c("D02", BROKEN, 10_000, 400_000, diag::d02, &[("programs", 1000)]),
        c("D03", BROKEN, 10_000, 400_000, diag::d03, &[("programs", 1000)]),
        c("D04", BROKEN, 10_000, 400_000, diag::d04, &[("programs", 1000)]),
        c("D05", BROKEN, 10_000, 400_000, diag::d05, &[("programs", 1000)]),
        c("D06", BROKEN, 10_000, 400_000, diag::d06, &[("programs", 1000)]),
        c("D08", "a generated contract, trait implementations under all kinds of paths, and random operations that make selectors equal or almost equal; random layout; every composed selector is compared with an independent computation and every clash with the diagnostics; distinct by source text", 9_000, 400_000, ir::d08,
            &[("programs", 1000), ("selectors_compared", 5000), ("clashes", 300), ("wildcard_clashes", 50), ("op:explicit-vs-hash", 30), ("programs_without_clash", 300)]),
        c("I01", "generated programs (valid, or with ink! attributes stripped from one item) in canonical and random layouts; the complete entity model is compared with the generator's own model; distinct by source text", 40_000, 500_000, ir::i01,
            &[("programs", 1000), ("entities", 10000), ("stripped", 100)]),
        c("D09", "a generated program (valid, or with up to three rules broken) in two layouts, or with unrelated plain items added; diagnostics, hover, signature help and inlay hints of both are compared token by token; distinct by source text", 6_000, 300_000, layout::d09,
            &[("layout_pairs", 1000), ("unrelated_pairs", 500), ("diagnostics_compared", 1000), ("hovers_compared", 5000), ("signatures_compared", 1000), ("hints_compared", 1000)]),
        c("E01", "a cursor in a partially typed attribute (new or existing, argument, nested argument or macro path) of a generated program with additional odd attributes; the suggestions are compared with the attribute tables and each is applied; distinct by source text", 9_000, 400_000, suggest::e01,
            &[("cursor_in_new_attribute", 1000), ("cursor_in_existing_attribute", 1000), ("cursor_in_macro", 1000), ("cursor_in_nested", 10), ("suggestions", 10000)]),
        c("E02", "selections on declarations, fields and ink! attributes of generated programs with additional odd attributes; the offered actions are compared with the attribute tables and each is applied; distinct by source text", 3_000, 200_000, suggest::e02,
            &[("item_queries", 1000), ("attribute_queries", 1000), ("argument_actions", 5000), ("macro_actions", 500), ("flatten_actions", 50)]),
        c("E04", "hover queries on every kind of position (whole attribute, each token, cursor positions, elsewhere) of generated programs with additional odd and unknown attributes, both versions; distinct by source text", 30_000, 600_000, attrs::e04,
            &[("hover_whole", 1000), ("hover_token", 10000), ("hover_cursor", 10000), ("hover_elsewhere", 10000), ("hovers_with_content", 10000)]),
        c("E05", "inlay hint queries for the whole file and for ranges cut at random and around arguments, generated programs with additional odd and unknown attributes; distinct by source text", 30_000, 600_000, attrs::e05,
            &[("queries", 10000), ("hints_expected", 10000)]),
        c("E06", "signature help at token boundaries and middles inside and outside the parentheses of the attributes of generated programs with additional odd and unknown attributes; distinct by source text", 30_000, 600_000, attrs::e06,
            &[("inside_queries", 10000), ("outside_queries", 10000), ("signatures", 10000)]),
        c("L01", SESSION, 800, 40_000, server::l01,
            &[("sessions_completed", 200), ("answer:error-32601", 100), ("answer:error-32602", 200), ("answer:error-32603", 100), ("messages_received", 5000)]),
        c("L02", SESSION, 450, 40_000, server::l02,
            &[("sessions_completed", 100), ("nonempty:textDocument/completion", 50), ("nonempty:textDocument/hover", 50), ("nonempty:textDocument/codeAction", 50), ("nonempty:textDocument/inlayHint", 50), ("nonempty:textDocument/signatureHelp", 50)]),
        c("L03", SESSION, 450, 40_000, server::l03, &[("sessions_completed", 100), ("publications", 2000), ("publications_nonempty", 500)]),
        c("L04", SESSION_U, 500, 40_000, server::l04,
            &[("sessions_completed", 100), ("encoding:utf-8", 20), ("encoding:utf-16", 20), ("encoding:utf-32", 20), ("publications_nonempty", 200)]),
        c("L05", SESSION_C, 700, 40_000, server::l05, &[("sessions_completed", 100), ("announced_kinds", 50), ("migrations_applied", 50), ("created", 30)]),
        c("L06", SESSION_P, 700, 40_000, project::l06, &[("sessions_completed", 100), ("created", 100), ("migrations_applied", 200), ("extracted_by_edit", 50), ("extract_rejected", 100)]),
        c("L07", SESSION_V, 1_500, 40_000, project::l07, &[("sessions_completed", 200), ("opened:v4", 200), ("opened:v5", 200), ("version_follows_migration", 100)]),
        c("M03", "names made of words, digits, hyphens, underscores, letters of other scripts and forbidden characters, given to the library and (every tenth case) to the server's create command; distinct by name and version", 2_500, 200_000, project::m03,
            &[("names", 5000), ("projects", 2000), ("names_rejected", 500), ("created", 100)]),
        c("R01", "texts (documents cut, spliced and mutilated, cyclic definitions, deep nesting, prefixes, token soup, repository samples, Unicode) queried with everything at many positions under both versions; every 25th case is a server session with such documents and odd messages; a panic, an abort or 60 s of CPU time without an answer counts; distinct by text", 3_000, 400_000, robust::r01,
            &[("text:hostile", 300), ("text:cyclic", 100), ("text:nested", 50), ("completions", 20000), ("actions", 2000), ("sessions_completed", 20), ("answers_with_content", 10000)]),
        c("R02", "programs (several of everything, broken or valid) and arbitrary texts; every query is repeated on the same instance in another order, on fresh instances (other hash seeds), in other threads and in another process, and the answers are compared verbatim; distinct by text", 1_200, 300_000, robust::r02,
            &[("same_instance", 10000), ("fresh_instance", 20000), ("other_thread", 5000), ("other_process", 2000)]),
        c("F02", "all queries on valid, broken, mutilated and non-ASCII texts at many positions; each range, edit list and snippet returned is judged; distinct by text", 3_000, 300_000, robust::f02,
            &[("ranges", 50000), ("edits", 20000), ("snippets", 5000)]),
        c("M01", "pairs of an ink! 4 program (events, chain extensions, codec derives in all spellings, contract calls nested in every kind of expression, end-to-end tests) in random layouts and the ink! 5 program it has to become; the token streams are compared and the migrated program is diagnosed; distinct by source text", 4_000, 300_000, migrate::m01,
            &[("programs", 1000), ("events", 500), ("chain_extensions", 200), ("codec_types", 500), ("e2e_tests", 300), ("calls:build_call", 300), ("calls:env_method", 100), ("calls:instantiate", 100), ("calls:build_message", 100), ("migrated_programs_diagnosed", 1000)]),
        c("M02", "programs with events of all kinds in contracts and other modules, random layouts; extraction is asked for with selections in every part of events and of other items, and name, definition, removal and import position are judged; distinct by source text", 6_000, 300_000, migrate::m02,
            &[("programs", 1000), ("extracted", 5000), ("non_events", 2000)]),
        c("F01", "programs with one rule broken; every quick fix offered is applied and the diagnostics and syntax errors before and after are compared; distinct by source text", 5_000, 300_000, fix::f01,
            &[("programs", 1000), ("fixes", 3000)]),
        c("E03", "a blank or partly typed line in every kind of container, or the declaration of one, in generated programs (valid, or without storage, implementations or error type; default names already taken); every suggested entity is applied and the code, the entities, the place, names and identifiers are compared with the program before; distinct by source text", 6_000, 300_000, entity::e03,
            &[("programs", 1000), ("insertions", 5000), ("offers_expected", 5000)]),
        c("D10", "programs whose trait implementations, environments, error codes and codec types refer to items through every kind of path, import, re-export and alias over nested modules, some of them broken, in random layouts; distinct by source text", 12_000, 500_000, refs::d10,
            &[("programs", 1000), ("how:re-export", 100), ("how:type-alias", 100), ("how:use:glob", 100), ("how:path:super2", 100)]),
        c("D07", BROKEN, 12_000, 400_000, diag::d07, &[("programs", 1000)]),
    ]
}

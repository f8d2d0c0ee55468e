//! Which workloads decide which property, and how much of them.

use crate::ctx::Ctx;
use crate::val::sc;
use crate::{w_class as k, w_desc as d, w_nest as n, w_pool as p, w_same as s, w_sweep as x};

pub struct W {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Ctx),
    /// needs classes of the JDK
    pub jdk: bool,
    /// the index enumerates something: the count is not scaled
    pub fixed: bool,
}

fn w(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> W {
    W { name, quick, thorough, f, jdk: false, fixed: false }
}
/// an enumeration
fn e(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> W {
    W { name, quick, thorough, f, jdk: false, fixed: true }
}
fn j(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Ctx)) -> W {
    W { name, quick, thorough, f, jdk: true, fixed: false }
}

pub fn scopes(prop: &str) -> u32 {
    match prop {
        "C04" => sc::POOL | sc::UTF8,
        "C05" => sc::UTF8,
        "C11" => sc::HEADER,
        "C12" => sc::ATTRS | sc::UNKNOWN,
        "C13" => sc::INSN,
        "C14" => sc::CODE,
        "C15" => sc::STACKMAP,
        "C16" => sc::ANN,
        "C17" => sc::TYPEANN,
        "C18" => sc::METHOD,
        "C19" => sc::CLASS,
        "C23" => sc::FLAGS,
        _ => !0,
    }
}

const ALL_JDK: u64 = 24_000;

pub fn works(prop: &str) -> Vec<W> {
    let sizes = k::sizes_count(prop, false);
    let sizes_t = k::sizes_count(prop, true);
    let uni = k::uniform_count(prop);
    let families = crate::linear::all_names().len() as u64;
    match prop {
        "C01" => vec![
            w("garbage", 60_000, 3_000_000, k::garbage),
            e("every byte", 1400, 1400, k::every_byte),
            j("mutants", 12_000, 1_000_000, k::mutants),
            w("hostile", 1_500, 100_000, k::hostile),
            e("nested promises", 48, 48, k::mem_nested),
            e("families", families, 8 * families, k::families),
            w("evolve", 400, 40_000, s::evolve),
        ],
        "C02" => vec![
            e("deep", 28 * n::FAMILIES as u64, 28 * n::FAMILIES as u64, n::deep),
            w("deep at random", 1_000, 60_000, deep_random),
            w("shallow", 600, 60_000, n::shallow),
        ],
        "C03" => vec![
            w("random", 8_000, 800_000, k::mem_random),
            e("lists", 39 * 4, 39 * 40, k::mem_lists),
            e("families", families, 8 * families, k::families),
            e("nested promises", 48, 48, k::mem_nested),
            w("hostile", 1_200, 100_000, k::hostile),
        ],
        "C04" => vec![
            w("pools", 6_000, 400_000, k::pools),
            e("limits", 40, 400, k::pool_limits),
            e("constants", 64 * 2, 64 * 4 * 4, x::constants),
            e("ends", x::ends_count(), x::ends_count() * 6, x::ends),
            w("random", 1_500, 100_000, k::random),
            j("jdk", 600, ALL_JDK, k::jdk),
        ],
        "C05" => vec![
            e("strings of two bytes", 256, 256, k::utf8_two),
            e("strings of three bytes", 65_536, 65_536, k::utf8_three),
            e("surrogates", 1024, 1024, k::utf8_surrogates),
            e("scalar values", 272, 272, k::utf8_scalars),
            w("random strings", 3_000, 300_000, k::utf8_random),
            e("ends", x::ends_count() * 2, x::ends_count() * 6, x::ends),
            e("across", 18 * 5, 20 * 5, x::across),
            e("positions", 72 * 2, 72 * 5 * 4, x::positions),
            j("jdk", 200, ALL_JDK, k::jdk),
        ],
        "C06" => vec![w("pushes", 12_000, 1_000_000, p::pushes), e("limit", 60, 600, p::limit)],
        "C07" => vec![w("pushes", 4_000, 300_000, p::pushes), e("limit", 180, 2_400, p::limit)],
        "C08" => vec![
            w("pushes", 4_000, 300_000, p::pushes),
            w("parsed", 6_000, 400_000, p::iterate_parsed),
            e("limit", 60, 600, p::limit),
        ],
        "C09" => vec![w("lookups", 200, 12_000, p::lookups)],
        "C10" => vec![
            e("kinds", 121 + 60, 121 + 4_000, p::equal_kinds),
            w("siblings", 1_500, 200_000, p::equal_siblings),
            w("floats", 300, 20_000, p::equal_floats),
            w("crowd", 1_000, 60_000, p::equal_crowd),
        ],
        "C11" => vec![
            e("fields", x::fields_count(prop, 8), x::fields_count(prop, 200), x::fields),
            w("random", 4_000, 300_000, k::random),
            e("sizes", sizes, sizes_t, k::sizes),
            w("mixed", 800, 60_000, k::mixed),
            j("jdk", 500, ALL_JDK, k::jdk),
        ],
        "C12" => vec![
            e("fields", x::fields_count(prop, 1), x::fields_count(prop, 8), x::fields),
            e("names", 540, 540 * 20, k::names),
            w("near names", 8_000, 600_000, k::near_names),
            w("bad names", 3_000, 200_000, k::bad_names),
            w("unknown", 2_000, 150_000, k::unknown),
            e("payloads", 28 * 12, 31 * 12 * 4, x::payloads),
            w("random", 2_000, 150_000, k::random),
            e("sizes", sizes, sizes_t, k::sizes),
            e("uniform", uni, 20 * uni, k::uniform),
            w("mutated", 4_000, 400_000, k::mutated),
            j("jdk", 300, ALL_JDK, k::jdk),
        ],
        "C13" => vec![
            e("operands", 1024, 1024, k::operands),
            e("wide operands", 96, 96 * 4, k::wide_operands),
            e("opcodes", 1280, 1280 * 8, k::opcodes),
            e("undefined forms", 768, 768, k::undefined_forms),
            w("switches", 3_000, 200_000, k::switches),
            w("bad switches", 3_000, 200_000, k::bad_switches),
            w("code bytes", 20_000, 2_000_000, k::random_code_bytes),
            e("uniform", uni, 5 * uni, k::uniform),
            w("random", 1_500, 100_000, k::random),
            j("jdk", 300, ALL_JDK, k::jdk),
        ],
        "C14" => vec![
            e("fields", x::fields_count(prop, 8), x::fields_count(prop, 200), x::fields),
            w("random", 3_000, 200_000, k::random),
            w("code length", 4_000, 300_000, k::code_length),
            w("code bytes", 12_000, 1_000_000, k::random_code_bytes),
            w("big code", 24, 400, k::big_code),
            e("sizes", sizes, sizes_t, k::sizes),
            w("mutated", 4_000, 300_000, k::mutated),
            j("jdk", 400, ALL_JDK, k::jdk),
        ],
        "C15" => vec![
            e("fields", x::fields_count(prop, 12), x::fields_count(prop, 200), x::fields),
            e("frame types", 2048, 2048 * 16, k::frame_tags),
            e("verification types", 2560 * 2, 2560 * 30, k::vt_tags),
            w("random", 2_500, 200_000, k::random),
            w("tables", 6_000, 500_000, k::attr_values),
            e("sizes", sizes, sizes_t, k::sizes),
            e("uniform", uni, 20 * uni, k::uniform),
            w("mutated", 8_000, 600_000, k::mutated),
            j("jdk", 400, ALL_JDK, k::jdk),
        ],
        "C16" => vec![
            e("fields", x::fields_count(prop, 4), x::fields_count(prop, 60), x::fields),
            e("element tags", 2048 * 2, 2048 * 30, k::ev_tags),
            w("random", 2_500, 200_000, k::random),
            w("single", 6_000, 500_000, k::attr_values),
            e("sizes", sizes, sizes_t, k::sizes),
            e("uniform", uni, 20 * uni, k::uniform),
            w("mutated", 8_000, 600_000, k::mutated),
            j("jdk", 300, ALL_JDK, k::jdk),
        ],
        "C17" => vec![
            e("fields", x::fields_count(prop, 6), x::fields_count(prop, 100), x::fields),
            e("target types", 1024 * 4, 1024 * 60, k::target_tags),
            w("random", 2_500, 200_000, k::random),
            w("single", 6_000, 500_000, k::attr_values),
            e("sizes", sizes, sizes_t, k::sizes),
            e("uniform", uni, 20 * uni, k::uniform),
            w("mutated", 8_000, 600_000, k::mutated),
        ],
        "C18" => vec![
            e("fields", x::fields_count(prop, 2), x::fields_count(prop, 40), x::fields),
            e("payloads", 28 * 12, 31 * 12, x::payloads),
            e("across", 18 * 5, 20 * 5, x::across),
            w("single", 8_000, 600_000, k::attr_values),
            w("random", 2_500, 200_000, k::random),
            e("sizes", sizes, sizes_t, k::sizes),
            w("mutated", 6_000, 500_000, k::mutated),
            j("jdk", 500, ALL_JDK, k::jdk),
        ],
        "C19" => vec![
            e("fields", x::fields_count(prop, 3), x::fields_count(prop, 60), x::fields),
            w("single", 8_000, 600_000, k::attr_values),
            w("random", 2_500, 200_000, k::random),
            e("sizes", sizes, sizes_t, k::sizes),
            w("mutated", 6_000, 500_000, k::mutated),
            j("jdk", 400, ALL_JDK, k::jdk),
        ],
        "C20" => vec![
            w("lengths", 800, 60_000, k::lengths),
            w("each kind", 2_000, 150_000, k::lengths_each),
            e("long lists", 39 * 3, 39 * 60, x::long_lengths),
        ],
        "C21" => vec![w("prefixes", 900, 80_000, k::prefixes), e("long lists", 39 * 2, 39 * 60, x::long_prefixes), j("jdk prefixes", 500, ALL_JDK, k::jdk_prefixes)],
        "C22" => vec![
            w("faults", 6_000, 500_000, k::faults),
            w("far instructions", 300, 20_000, x::far_instructions),
            w("far constants", 150, 10_000, x::far_constants),
            e("long lists", 39 * 4, 39 * 120, x::long_faults),
        ],
        "C23" => vec![e("flags", 1024, 1024, k::flags)],
        "C24" | "C25" => vec![
            e("short strings", 100, 100, d::exhaustive),
            e("limits", 19 + 18 + 14, 19 + 18 + 14, d::limits),
            e("characters", 256, 256, d::characters),
            w("generated", 15_000, 1_500_000, d::generated),
            w("noise", 8_000, 600_000, d::noise),
        ],
        "C26" => vec![
            e("short strings", 100, 100, d::exhaustive),
            e("limits", 19 + 18 + 14, 19 + 18 + 14, d::limits),
            e("characters", 256, 256, d::characters),
            e("dimensions", 256, 256, d::all_dims),
            w("generated", 10_000, 1_000_000, d::generated),
            w("values", 8_000, 600_000, d::values),
        ],
        "C27" => vec![
            e("short strings", 100, 100, d::exhaustive),
            e("limits", 19 + 18 + 14, 19 + 18 + 14, d::limits),
            e("characters", 256, 256, d::characters),
            w("generated", 12_000, 1_000_000, d::generated),
            w("noise", 12_000, 1_000_000, d::noise),
        ],
        "C28" => vec![
            j("again", 800, 60_000, s::again),
            j("places", 2_500, 200_000, s::places),
            w("trailing", 1_500, 120_000, s::trailing),
            j("threads", 300, 20_000, s::threads),
            j("history", 40, 3_000, s::history),
            j("repeated", 60, 6_000, s::repeated),
        ],
        "C30" => vec![
            w("garbage", 20_000, 1_000_000, k::garbage),
            j("mutants", 6_000, 400_000, k::mutants),
            w("hostile", 1_500, 100_000, k::hostile),
            e("nested promises", 48, 48, k::mem_nested),
            e("lists", 39 * 3, 39 * 40, k::lists_bounded),
            e("families", families, 8 * families, k::families),
            j("jdk", 2_000, ALL_JDK, k::jdk_bounded),
        ],
        // the same for an interpreter that is a thousand times slower
        "C29m" => vec![
            e("kitchen sink", 1, 1, k::sink),
            w("threads", 2, 40, s::threads_small),
            w("descriptor noise", 8, 400, d::noise),
            w("pushes", 16, 1_000, p::pushes),
            w("garbage", 200, 10_000, k::garbage),
            w("small", 80, 6_000, k::small),
            w("parsed", 8, 400, p::iterate_parsed),
            w("descriptors", 8, 400, d::generated),
            w("hostile", 7, 700, k::hostile),
            w("random strings", 4, 200, k::utf8_random),
        ],
        // the same on an interpreted platform of the other byte order
        "C28m" => vec![
            e("kitchen sink", 1, 1, k::sink),
            w("small", 80, 2_000, k::small),
            w("random strings", 4, 100, k::utf8_random),
            w("pushes", 16, 300, p::pushes),
            w("descriptors", 8, 200, d::generated),
        ],
        "C29" => vec![
            w("garbage", 4_000, 200_000, k::garbage),
            e("every byte", 1400, 1400, k::every_byte),
            j("mutants", 1_200, 100_000, k::mutants),
            w("hostile", 300, 20_000, k::hostile),
            e("nested promises", 48, 48, k::mem_nested),
            w("random", 400, 40_000, k::mixed),
            w("prefixes", 60, 6_000, k::prefixes),
            w("random strings", 200, 20_000, k::utf8_random),
            e("surrogates", 1024, 1024, k::utf8_surrogates),
            w("pushes", 800, 60_000, p::pushes),
            e("limit", 12, 120, p::limit),
            w("lookups", 6, 400, p::lookups),
            w("parsed", 300, 20_000, p::iterate_parsed),
            w("descriptors", 800, 60_000, d::generated),
            w("descriptor noise", 800, 60_000, d::noise),
            e("descriptor limits", 19 + 18 + 4, 19 + 18 + 14, d::limits),
            w("threads", 30, 2_000, s::threads),
        ],
        _ => vec![],
    }
}

fn deep_random(c: &mut Ctx) {
    let keep = c.idx;
    c.idx += 28 * n::FAMILIES as u64;
    n::deep(c);
    c.idx = keep;
}

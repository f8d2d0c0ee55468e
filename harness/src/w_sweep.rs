//! Workloads that vary one thing at a time through all its values, at the places where buffers, counters and
//! shortcuts have their limits.

use crate::ctx::*;
use crate::enc::{self, encode};
use crate::gen::*;
use crate::model::*;
use crate::mutf8;
use crate::refp::{self, RErr, Verdict};
use crate::rng::Rng;
use crate::w_class::*;

/// 16 bit values that somebody may have had in mind
pub fn values16(seed: u64) -> Vec<u16> {
    let mut v: Vec<u16> = vec![];
    v.extend(0..320);
    v.extend(0xFEC0..=0xFFFF);
    for i in 0..16u32 {
        let b = 1u32 << i;
        for d in [b.wrapping_sub(2), b.wrapping_sub(1), b, b + 1, b + 2] {
            v.push(d as u16);
            v.push(!d as u16);
        }
        for j in 0..i {
            v.push((b | 1 << j) as u16);
            v.push(!(b | 1 << j) as u16);
        }
    }
    for i in 0..256u16 {
        v.push(i << 8);
        v.push(i << 8 | i);
        v.push(i << 8 | 0xFF);
    }
    for i in [1000u16, 1024, 9999, 10_000, 12345, 30_000, 40_000, 50_000, 60_000, 65_000, 0xCAFE, 0xBABE] {
        v.extend([i - 1, i, i + 1]);
    }
    // some of the others, different ones with every seed
    let mut i = (seed % 131) as u32;
    while i < 65_536 {
        v.push(i as u16);
        i += 131;
    }
    v.sort();
    v.dedup();
    v
}

fn values32() -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for i in 0..32u32 {
        let b = 1u64 << i;
        for d in [b - 1, b, b + 1] {
            v.push(d as u32);
            v.push(!d as u32);
        }
    }
    v.extend([0x7FFF_FFFE, 0x1_0000, 0x2_0000, 0x10_0000, 1_000_000, 0x0101_0101, 0x00FF_00FF, 0xFF00_FF00, 0xCAFE_BABE]);
    v.sort();
    v.dedup();
    v
}

pub const MOODS: u64 = 4;

pub fn fields_count(prop: &str, variants: u64) -> u64 {
    let n = if prop == "C11" { 1 } else { focus(prop).len() as u64 };
    n * MOODS * variants
}

/// every place of a small attribute through all the values that fit there, the rest staying as it is
pub fn fields(c: &mut Ctx) {
    let mut r = c.rng();
    let header = c.prop == "C11";
    let kinds = focus(&c.prop);
    let nk = if header { 1 } else { kinds.len() as u64 };
    let kind = kinds[(c.idx % nk) as usize];
    let mood = c.idx / nk % MOODS;
    let variant = c.idx / nk / MOODS;
    match mood {
        0 => r.few([0; 3]),
        1 => r.few([0xFFFF; 3]),
        2 => {
            let a = r.idx();
            r.few([a, a.wrapping_add(1), a])
        }
        _ => {}
    }
    let mut cfg = Cfg::only(if header { &["Deprecated"] } else { kinds });
    cfg.list = 2;
    cfg.insns = 4;
    cfg.depth = 1;
    cfg.attrs = 1;
    cfg.consts = 0;
    let mut g = G::new(&mut r, cfg);
    g.budget = 60;
    let (b, from, to);
    if header {
        let (i, f, m) = (g.ix(), g.member(), g.member());
        let mut k = g.wrap(1, vec![]);
        k.interfaces = vec![i, i ^ 1];
        k.fields.push(f);
        k.methods.push(m);
        b = encode(&k);
        let mut e = enc::Enc::new();
        e.pool(&k.pool);
        from = 8 + e.b.len();
        to = b.len();
    } else {
        let a = g.attr_of(kind);
        let mut e = enc::Enc::new();
        e.attrs(&[a.clone()]);
        let mine = e.b[2..].to_vec();
        let place = (variant + mood) as usize % 4;
        let k = g.wrap(place, vec![a]);
        b = encode(&k);
        from = (0..=b.len() - mine.len()).rev().find(|i| b[*i..*i + mine.len()] == mine[..]).expect("the attribute");
        to = (from + mine.len()).min(from + 120);
    }
    c.sample(|| format!("bytes {}..{} of {}", from, to, hex(&b)));
    c.judge(&b);
    // all values of 16 bits only the first time, when there is much time
    let v16 = if c.thorough && variant == 0 { (0..=0xFFFF).collect() } else { values16(c.seed) };
    let v32 = values32();
    let mut m = b.clone();
    let mut n = 0;
    // the version is in front of the constants
    for at in if header { 4..8 } else { 0..0 }.chain(from..to) {
        for x in 0..=255u8 {
            m[at] = x;
            c.judge(&m);
            n += 1;
        }
        m.copy_from_slice(&b);
        if at + 2 <= to {
            for x in &v16 {
                m[at..at + 2].copy_from_slice(&x.to_be_bytes());
                c.judge(&m);
                n += 1;
            }
            m.copy_from_slice(&b);
            // the same as somewhere else
            for other in from..to - 1 {
                m[at..at + 2].copy_from_slice(&b[other..other + 2]);
                c.judge(&m);
                n += 1;
            }
            m.copy_from_slice(&b);
        }
        if at + 4 <= to {
            for x in &v32 {
                m[at..at + 4].copy_from_slice(&x.to_be_bytes());
                c.judge(&m);
                n += 1;
            }
            m.copy_from_slice(&b);
        }
        c.eval(bytes_hash(&b) ^ at as u64, true);
        if c.viols > 0 {
            return;
        }
    }
    c.evals += n;
    c.count("single places changed", n);
}

/// every value of the parts of constants, the other parts being fixed, equal, or the opposite
pub fn constants(c: &mut Ctx) {
    const TWO: [fn(u16, u16) -> Const; 5] = [Const::Field, Const::Method, Const::IMethod, Const::NameType, Const::InvDyn];
    const ONE: [fn(u16) -> Const; 5] = [Const::Class, Const::Str, Const::MType, Const::Module, Const::Package];
    let i = c.idx as usize;
    let mut r = c.rng();
    let half = (i % 2 * 32_768) as u32;
    let kind = i / 2 % 32;
    let fixed = *r.pick(&[0u16, 1, 0xFFFF, 0x8000]);
    let mut p = MPool::new();
    let mut x = half;
    while x < half + 32_768 && p.room() > 3 {
        let v = x as u16;
        let w = match i / 64 % 4 {
            0 => fixed,
            1 => v,
            2 => !v,
            _ => v.swap_bytes(),
        };
        let lane = u64::from(v) << (16 * (i / 64 % 4));
        let k = match kind {
            0..=4 => ONE[kind](v),
            5..=9 => TWO[kind - 5](v, w),
            10..=14 => TWO[kind - 10](w, v),
            15..=23 => Const::Handle((kind - 14) as u8, v),
            24 => Const::Int(u32::from(v) << 16 | u32::from(w)),
            25 => Const::Int(u32::from(w) << 16 | u32::from(v)),
            26 => Const::Float(u32::from(v) << 16 | u32::from(w)),
            27 => Const::Float(u32::from(w) << 16 | u32::from(v)),
            28 => Const::Long(lane),
            29 => Const::Long(!lane),
            30 => Const::Double(lane),
            _ => Const::Double(!lane),
        };
        p.add(k);
        x += 1;
    }
    let mut k = utf8_class(&[]);
    k.pool = p;
    let b = encode(&k);
    note_class(c, &k, &b);
    c.count("constants swept", k.pool.slots.iter().flatten().count() as u64);
    c.judge_model(&k, &b);
}

// ---------------------------------------------------------------- strings

const EDGES: [&str; 40] = [
    " ", "\n", "\r", "\t", "\0", "\u{1}", "\u{7F}", "\u{80}", "\u{85}", "\u{A0}", "\u{AD}", "\u{E9}", "\u{7FF}", "\u{800}", "\u{2028}", "\u{3000}", "\u{200B}", "\u{FEFF}",
    "\u{FFFD}", "\u{FFFE}", "\u{FFFF}", "\u{D7FF}", "\u{E000}", "\u{10000}", "\u{10FFFF}", "\u{1F600}", "/", ".", ";", "[", "(", ")", "<", ">", "\"", "\\", "$", "L", "0", "-",
];

fn lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..70).collect();
    for k in 7..16 {
        let b = 1usize << k;
        v.extend(b - 4..=b + 3);
    }
    v.extend(65_528..=65_535);
    v.extend([100, 1000, 10_000, 30_000, 50_000, 60_000, 65_000]);
    v.retain(|x| *x <= 65_535);
    v.sort();
    v.dedup();
    v
}

pub fn ends_count() -> u64 {
    lengths().len() as u64
}

/// strings of one length that begin and end with all sorts of characters
pub fn ends(c: &mut Ctx) {
    let ls = lengths();
    let n = ls[c.idx as usize % ls.len()];
    let round = c.idx as usize / ls.len();
    let fill = ["a", " ", "\u{E9}", "\u{20AC}", "\u{1F600}", "\0"][(round + c.seed as usize) % 6];
    let fill = mutf8::encode(fill);
    let mut v = vec![];
    for e in EDGES {
        let e = mutf8::encode(e);
        for how in 0..4 {
            let (head, tail): (&[u8], &[u8]) = match how {
                0 => (&e, &[]),
                1 => (&[], &e),
                2 => (&e, &e),
                _ => (&[], &[]),
            };
            if how == 3 && e != mutf8::encode(EDGES[0]) || head.len() + tail.len() > n {
                continue;
            }
            let room = n - head.len() - tail.len();
            let mut s = head.to_vec();
            s.extend(fill.repeat(room / fill.len()));
            s.extend(vec![b'x'; room % fill.len()]);
            s.extend(tail);
            v.push(s);
        }
    }
    c.count("strings with special ends", v.len() as u64);
    c.max("longest string", n as u64);
    // as constants, and one of them as a debug extension
    let i = c.idx as usize % v.len().max(1);
    if let Some(s) = v.get(i) {
        let k = sde_class(s);
        let b = encode(&k);
        c.judge_model(&k, &b);
    }
    let mut part = vec![];
    let mut size = 0;
    for s in v {
        size += s.len();
        part.push(s);
        if size > 4 << 20 {
            judge_strings(c, &part);
            part.clear();
            size = 0;
        }
    }
    judge_strings(c, &part);
}

/// characters of several bytes, and broken ones, across the places where a buffer may end
pub fn across(c: &mut Ctx) {
    let mut r = c.rng();
    let i = c.idx as usize;
    let top = if c.thorough { 22 } else { 20 };
    let k = 3 + i % (top - 2);
    let at = 1usize << k;
    let fill = ["a", "\u{E9}", "\u{20AC}", "\u{1F600}", "\0"][i / (top - 2) % 5];
    let fill = mutf8::encode(fill);
    let pieces: [&[u8]; 14] = [
        &[0xC3, 0xA9],
        &[0xC0, 0x80],
        &[0xE2, 0x82, 0xAC],
        &[0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80],
        &[0xED, 0xA0, 0x80, 0xED, 0xB0, 0x80],
        // broken
        &[0x80],
        &[0xC3],
        &[0xE2, 0x82],
        &[0],
        &[0xF0, 0x9F, 0x98, 0x80],
        &[0xED, 0xA0, 0xBD],
        &[0xED, 0xB8, 0x80],
        &[0xED, 0xA0, 0xBD, 0xED, 0xA0, 0xBD],
        &[0xFF],
    ];
    let mut few = vec![];
    for p in pieces {
        for d in 0..=p.len() {
            let front = at - d;
            for tail in [0, r.range(1, 5)] {
                let mut s = vec![b'x'; front % fill.len()];
                s.extend(fill.repeat(front / fill.len()));
                s.extend(p);
                s.extend(vec![b'y'; tail]);
                if s.len() <= 65_535 {
                    few.push(s);
                } else {
                    let e = sde_class(&s);
                    let b = encode(&e);
                    c.eval(bytes_hash(&s), true);
                    c.count("long debug extensions", 1);
                    match mutf8::decode(&s) {
                        mutf8::Dec::Ok(_) => {
                            c.judge_model(&e, &b);
                        }
                        mutf8::Dec::Bad => bad_utf8(c, &b, &s),
                        _ => {}
                    }
                }
            }
        }
    }
    c.count("characters across powers of two", few.len() as u64);
    for s in &few {
        let e = sde_class(s);
        let b = encode(&e);
        match mutf8::decode(s) {
            mutf8::Dec::Ok(_) => {
                c.judge_model(&e, &b);
            }
            mutf8::Dec::Bad => bad_utf8(c, &b, s),
            _ => {}
        }
    }
    for part in few.chunks(40) {
        judge_strings(c, part);
    }
}

// ---------------------------------------------------------------- payloads

/// contents of unknown attributes and debug extensions that are large, uniform, or look like something else
pub fn payloads(c: &mut Ctx) {
    let mut r = c.rng();
    let i = c.idx as usize;
    let top = if c.thorough { 25 } else { 22 };
    let n = match i % (top + 6) {
        k if k < top => ((1usize << k) + r.below(3)).saturating_sub(1),
        _ => r.below(100_000),
    };
    let style = i / (top + 6) % 12;
    let debug = c.prop == "C18";
    let mut v: Vec<u8> = match style {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => vec![b' '; n],
        3 => (0..n).map(|i| i as u8).collect(),
        4 => (0..n).map(|i| (i >> 8) as u8).collect(),
        5 => (0..n).map(|_| r.u8()).collect(),
        6 => [0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53].iter().cycle().take(n).cloned().collect(),
        7 => {
            // what the end of one buffer and the beginning of the next have in common
            let mut v: Vec<u8> = (0..n).map(|_| r.u8()).collect();
            for k in 3..25 {
                for d in 0..4 {
                    let p = (1usize << k) - 2 + d;
                    if p < n {
                        v[p] = 0;
                    }
                }
            }
            v
        }
        8 => {
            // long runs of zeros, at the beginning, inside, and at the end
            let mut v: Vec<u8> = (0..n).map(|_| r.u8()).collect();
            let (a, b) = (r.below(n + 1), r.below(n + 1));
            v[a.min(b)..a.max(b)].fill(0);
            v
        }
        9 => {
            let mut v = vec![0; n];
            if n > 0 {
                let at = r.below(n);
                v[at] = 1;
            }
            v
        }
        10 => b"line\r\n".iter().cycle().take(n).cloned().collect(),
        _ => "d\u{e9}j\u{e0} vu".as_bytes().iter().cycle().take(n).cloned().collect(),
    };
    let body = if debug {
        v.iter_mut().for_each(|x| *x &= 0x7F);
        MBody::SourceDebug(v.into_iter().map(|x| if x == 0 { 1 } else { x }).collect())
    } else {
        MBody::Unknown(v)
    };
    let mut cfg = Cfg::only(&["Signature"]);
    cfg.consts = 2;
    let mut g = G::new(&mut r, cfg);
    let name = g.text(if debug { "SourceDebugExtension" } else { "Foo" });
    let other = g.attr();
    let place = g.r.below(4);
    let k = g.wrap(place, vec![other.clone(), MAttr { name, body }, other]);
    let b = encode(&k);
    note_class(c, &k, &b);
    c.max("longest contents", n as u64);
    c.judge_model(&k, &b);
}

// ---------------------------------------------------------------- errors far away

fn somewhere(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(4) {
        0 => r.below(300),
        1 | 2 => {
            let b = 1usize << r.below(17);
            (b + r.below(5)).saturating_sub(2)
        }
        _ => r.below(max + 1),
    };
    n.min(max)
}

/// instructions that do not exist, anywhere in the code
pub fn far_instructions(c: &mut Ctx) {
    let mut r = c.rng();
    // longer codes than a virtual machine accepts have offsets, too
    let at = match c.idx % 8 {
        7 => r.range(65_530, 65_545),
        6 => r.range(65_536, 300_000),
        _ => somewhere(&mut r, 65_532),
    };
    let mut g_r = r.clone();
    let mut g = G::new(&mut g_r, Cfg::only(&["Synthetic"]));
    g.budget = 1_000_000;
    // all of one byte, or all sorts
    let plain = g.r.bool();
    let mut v = vec![];
    let mut pos = 0;
    while pos < at {
        let i = if plain || at - pos < 40 { Raw::None(0) } else { g.insn(pos as u32) };
        let n = enc::insn_len(&i);
        if pos + n > at {
            v.push(Raw::None(1));
            pos += 1;
            continue;
        }
        v.push(i);
        pos += n;
    }
    let bad = match g.r.below(4) {
        0 => {
            let x = g.r.range(0xCB, 0xFD) as u8;
            v.push(Raw::None(x));
            x
        }
        1 => {
            let x = loop {
                let x = g.r.u8();
                if !(4..=11).contains(&x) {
                    break x;
                }
            };
            v.push(Raw::U8(0xBC, x));
            0xBC
        }
        _ => {
            let x = loop {
                let x = g.r.u8();
                if !WIDE_OPS.contains(&x) {
                    break x;
                }
            };
            v.push(Raw::U8(0xC4, x));
            0xC4
        }
    };
    for _ in 0..g.r.below(6) {
        v.push(Raw::None(0));
    }
    let k = code_of(&mut r, v);
    let b = encode(&k);
    c.eval(bytes_hash(&b), true);
    c.count("undefined instructions anywhere", 1);
    c.max("farthest undefined instruction", at as u64);
    c.sample(|| format!("opcode {:#04x} at {}", bad, at));
    c.judge_as(Verdict::Reject(RErr::BadInsn(bad, at as u32)), &b, true);
}

/// constants that do not exist, and names that are none, anywhere in the pool
pub fn far_constants(c: &mut Ctx) {
    let mut r = c.rng();
    let n = somewhere(&mut r, 65_530);
    let mut p = MPool::new();
    let style = r.below(4);
    while p.count() <= n {
        let k = match style {
            0 => Const::Int(7),
            1 if p.count() < n => Const::Long(r.long()),
            2 if p.count() + 1 < n => a_const(&mut r, false),
            3 => Const::Utf8(vec![]),
            _ => Const::Class(1),
        };
        p.add(k);
    }
    let name = p.utf8("Deprecated");
    let mut k = utf8_class(&[]);
    k.pool = p;
    k.attrs = vec![MAttr { name, body: MBody::Deprecated }];
    let (b, sites) = enc::encode_sites(&k);
    // the last constant before the name, or one near it
    let tags: Vec<&enc::Site> = sites.iter().filter(|s| matches!(s.k, enc::Sk::CpTag(_))).collect();
    let s = tags[tags.len() - 1 - r.below(tags.len().min(6))];
    let enc::Sk::CpTag(i) = s.k else { unreachable!() };
    let mut m = b.clone();
    m[s.off] = *r.pick(&[0u8, 2, 13, 14, 21, 0x80, 0xFF]);
    c.eval(bytes_hash(&m), true);
    c.count("undefined constants anywhere", 1);
    c.max("farthest undefined constant", u64::from(i));
    c.judge_as(Verdict::Reject(RErr::BadCp(i)), &m, true);
    // the name of the attribute is something else
    let j = loop {
        let j = match r.below(3) {
            0 => somewhere(&mut r, 65_535) as u16,
            1 => k.pool.count() as u16 + r.below(3) as u16,
            _ => r.below(k.pool.count()) as u16,
        };
        if !matches!(k.pool.get(j), Some(Const::Utf8(_))) {
            break j;
        }
        if style == 3 {
            break 0;
        }
    };
    let mut m = b.clone();
    let at = m.len() - 6;
    m[at..at + 2].copy_from_slice(&j.to_be_bytes());
    c.eval(bytes_hash(&m), true);
    c.count("names that are none anywhere", 1);
    c.judge_as(Verdict::Reject(RErr::BadCp(j)), &m, true);
    if c.idx % 4 == 0 {
        // what is left of the pool is unaffected by all this
        let v = refp::decide(&b);
        c.judge_as(v, &b, true);
    }
}

// ---------------------------------------------------------------- every position

/// every byte, and every longer character, at every position of short strings
pub fn positions(c: &mut Ctx) {
    let mut r = c.rng();
    let n = 1 + c.idx as usize % 72;
    let fill: &[u8] = [&b"a"[..], b"\x7F", &[0xC3, 0xA9], &[0xE2, 0x82, 0xAC], b"\x01"][c.idx as usize / 72 % 5];
    let mut plain = fill.repeat(n / fill.len());
    plain.extend(vec![b'x'; n % fill.len()]);
    // somewhere else in the file every time
    let pad = r.below(16);
    let k = utf8_class(&[vec![b'p'; pad], plain.clone(), b"end".to_vec()]);
    let b = encode(&k);
    let at = (10..b.len()).find(|i| b[*i..].starts_with(&plain) && b[i - 2..*i] == (n as u16).to_be_bytes() && *i >= 13 + pad).expect("the string");
    let mut m = b.clone();
    let mut s = plain.clone();
    let mut good = vec![];
    let pieces: [&[u8]; 8] = [
        &[0xC0, 0x80],
        &[0xC2, 0x80],
        &[0xDF, 0xBF],
        &[0xE0, 0xA0, 0x80],
        &[0xEF, 0xBF, 0xBF],
        &[0xED, 0xA0, 0x80, 0xED, 0xB0, 0x80],
        &[0xED, 0xAF, 0xBF, 0xED, 0xBF, 0xBF],
        &[0xED, 0x9F, 0xBF],
    ];
    for i in 0..n {
        for x in 0..=255u8 {
            m[at + i] = x;
            s[i] = x;
            match mutf8::decode(&s) {
                mutf8::Dec::Bad => {
                    c.evals += 1;
                    c.count("malformed strings", 1);
                    bad_utf8(c, &m, &s)
                }
                mutf8::Dec::Ok(_) if x & 15 == 1 || x & 15 == 15 => good.push(s.clone()),
                _ => {}
            }
        }
        m[at + i] = plain[i];
        s[i] = plain[i];
        if c.viols > 0 {
            return;
        }
        for p in pieces {
            if i + p.len() <= n {
                s[i..i + p.len()].copy_from_slice(p);
                m[at + i..at + i + p.len()].copy_from_slice(p);
                match mutf8::decode(&s) {
                    mutf8::Dec::Bad => bad_utf8(c, &m, &s),
                    mutf8::Dec::Ok(_) => good.push(s.clone()),
                    _ => {}
                }
                s[i..i + p.len()].copy_from_slice(&plain[i..i + p.len()]);
                m[at + i..at + i + p.len()].copy_from_slice(&plain[i..i + p.len()]);
            }
        }
    }
    c.eval(bytes_hash(&b), true);
    judge_strings(c, &good);
}

// ---------------------------------------------------------------- long lists

fn a_long_list(c: &mut Ctx, r: &mut Rng) -> (MClass, &'static str) {
    let i = c.idx as usize;
    let (list, max) = LISTS[i % LISTS.len()];
    let n = match i / LISTS.len() % 6 {
        0 => 300,
        1 => 130,
        2 => r.range(20, 1100),
        3 => 1030,
        4 => r.range(256, 5000),
        _ => r.range(1000, 66_000),
    };
    (with_list(r, list, n.min(max)), list)
}

/// classes with a long list, cut at many places
pub fn long_prefixes(c: &mut Ctx) {
    let mut r = c.rng();
    let (k, list) = a_long_list(c, &mut r);
    let b = encode(&k);
    c.sample(|| format!("{}: {} bytes", list, b.len()));
    if !c.judge_model(&k, &b) {
        return;
    }
    // a larger file takes longer to parse
    let cuts = (3_000_000 / b.len()).clamp(20, 2500);
    for j in 0..cuts {
        let n = match j % 4 {
            0 | 1 => b.len() - 1 - (j / 2).min(b.len() - 1),
            _ => r.below(b.len()),
        };
        prefix(c, &b, n);
    }
}

/// one malformed spot in a class with a long list
pub fn long_faults(c: &mut Ctx) {
    let mut r = c.rng();
    let (k, list) = a_long_list(c, &mut r);
    let (b, sites) = enc::encode_sites(&k);
    c.sample(|| format!("{}: {} bytes", list, b.len()));
    let mut v: Vec<&enc::Site> = sites.iter().filter(|s| fault_kind(&s.k) > 0 && s.off > 10).collect();
    // late ones, and a few of the others
    let late = v.len() - v.len().min(8);
    let mut some: Vec<&enc::Site> = v[late..].to_vec();
    r.shuffle(&mut v);
    some.extend(v.into_iter().take(16));
    for s in some {
        fault_at(c, &mut r, &b, s, &k.pool);
    }
}

/// wrong lengths in and behind long lists
pub fn long_lengths(c: &mut Ctx) {
    let mut r = c.rng();
    let (k, list) = a_long_list(c, &mut r);
    let (b, sites) = enc::encode_sites(&k);
    c.sample(|| format!("{}: {} bytes", list, b.len()));
    if b.len() < 60_000 {
        lengths_of(c, &mut r, &b, &sites, 2);
    }
}

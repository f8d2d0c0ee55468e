//! Workloads on class files.

use crate::ctx::*;
use crate::enc::{self, encode, encode_sites, Sk};
use crate::gen::*;
use crate::model::*;
use crate::mutf8;
use crate::refp::{self, RErr, Verdict};
use crate::rng::Rng;

/// attribute kinds a property is about
pub fn focus(prop: &str) -> &'static [&'static str] {
    match prop {
        "C13" | "C14" => &["Code"],
        "C15" => &["StackMapTable"],
        "C16" => &[
            "AnnotationDefault",
            "RuntimeVisibleAnnotations",
            "RuntimeInvisibleAnnotations",
            "RuntimeVisibleParameterAnnotations",
            "RuntimeInvisibleParameterAnnotations",
        ],
        "C17" => &["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"],
        "C18" => &[
            "LineNumberTable",
            "LocalVariableTable",
            "LocalVariableTypeTable",
            "MethodParameters",
            "Exceptions",
            "ConstantValue",
            "Signature",
            "SourceFile",
            "SourceDebugExtension",
        ],
        "C19" => &["InnerClasses", "EnclosingMethod", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass"],
        "C12" => &ALL_KINDS,
        _ => &["Deprecated", "Synthetic", "Signature"],
    }
}

/// lists (of gen::LISTS) a property is about
pub fn focus_lists(prop: &str) -> &'static [&'static str] {
    match prop {
        "C11" => &["interfaces", "fields", "methods"],
        "C12" => &["class attributes", "field attributes", "method attributes", "code attributes"],
        "C13" | "C14" => &["exception table", "instructions", "code attributes"],
        "C15" => &["StackMapTable", "full frame locals", "full frame stack"],
        "C16" => &[
            "RuntimeVisibleAnnotations",
            "RuntimeInvisibleAnnotations",
            "element value pairs",
            "element value array",
            "RuntimeVisibleParameterAnnotations",
            "RuntimeInvisibleParameterAnnotations",
        ],
        "C17" => &["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "local variable target", "type path"],
        "C18" => &["Exceptions", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "MethodParameters"],
        "C19" => &[
            "BootstrapMethods",
            "bootstrap arguments",
            "InnerClasses",
            "module requires",
            "module exports",
            "module exports to",
            "module opens",
            "module opens to",
            "module uses",
            "module provides",
            "module provides with",
            "ModulePackages",
        ],
        _ => &[],
    }
}

fn cfg_for(prop: &str, r: &mut Rng) -> Cfg {
    let mut cfg = match prop {
        "C01" | "C03" | "C12" | "C20" | "C21" | "C22" | "C23" | "C28" | "C29" => Cfg::all(),
        p => Cfg::only(focus(p)),
    };
    if prop == "C14" && r.bool() {
        cfg.code_kinds = ALL_KINDS.to_vec();
        cfg.list = 3;
        cfg.attrs = 6;
    }
    if prop == "C11" {
        cfg.members = 12;
        cfg.list = 20;
    }
    if prop == "C12" {
        cfg.list = 2;
        cfg.attrs = 6;
    }
    match r.below(6) {
        0 => {
            cfg.members = 1;
            cfg.attrs = 1;
        }
        1 => {
            cfg.list *= 4;
            cfg.insns *= 6;
        }
        2 => cfg.depth = 8,
        _ => {}
    }
    if prop == "C22" || prop == "C20" || prop == "C21" || prop == "C29" {
        cfg.list = cfg.list.min(4);
        cfg.depth = cfg.depth.min(4);
        cfg.insns = cfg.insns.min(20);
    }
    cfg
}

pub fn random_class(prop: &str, r: &mut Rng) -> MClass {
    let cfg = cfg_for(prop, r);
    let mut g = G::new(r, cfg);
    if prop == "C22" || prop == "C20" || prop == "C21" || prop == "C29" {
        g.budget = 1500;
    }
    g.class()
}

fn kinds_seen(c: &mut Ctx, attrs: &[MAttr]) -> u64 {
    let mut n = 0;
    for a in attrs {
        n += 1;
        c.count(&format!("attribute {}", a.body.kind()), 1);
        if let MBody::Code(k) = &a.body {
            c.count("instructions", k.insns.len() as u64);
            n += kinds_seen(c, &k.attrs);
        }
    }
    n
}

pub fn note_class(c: &mut Ctx, k: &MClass, bytes: &[u8]) {
    let mut n = kinds_seen(c, &k.attrs);
    for m in k.fields.iter().chain(&k.methods) {
        n += kinds_seen(c, &m.attrs);
    }
    let nontrivial = n > 0 || k.pool.count() > 1 || !k.fields.is_empty() || !k.methods.is_empty();
    c.eval(bytes_hash(bytes), nontrivial);
    c.count("input bytes", bytes.len() as u64);
    c.sample(|| format!("class of {} bytes, {} constants, {} attributes: {}", bytes.len(), k.pool.count() - 1, n, hex(bytes)));
}

/// random classes made of what the property is about
pub fn random(c: &mut Ctx) {
    let mut r = c.rng();
    r.mood(4);
    let k = random_class(&c.prop.clone(), &mut r);
    let b = encode(&k);
    note_class(c, &k, &b);
    c.judge_model(&k, &b);
}

/// random classes made of everything
pub fn mixed(c: &mut Ctx) {
    let mut r = c.rng();
    r.mood(4);
    let mut cfg = Cfg::all();
    if r.one_in(10) {
        cfg.list = 30;
        cfg.members = 10;
    }
    let k = G::new(&mut r, cfg).class();
    let b = encode(&k);
    note_class(c, &k, &b);
    c.judge_model(&k, &b);
}

const ROUNDS: usize = 3;

/// every list of the property at sizes where counters and capacities change
pub fn sizes(c: &mut Ctx) {
    let lists = focus_lists(&c.prop);
    let i = c.idx as usize;
    let list = lists[i % lists.len()];
    let max = LISTS.iter().find(|x| x.0 == list).expect("list").1;
    let k = i / lists.len();
    // most sizes several times, with other entries
    let n = if k < ROUNDS * SIZES.len() { SIZES[k % SIZES.len()] } else { k - ROUNDS * SIZES.len() };
    if n > max {
        return;
    }
    let mut r = c.rng();
    if k >= SIZES.len() {
        r.mood(2);
    }
    let m = with_list(&mut r, list, n);
    let b = encode(&m);
    note_class(c, &m, &b);
    c.max(&format!("largest {}", list), n as u64);
    c.judge_model(&m, &b);
}

pub fn sizes_count(prop: &str, thorough: bool) -> u64 {
    let per = ROUNDS * SIZES.len() + if thorough { 1200 } else { 0 };
    (focus_lists(prop).len() * per) as u64
}

const MANY: [usize; 20] = [2, 3, 4, 5, 8, 16, 17, 64, 100, 128, 200, 255, 256, 257, 300, 512, 1000, 4096, 5000, 20_000];

/// the sorts of lists of which the entries are of several kinds, and the kinds
fn uniform_kinds(prop: &str) -> Vec<(&'static str, char, u8)> {
    let mut v = vec![];
    let mut all = |list: &'static str, sort: char, kinds: &[u8]| v.extend(kinds.iter().map(|k| (list, sort, *k)));
    let upto = |n: u8| (0..n).collect::<Vec<u8>>();
    match prop {
        "C12" => {
            for l in focus_lists("C12") {
                all(l, 'k', &upto(ALL_KINDS.len() as u8));
            }
        }
        "C13" => all("instructions", 'o', &(0..=255u8).filter(|o| op_kind(*o) == OpKind::None).collect::<Vec<u8>>()),
        "C15" => {
            all("StackMapTable", 'f', &[0, 63, 64, 127, 247, 248, 249, 250, 251, 252, 253, 254, 255]);
            all("full frame locals", 'v', &upto(9));
            all("full frame stack", 'v', &upto(9));
        }
        "C16" => {
            all("element value pairs", 'e', &upto(13));
            all("element value array", 'e', &upto(13));
        }
        "C17" => {
            all("RuntimeVisibleTypeAnnotations", 't', &TARGETS);
            all("RuntimeInvisibleTypeAnnotations", 't', &TARGETS);
            all("type path", 'p', &upto(4));
        }
        _ => {}
    }
    v
}

pub fn uniform_count(prop: &str) -> u64 {
    (uniform_kinds(prop).len() * MANY.len()) as u64
}

/// long lists of which the entries, or all but a few, are of one kind
pub fn uniform(c: &mut Ctx) {
    let kinds = uniform_kinds(&c.prop);
    let i = c.idx as usize % (kinds.len() * MANY.len());
    let (list, sort, kind) = kinds[i % kinds.len()];
    let n = MANY[i / kinds.len()];
    if n > LISTS.iter().find(|x| x.0 == list).expect("list").1 {
        return;
    }
    let mut r = c.rng();
    r.mood(3);
    let odd = *r.pick(&[0, 0, n, 2 * n]);
    r.pin(sort, kind, odd);
    let m = with_list(&mut r, list, n);
    let b = encode(&m);
    note_class(c, &m, &b);
    c.judge_model(&m, &b);
}

/// bytes changed in a class made of what the property is about; the reference decoder decides
pub fn mutated(c: &mut Ctx) {
    let mut r = c.rng();
    let prop = c.prop.clone();
    let cfg = {
        let mut g = cfg_for(&prop, &mut r);
        g.members = g.members.min(1);
        g.attrs = g.attrs.min(2);
        g.list = g.list.min(4);
        g.consts = 1;
        g
    };
    let k = G::new(&mut r, cfg).class();
    let (b, sites) = encode_sites(&k);
    // behind the constant pool, mostly
    let from = sites.iter().find(|s| s.k == Sk::Flags).map(|s| s.off).unwrap_or(0);
    let mut m = b.clone();
    for _ in 0..r.range(1, 2) {
        let from = if prop != "C12" && r.one_in(8) { 0 } else { from };
        mutate(&mut r, &mut m, from);
    }
    c.eval(bytes_hash(&m), m != b);
    c.sample(|| format!("mutant of {} bytes: {}", m.len(), hex(&m)));
    let v = refp::decide(&m);
    c.judge_as(v, &m, false);
}

pub fn mutate(r: &mut Rng, m: &mut Vec<u8>, from: usize) {
    if m.len() <= from {
        return;
    }
    let at = r.range(from, m.len() - 1);
    match r.below(10) {
        0 => m[at] ^= 1 << r.below(8),
        1 | 2 => m[at] = r.byte(),
        3 => m[at] = m[at].wrapping_add(if r.bool() { 1 } else { 255 }),
        4 => {
            let v = r.idx().to_be_bytes();
            for (i, x) in v.iter().enumerate() {
                if at + i < m.len() {
                    m[at + i] = *x;
                }
            }
        }
        5 => {
            let v = r.word().to_be_bytes();
            for (i, x) in v.iter().enumerate() {
                if at + i < m.len() {
                    m[at + i] = *x;
                }
            }
        }
        6 => {
            let n = r.range(1, 4);
            for _ in 0..n {
                let x = r.byte();
                m.insert(at, x);
            }
        }
        7 => {
            let n = r.range(1, 4).min(m.len() - at);
            m.drain(at..at + n);
        }
        8 => {
            // copy a piece over another place
            let n = r.range(1, 16).min(m.len() - at);
            let piece: Vec<u8> = m[at..at + n].to_vec();
            let to = r.range(from, m.len() - 1);
            if r.bool() {
                for (i, x) in piece.iter().enumerate() {
                    if to + i < m.len() {
                        m[to + i] = *x;
                    }
                }
            } else {
                for (i, x) in piece.iter().enumerate() {
                    m.insert(to + i, *x);
                }
            }
        }
        _ => m.truncate(at),
    }
}

/// classes of the installed JDK
pub fn jdk(c: &mut Ctx) {
    let n = c.jdk.len() as u64;
    if n == 0 {
        return;
    }
    let stride = if c.thorough { 1 } else { 7919 };
    let b = c.jdk[(c.idx.wrapping_mul(stride).wrapping_add(c.seed) % n) as usize].clone();
    c.eval(bytes_hash(&b), true);
    c.count("jdk classes", 1);
    c.count("input bytes", b.len() as u64);
    if let Verdict::Accept(a) = refp::decide(&b) {
        if encode(&a.class) != *b {
            panic!("the reference model does not reproduce a class of the JDK");
        }
        c.count("jdk classes reproduced by the reference model", 1);
        kinds_seen(c, &a.class.attrs);
        for m in a.class.fields.iter().chain(&a.class.methods) {
            kinds_seen(c, &m.attrs);
        }
    }
    c.sample(|| format!("JDK class of {} bytes", b.len()));
    c.judge(&b);
}

// ---------------------------------------------------------------- C04

/// classes that are mostly constant pool
pub fn pools(c: &mut Ctx) {
    let mut r = c.rng();
    let mut cfg = Cfg::only(&["Synthetic"]);
    cfg.dups = true;
    cfg.rich = r.bool();
    cfg.consts = 0;
    let mut g = G::new(&mut r, cfg);
    let n = match g.r.below(12) {
        0 => 0,
        1 => 1,
        2 => 1000,
        _ => g.r.below(40),
    };
    if g.r.one_in(3) {
        // few different constants, many duplicates, long runs of wide ones
        let few: Vec<Const> = (0..g.r.range(1, 5)).map(|_| a_const(g.r, false)).collect();
        for _ in 0..n {
            let x = g.r.pick(&few).clone();
            g.pool.add(x);
        }
    } else {
        for _ in 0..n {
            g.konst();
        }
    }
    let k = g.wrap(0, vec![]);
    let b = encode(&k);
    for s in k.pool.slots.iter().flatten() {
        c.count(&format!("constant tag {}", s.tag()), 1);
    }
    note_class(c, &k, &b);
    c.judge_model(&k, &b);
}

/// pools at their largest, in which every position of the end is used by every width
pub fn pool_limits(c: &mut Ctx) {
    let mut r = c.rng();
    let total = [65535usize, 65534, 65533, 32768, 32767, 257, 256, 255, 3, 2][c.idx as usize % 10];
    let style = c.idx / 10;
    let mut cfg = Cfg::only(&["Synthetic"]);
    cfg.consts = 0;
    let mut g = G::new(&mut r, cfg);
    let mut i = 0u32;
    while g.pool.count() < total {
        let left = total - g.pool.count();
        i += 1;
        let k = match style % 6 {
            0 => Const::Int(i),
            1 if left >= 2 => Const::Long(u64::from(i) << 20),
            2 => Const::Class((i % 7) as u16),
            3 if left == 2 => Const::Double(u64::from(i)),
            4 if left >= 2 && i % 3 == 0 => Const::Double(0x7FF8_0000_0000_0000 + u64::from(i % 5)),
            5 => Const::Utf8(mutf8::encode(&format!("{}", i % 1000))),
            _ => Const::NameType(i as u16, (i >> 16) as u16),
        };
        g.pool.add(k);
    }
    let k = g.wrap(0, vec![]);
    let b = encode(&k);
    note_class(c, &k, &b);
    c.max("largest pool", total as u64);
    c.judge_model(&k, &b);
    // a long or double whose second slot is not in the pool any more
    let mut e = enc::Enc::new();
    let mut k2 = k.clone();
    if matches!(k2.pool.slots.last(), Some(Some(_))) {
        let w = if r.bool() { Const::Long(r.long()) } else { Const::Double(r.long()) };
        *k2.pool.slots.last_mut().unwrap() = Some(w);
        e.class(&k2);
        c.eval(bytes_hash(&e.b), true);
        c.count("wide constant in the last slot", 1);
        match refp::decide(&e.b) {
            Verdict::Reject(_) => {}
            _ => panic!("reference decoder accepts a long in the last slot"),
        }
        c.judge(&e.b);
    }
}

// ---------------------------------------------------------------- C05

/// a minimal class with the given UTF-8 constants
pub fn utf8_class(strings: &[Vec<u8>]) -> MClass {
    let mut p = MPool::new();
    for s in strings {
        p.add(Const::Utf8(s.clone()));
    }
    MClass { minor: 0, major: 53, pool: p, flags: 0, name: 0, super_name: 0, interfaces: vec![], fields: vec![], methods: vec![], attrs: vec![] }
}

pub fn sde_class(s: &[u8]) -> MClass {
    let mut k = utf8_class(&[mutf8::encode("SourceDebugExtension")]);
    k.attrs = vec![MAttr { name: 1, body: MBody::SourceDebug(s.to_vec()) }];
    k
}

/// judges strings; those that must be decoded share a class, the others get one each
pub fn judge_strings(c: &mut Ctx, strings: &[Vec<u8>]) {
    let mut good: Vec<Vec<u8>> = vec![];
    for s in strings {
        match mutf8::decode(s) {
            mutf8::Dec::Ok(_) => {
                c.count("well-formed strings", 1);
                good.push(s.clone());
            }
            mutf8::Dec::Overlong(_) => c.count("overlong strings (open)", 1),
            mutf8::Dec::Bad => {
                c.count("malformed strings", 1);
                let b = encode(&utf8_class(&[s.clone()]));
                bad_utf8(c, &b, s);
            }
        }
        c.eval(bytes_hash(s), true);
    }
    for chunk in good.chunks(60_000) {
        let k = utf8_class(chunk);
        let b = encode(&k);
        c.judge_model(&k, &b);
    }
    c.sample(|| format!("{} strings, one is {}", strings.len(), strings.first().map(|s| hex(s)).unwrap_or_default()));
}

pub fn bad_utf8(c: &mut Ctx, b: &[u8], s: &[u8]) {
    let run = c.run(b);
    match &run.out {
        Out::Err(jbcrs::Error::InvalidUTF8) => {}
        _ => {
            let m = format!("malformed modified UTF-8 {} gave: {}", hex(s), run.show());
            c.violate(&m, b);
        }
    }
}

/// all strings of one or two bytes: the first byte is the index
pub fn utf8_two(c: &mut Ctx) {
    let x = c.idx as u8;
    let mut v = vec![vec![x]];
    for y in 0..=255u8 {
        v.push(vec![x, y]);
    }
    judge_strings(c, &v);
}

/// all strings of three bytes (quick: those starting a three byte sequence, and a sample of the others)
pub fn utf8_three(c: &mut Ctx) {
    let x = (c.idx >> 8) as u8;
    let y = c.idx as u8;
    let mut r = c.rng();
    let interesting = x & 0xF0 == 0xE0;
    if !c.thorough && !interesting && !r.one_in(24) {
        return;
    }
    let mut v = vec![];
    for z in 0..=255u8 {
        if c.thorough || (interesting && y & 0xC0 == 0x80) || r.one_in(6) {
            v.push(vec![x, y, z]);
        }
    }
    judge_strings(c, &v);
}

/// surrogates: every high one with low ones, alone, reversed, separated
pub fn utf8_surrogates(c: &mut Ctx) {
    let mut r = c.rng();
    let hi = 0xD800 + (c.idx % 1024) as u16;
    let mut v = vec![];
    for k in 0..24u16 {
        let lo = match k {
            0 => 0xDC00,
            1 => 0xDFFF,
            _ => 0xDC00 + r.below(1024) as u16,
        };
        v.push(mutf8::encode_units(&[hi, lo]));
        if k < 6 {
            v.push(mutf8::encode_units(&[97, hi, lo, 98]));
            v.push(mutf8::encode_units(&[hi, lo, hi, lo]));
            v.push(mutf8::encode_units(&[lo, hi]));
            v.push(mutf8::encode_units(&[lo]));
            v.push(mutf8::encode_units(&[hi]));
            v.push(mutf8::encode_units(&[hi, hi, lo]));
            v.push(mutf8::encode_units(&[hi, 97, lo]));
            v.push(mutf8::encode_units(&[hi, 0x4E00]));
            v.push(mutf8::encode_units(&[hi, 0xE000]));
            v.push(mutf8::encode_units(&[97, lo, 97]));
            // truncated in the middle, followed by something else or nothing
            let e = mutf8::encode_units(&[hi, lo]);
            for n in 1..6 {
                v.push(e[..n].to_vec());
                let mut t = e[..n].to_vec();
                t.push(b'x');
                v.push(t);
                let mut t = e.clone();
                t[n] = r.u8();
                v.push(t);
            }
            // four byte UTF-8 is not modified UTF-8
            let s: String = char::decode_utf16([hi, lo]).map(|x| x.unwrap()).collect();
            v.push(s.into_bytes());
        }
    }
    judge_strings(c, &v);
}

/// every scalar value (thorough) or a stride of them, alone in a string and in a debug extension
pub fn utf8_scalars(c: &mut Ctx) {
    let per = 4096u64;
    let mut good = vec![];
    let mut all = String::new();
    let step = if c.thorough { 1 } else { 7 };
    let mut x = c.idx * per + (c.seed % step);
    while x < (c.idx + 1) * per {
        if let Some(ch) = char::from_u32(x as u32) {
            good.push(mutf8::encode(&ch.to_string()));
            if mutf8::encode(&all).len() < 60_000 {
                all.push(ch);
            }
        }
        x += step;
    }
    c.count("scalar values", good.len() as u64);
    judge_strings(c, &good);
    let k = sde_class(&mutf8::encode(&all));
    let b = encode(&k);
    c.judge_model(&k, &b);
}

/// longer random strings, valid and damaged, as constants and as debug extensions
pub fn utf8_random(c: &mut Ctx) {
    let mut r = c.rng();
    let n = if r.one_in(50) && !c.tiny { r.range(5000, 20000) } else { r.below(40) };
    let s: String = (0..n).map(|_| a_char(&mut r)).collect();
    let mut b = mutf8::encode(&s);
    b.truncate(65535);
    let mut v = vec![];
    if let mutf8::Dec::Ok(_) = mutf8::decode(&b) {
        v.push(b.clone());
    }
    for _ in 0..4 {
        let mut m = b.clone();
        if m.is_empty() {
            m.push(0x80);
        }
        let at = r.below(m.len());
        match r.below(4) {
            0 => m[at] = r.u8(),
            1 => m.truncate(at),
            2 => {
                m.remove(at);
            }
            _ => m.insert(at, *r.pick(&[0u8, 0x80, 0xBF, 0xC0, 0xE0, 0xED, 0xF0, 0xFF])),
        }
        m.truncate(65535);
        v.push(m);
    }
    judge_strings(c, &v);
    for s in v {
        match mutf8::decode(&s) {
            mutf8::Dec::Ok(_) => {
                let k = sde_class(&s);
                let b = encode(&k);
                c.judge_model(&k, &b);
            }
            mutf8::Dec::Bad => {
                let b = encode(&sde_class(&s));
                bad_utf8(c, &b, &s);
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- C12

/// every kind of attribute at every place, with its name in different constants
pub fn names(c: &mut Ctx) {
    let mut r = c.rng();
    let i = c.idx as usize;
    let kind = ALL_KINDS[i % 27];
    let place = i / 27 % 4;
    let mut cfg = Cfg::all();
    cfg.list = 3;
    cfg.consts = 0;
    cfg.depth = 2;
    cfg.rich = false;
    let mut g = G::new(&mut r, cfg);
    g.budget = 400;
    match i / 108 % 5 {
        0 => {}
        1 => {
            // the index of the name needs two bytes
            for k in 0..300 {
                g.pool.add(Const::Int(k));
            }
        }
        2 => {
            // the name occurs twice
            g.pool.utf8(kind);
        }
        3 => {
            for n in ATTR_NAMES {
                g.text(n);
            }
        }
        _ => {
            for k in 0..40_000u32 {
                g.pool.add(Const::Class(k as u16));
            }
        }
    }
    let n = g.r.below(4);
    let v: Vec<MAttr> = (0..n).map(|_| if g.r.bool() { g.attr_of(kind) } else { g.attr() }).collect();
    let mut v = v;
    let at = g.r.below(v.len() + 1);
    let a = g.attr_of(kind);
    v.insert(at, a);
    if g.r.bool() {
        let a = g.attr_of("(unknown)");
        v.push(a);
    }
    let k = g.wrap(place, v);
    let b = encode(&k);
    note_class(c, &k, &b);
    c.count(&format!("place {}", ["class", "field", "method", "code"][place]), 1);
    c.judge_model(&k, &b);
}

/// names that are nearly the one of a predefined attribute, with contents fitting that attribute
pub fn near_names(c: &mut Ctx) {
    let mut r = c.rng();
    let mut cfg = Cfg::all();
    cfg.consts = 0;
    cfg.list = 3;
    let mut g = G::new(&mut r, cfg);
    g.budget = 300;
    let kind = *g.r.pick(&ATTR_NAMES);
    let real = g.attr_of(kind);
    let tmp = G::new(&mut Rng::new(0, "", 0), Cfg::all()).wrap(0, vec![]);
    let _ = tmp;
    let mut e = enc::Enc::new();
    e.attrs(&[real]);
    let content = e.b[8..].to_vec();
    let s = loop {
        let s = near_name(g.r);
        if !ATTR_NAMES.contains(&s.as_str()) {
            break s;
        }
    };
    let name = g.text(&s);
    let a = MAttr { name, body: MBody::Unknown(content) };
    let place = g.r.below(4);
    let k = g.wrap(place, vec![a]);
    let b = encode(&k);
    note_class(c, &k, &b);
    c.judge_model(&k, &b);
}

/// attribute names that are no strings
pub fn bad_names(c: &mut Ctx) {
    let mut r = c.rng();
    let mut cfg = Cfg::all();
    cfg.list = 2;
    cfg.consts = 20;
    let mut g = G::new(&mut r, cfg);
    g.budget = 200;
    let k = g.class();
    let (b, sites) = encode_sites(&k);
    let at: Vec<usize> = sites.iter().filter(|s| s.k == Sk::AttrName).map(|s| s.off).collect();
    for off in at.iter().take(8) {
        let i = bad_utf8_index(&mut r, &k.pool);
        let mut m = b.clone();
        m[*off..*off + 2].copy_from_slice(&i.to_be_bytes());
        c.eval(bytes_hash(&m), true);
        c.count("attribute names that are no strings", 1);
        c.sample(|| format!("name index {} at byte {}", i, off));
        c.judge_as(Verdict::Reject(RErr::BadCp(i)), &m, true);
    }
}

/// an index at which the pool has no UTF-8 constant
fn bad_utf8_index(r: &mut Rng, p: &MPool) -> u16 {
    for _ in 0..40 {
        let i = match r.below(4) {
            0 => 0,
            1 => p.count() as u16,
            2 => r.idx(),
            _ => r.below(p.count()) as u16,
        };
        if !matches!(p.get(i), Some(Const::Utf8(_))) {
            return i;
        }
    }
    0
}

/// contents of unknown attributes
pub fn unknown(c: &mut Ctx) {
    let mut r = c.rng();
    let n = [0, 1, 2, 255, 256, 65535, 65536, 70000, 200_000][c.idx as usize % 9];
    let n = if c.idx >= 18 { r.below(5000) } else { n };
    let mut cfg = Cfg::only(&["(unknown)"]);
    cfg.consts = 3;
    let mut g = G::new(&mut r, cfg);
    let name = g.text("Foo");
    let body = (0..n).map(|i| if i < 256 { i as u8 } else { g.r.u8() }).collect();
    let a = MAttr { name, body: MBody::Unknown(body) };
    let b2 = g.attr();
    let place = g.r.below(4);
    let k = g.wrap(place, vec![b2.clone(), a, b2]);
    let b = encode(&k);
    note_class(c, &k, &b);
    c.judge_model(&k, &b);
}

// ---------------------------------------------------------------- C13, C14

fn one_code(pool_front: usize, code: MCode) -> MClass {
    let mut p = MPool::new();
    for _ in 0..pool_front {
        // moves the start of the code in the file
        p.add(Const::Utf8(vec![b'x']));
    }
    let n = p.utf8("Code");
    MClass {
        minor: 0,
        major: 53,
        pool: p,
        flags: 1,
        name: 0,
        super_name: 0,
        interfaces: vec![],
        fields: vec![],
        methods: vec![MMember { flags: 1, name: 0, desc: 0, attrs: vec![MAttr { name: n, body: MBody::Code(Box::new(code)) }] }],
        attrs: vec![],
    }
}

pub fn code_of(r: &mut Rng, insns: Vec<Raw>) -> MClass {
    let mut at = 0;
    let v: Vec<MInsn> = insns
        .into_iter()
        .map(|i| {
            let m = MInsn { at, i };
            at += enc::insn_len(&m.i) as u32;
            m
        })
        .collect();
    one_code(r.below(4), MCode { max_stack: r.idx(), max_locals: r.idx(), insns: v, exc: vec![], attrs: vec![] })
}

/// all operands of the instructions with one operand (many per class)
pub fn operands(c: &mut Ctx) {
    let mut r = c.rng();
    let op = (c.idx / 4) as u8;
    let part = (c.idx % 4) as u32;
    let v: Vec<Raw> = match op_kind(op) {
        OpKind::U8 if part == 0 => (0..=255u8).map(|x| Raw::U8(op, x)).collect(),
        OpKind::NewArray if part == 0 => (4..=11).map(|x| Raw::U8(op, x)).collect(),
        OpKind::U16 => (0..16384u32).map(|x| Raw::U16(op, (part * 16384 + x) as u16)).collect(),
        OpKind::InvDyn => (0..13000u32).map(|x| Raw::InvDyn((x * 5 + part) as u16, 0)).collect(),
        OpKind::U32 => (0..13000).map(|i| Raw::U32(op, if i < 33 { (1u64 << i) as u32 } else if i < 66 { ((1u64 << (i - 33)) - 1) as u32 } else { r.u32() })).collect(),
        OpKind::Iinc => (0..16384u32).map(|x| Raw::Iinc((part * 64 + (x >> 8)) as u8, x as u8)).collect(),
        OpKind::Multi => (0..16384u32).map(|x| Raw::Multi(r.u16(), x as u8)).collect(),
        OpKind::InvIf => (0..13000u32).map(|x| Raw::InvIf(r.u16(), x as u8, 0)).collect(),
        OpKind::None if part == 0 => (0..5).map(|_| Raw::None(op)).collect(),
        _ => return,
    };
    c.count("opcodes with all operands", u64::from(part == 0));
    c.count("instructions", v.len() as u64);
    let k = code_of(&mut r, v);
    let b = encode(&k);
    c.eval(bytes_hash(&b), true);
    c.sample(|| format!("opcode {:#04x}, part {}", op, part));
    c.judge_model(&k, &b);
}

/// all operands of the wide forms
pub fn wide_operands(c: &mut Ctx) {
    let mut r = c.rng();
    let op = WIDE_OPS[(c.idx / 8) as usize % 12];
    let part = (c.idx % 8) as u32 * 8192;
    // what would fit into the narrow form, and what would not
    let fixed = [0u16, 5, 255, 256, 127, 0xFF80, 0xFF7F, 0xFFFF, 1, 128, 0x7FFF, 0x8000];
    let v: Vec<Raw> = (0..8192u32)
        .map(|x| {
            let x = (part + x) as u16;
            match op {
                0x84 if r.bool() => Raw::WideIinc(x, r.idx()),
                0x84 => Raw::WideIinc(r.idx(), x),
                _ => Raw::Wide(op, x),
            }
        })
        .collect();
    if op == 0x84 {
        for f in fixed {
            for how in 0..2 {
                let v = (0..8192u32).map(|x| (part + x) as u16).map(|x| if how == 0 { Raw::WideIinc(f, x) } else { Raw::WideIinc(x, f) }).collect();
                let k = code_of(&mut r, v);
                let b = encode(&k);
                c.eval(bytes_hash(&b), true);
                c.count("wide instructions", 8192);
                c.judge_model(&k, &b);
            }
        }
    }
    c.count("wide instructions", v.len() as u64);
    let k = code_of(&mut r, v);
    let b = encode(&k);
    c.eval(bytes_hash(&b), true);
    c.judge_model(&k, &b);
}

/// every opcode alone at every alignment, and what must not be one
pub fn opcodes(c: &mut Ctx) {
    let mut r = c.rng();
    let op = (c.idx % 256) as u8;
    let align = (c.idx / 256 % 5) as u32;
    let mut g_r = r.clone();
    let mut g = G::new(&mut g_r, Cfg::only(&["Synthetic"]));
    let mut v: Vec<Raw> = (0..align).map(|_| Raw::None(0)).collect();
    if op_kind(op) == OpKind::Undefined {
        // encoded as an instruction without operands
        v.push(Raw::None(op));
        v.push(Raw::None(0xB1));
        let k = code_of(&mut r, v);
        let b = encode(&k);
        c.eval(bytes_hash(&b), true);
        c.count("undefined opcodes", 1);
        c.judge_as(Verdict::Reject(RErr::BadInsn(op, align)), &b, true);
        return;
    }
    let i = g.insn_of(op, align);
    v.push(i);
    for _ in 0..r.below(3) {
        v.push(Raw::None(0xB1));
    }
    let k = code_of(&mut r, v);
    let b = encode(&k);
    c.eval(bytes_hash(&b), true);
    c.count("opcodes", 1);
    c.sample(|| format!("opcode {:#04x} at {}: {}", op, align, hex(&b)));
    c.judge_model(&k, &b);
}

/// every byte behind wide and newarray
pub fn undefined_forms(c: &mut Ctx) {
    let mut r = c.rng();
    let x = (c.idx % 256) as u8;
    let at = (c.idx / 256 % 3) as u32;
    let front: Vec<Raw> = (0..at).map(|_| Raw::None(0)).collect();
    for wide in [true, false] {
        let mut v = front.clone();
        let ok = if wide { WIDE_OPS.contains(&x) } else { (4..=11).contains(&x) };
        if ok {
            continue;
        }
        v.push(if wide { Raw::Wide(x, r.u16()) } else { Raw::U8(0xBC, x) });
        v.push(Raw::None(0xB1));
        v.push(Raw::None(0xB1));
        let k = code_of(&mut r, v);
        let b = encode(&k);
        c.eval(bytes_hash(&b), true);
        c.count(if wide { "undefined wide forms" } else { "undefined array types" }, 1);
        c.judge_as(Verdict::Reject(RErr::BadInsn(if wide { 0xC4 } else { 0xBC }, at)), &b, true);
    }
}

/// switches: alignment, padding contents, sizes, extreme bounds
pub fn switches(c: &mut Ctx) {
    let mut r = c.rng();
    let align = (c.idx % 8) as u32;
    let table = c.idx / 8 % 2 == 0;
    let big = c.idx / 16 % 40 == 0;
    let mut g_r = r.clone();
    let mut cfg = Cfg::only(&["Synthetic"]);
    cfg.list = 8;
    let mut g = G::new(&mut g_r, cfg);
    let mut v: Vec<Raw> = (0..align).map(|_| Raw::None(0)).collect();
    let n = if big { *g.r.pick(&[256, 1000, 8000]) } else { g.r.below(12) };
    v.push(if table { g.table(align, n.max(1)) } else { g.lookup(align, n) });
    let mut at: u32 = v.iter().map(|i| enc::insn_len(i) as u32).sum();
    // something behind it, a second switch among it
    for _ in 0..g.r.below(4) {
        let i = g.insn(at);
        at += enc::insn_len(&i) as u32;
        v.push(i);
    }
    let op = if g.r.bool() { 0xAA } else { 0xAB };
    let i = g.insn_of(op, at);
    v.push(i);
    if v.iter().map(|i| enc::insn_len(i) as u32).sum::<u32>() > 65535 {
        return;
    }
    let k = code_of(&mut r, v);
    let b = encode(&k);
    c.eval(bytes_hash(&b), true);
    c.count(if table { "table switches" } else { "lookup switches" }, 1);
    c.sample(|| hex(&b));
    c.judge_model(&k, &b);
}

/// tableswitch with low > high, and bounds that ask for more than there is
pub fn bad_switches(c: &mut Ctx) {
    let mut r = c.rng();
    let vals = [i32::MIN, i32::MIN + 1, -2, -1, 0, 1, 2, 100, i32::MAX - 1, i32::MAX, r.u32() as i32, r.u32() as i32];
    for lo in vals {
        for hi in vals {
            let align = r.below(4);
            let mut code: Vec<u8> = vec![0; align];
            code.push(0xAA);
            while code.len() % 4 != 0 {
                code.push(0);
            }
            code.extend_from_slice(&r.u32().to_be_bytes());
            code.extend_from_slice(&lo.to_be_bytes());
            code.extend_from_slice(&hi.to_be_bytes());
            for _ in 0..r.below(6) {
                code.extend_from_slice(&r.u32().to_be_bytes());
            }
            let b = raw_code(&code);
            c.eval(bytes_hash(&b), true);
            c.count("table switch bounds", 1);
            c.judge(&b);
        }
    }
}

/// a class with one method of the given code bytes
pub fn raw_code(code: &[u8]) -> Vec<u8> {
    raw_code_with(code, code.len() as u32, 0)
}

fn raw_code_with(code: &[u8], declared: u32, tail: usize) -> Vec<u8> {
    let k = one_code(0, MCode { max_stack: 1, max_locals: 1, insns: vec![], exc: vec![], attrs: vec![] });
    let (mut b, sites) = encode_sites(&k);
    let len = sites.iter().find(|s| s.k == Sk::CodeLen).unwrap().off;
    let alen = sites.iter().find(|s| matches!(s.k, Sk::AttrLen(_))).unwrap().off;
    b.splice(len + 4..len + 4, code.iter().cloned());
    b[len..len + 4].copy_from_slice(&declared.to_be_bytes());
    let n = 12 + code.len() as u32;
    b[alen..alen + 4].copy_from_slice(&n.to_be_bytes());
    b.extend(std::iter::repeat(0).take(tail));
    b
}

/// code bytes at random, decided by the reference decoder
pub fn random_code_bytes(c: &mut Ctx) {
    let mut r = c.rng();
    let n = r.range(1, 24);
    let code: Vec<u8> = (0..n)
        .map(|_| match r.below(4) {
            0 => *r.pick(&[0xAA, 0xAB, 0xC4, 0x84, 0xBC, 0xC8, 0xB9, 0xBA, 0]),
            1 => 0,
            _ => r.u8(),
        })
        .collect();
    let b = raw_code(&code);
    c.eval(bytes_hash(&b), true);
    c.sample(|| format!("code {}", hex(&code)));
    c.judge(&b);
}

/// the declared code length is moved while the bytes stay
pub fn code_length(c: &mut Ctx) {
    let mut r = c.rng();
    let mut g_r = r.clone();
    let mut g = G::new(&mut g_r, Cfg::only(&["Synthetic"]));
    let mut v = vec![];
    let mut at = 0u32;
    for _ in 0..g.r.range(1, 6) {
        let i = g.insn(at);
        at += enc::insn_len(&i) as u32;
        v.push(i);
    }
    let k = code_of(&mut r, v);
    let (b, sites) = encode_sites(&k);
    let len = sites.iter().find(|s| s.k == Sk::CodeLen).unwrap().off;
    for d in [-(at as i64), -8, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 8, 0x7FFF_FFFF, 0xFFFF_0000] {
        let n = i64::from(at) + d;
        if n < 0 {
            continue;
        }
        let mut m = b.clone();
        m[len..len + 4].copy_from_slice(&(n as u32).to_be_bytes());
        if r.bool() {
            // more bytes in the file
            m.extend(std::iter::repeat(0).take(40));
        }
        c.eval(bytes_hash(&m), true);
        c.count("moved code lengths", 1);
        c.judge(&m);
    }
    // cut inside of the last instruction, everything else consistent
    let code = &b[len + 4..len + 4 + at as usize];
    for n in 0..code.len() {
        let m = raw_code(&code[..n]);
        c.eval(bytes_hash(&m), true);
        c.count("codes cut short", 1);
        c.judge(&m);
    }
}

/// full-size codes
pub fn big_code(c: &mut Ctx) {
    let mut r = c.rng();
    let target = *r.pick(&[65535usize, 65534, 65533, 40000, 65536, 65537, 65540, 70_000, 131_072, 131_073, 200_000]);
    let mut g_r = r.clone();
    let mut cfg = Cfg::only(&["Synthetic"]);
    cfg.list = *r.pick(&[2, 30, 400]);
    let mut g = G::new(&mut g_r, cfg);
    g.budget = 10_000_000;
    let mut v = vec![];
    let mut at = 0u32;
    loop {
        let i = g.insn(at);
        let n = enc::insn_len(&i);
        if at as usize + n > target {
            break;
        }
        at += n as u32;
        v.push(i);
    }
    // the last ones are removed, so that the end consists of short ones
    for _ in 0..g.r.below(4) {
        if let Some(i) = v.pop() {
            at -= enc::insn_len(&i) as u32;
        }
    }
    let end = if g.r.bool() { 0 } else { g.r.below(16) as u8 };
    while (at as usize) < target {
        v.push(Raw::None(end));
        at += 1;
    }
    let k = code_of(&mut r, v);
    let b = encode(&k);
    note_class(c, &k, &b);
    c.max("largest code", target as u64);
    c.judge_model(&k, &b);
}

// ---------------------------------------------------------------- C15, C16, C17: tag bytes

pub fn single_attr(r: &mut Rng, kind: &'static str, body: MBody, place: usize) -> MClass {
    let mut g = G::new(r, Cfg::only(&["Synthetic"]));
    let name = g.text(kind);
    g.wrap(place, vec![MAttr { name, body }])
}

/// each of the 256 frame types, alone and among others
pub fn frame_tags(c: &mut Ctx) {
    let mut r = c.rng();
    let tag = (c.idx % 256) as u8;
    let reserved = (128..=246).contains(&tag);
    let mut g_r = r.clone();
    let mut g = G::new(&mut g_r, Cfg::only(&["StackMapTable"]));
    let f = if reserved { MFrame { tag, delta: 0, locals: vec![], stack: vec![] } } else { g.frame_of(tag) };
    let mut v: Vec<MFrame> = (0..g.r.below(3)).map(|_| g.frame()).collect();
    v.push(f);
    if reserved {
        v.push(MFrame { tag: 0, delta: 0, locals: vec![], stack: vec![] });
    } else {
        v.extend((0..g.r.below(3)).map(|_| g.frame()));
    }
    let place = r.below(4);
    let k = single_attr(&mut r, "StackMapTable", MBody::StackMap(v), place);
    if reserved {
        // a reserved tag has no encoding of its own: take an offset delta along
        let mut k2 = k.clone();
        let b = encode(&k2);
        let _ = &mut k2;
        c.eval(bytes_hash(&b), true);
        c.count("reserved frame types", 1);
        c.judge_as(Verdict::Reject(RErr::BadFrame(tag)), &b, true);
    } else {
        let b = encode(&k);
        c.eval(bytes_hash(&b), true);
        c.count("frame types", 1);
        c.sample(|| format!("frame type {}: {}", tag, hex(&b)));
        c.judge_model(&k, &b);
    }
}

/// each of the 256 verification type tags in every position
pub fn vt_tags(c: &mut Ctx) {
    let mut r = c.rng();
    let t = (c.idx % 256) as u8;
    let pos = c.idx / 256 % 10;
    let good = t <= 8;
    let vt = MVt(if good { t } else { 0 }, if t == 7 || t == 8 { r.idx() } else { 0 });
    let mut g_r = r.clone();
    let mut g = G::new(&mut g_r, Cfg::only(&["StackMapTable"]));
    let tag = match pos {
        0 => 64 + g.r.below(64) as u8,
        1 => 247,
        2 => 252,
        3 | 4 => 253,
        5..=7 => 254,
        _ => 255,
    };
    let mut f = g.frame_of(tag);
    let nth; // which verification type of the frame
    match pos {
        0 | 1 => {
            f.stack[0] = vt;
            nth = 0;
        }
        2 | 3 | 5 => {
            f.locals[0] = vt;
            nth = 0;
        }
        4 | 6 => {
            f.locals[1] = vt;
            nth = 1;
        }
        7 => {
            f.locals[2] = vt;
            nth = 2;
        }
        8 => {
            f.locals.push(vt);
            nth = f.locals.len() - 1;
        }
        _ => {
            f.stack.insert(0, vt);
            nth = f.locals.len();
        }
    }
    let h = g.frame();
    let k = single_attr(&mut r, "StackMapTable", MBody::StackMap(vec![f, h]), (c.idx / 2560) as usize);
    let (mut b, sites) = encode_sites(&k);
    c.count("verification type tags", 1);
    if good {
        c.eval(bytes_hash(&b), true);
        c.judge_model(&k, &b);
    } else {
        let s = sites.iter().filter(|s| s.k == Sk::VtTag).nth(nth).unwrap();
        b[s.off] = t;
        c.eval(bytes_hash(&b), true);
        c.judge_as(Verdict::Reject(RErr::BadVt(t)), &b, true);
    }
}

/// each of the 256 element value tags at every place
pub fn ev_tags(c: &mut Ctx) {
    let mut r = c.rng();
    let t = (c.idx % 256) as u8;
    let style = c.idx / 256 % 8;
    let mut g_r = r.clone();
    let mut g = G::new(&mut g_r, Cfg::only(&["AnnotationDefault"]));
    g.budget = 100;
    let good = EV_IDX_TAGS.contains(&t) || t == b'e' || t == b'@' || t == b'[';
    let inner = match t {
        b'e' => MEv::Enum(g.r.idx(), g.r.idx()),
        b'@' => MEv::Ann(Box::new(g.ann(1))),
        b'[' => {
            let n = g.len();
            MEv::Arr((0..n).map(|_| g.ev(1)).collect())
        }
        _ if good => MEv::Idx(t, g.r.idx()),
        _ => MEv::Idx(b's', g.r.idx()),
    };
    // position of the tag among all tags of the attribute
    let ann = |g: &mut G, e: MEv| MAnn { ty: g.r.idx(), pairs: vec![(g.r.idx(), MEv::Idx(b'I', 3)), (g.r.idx(), e), (g.r.idx(), MEv::Idx(b'Z', 4))] };
    let (kind, body, nth) = match style {
        0 => ("AnnotationDefault", MBody::AnnotationDefault(inner), 0),
        1 => ("AnnotationDefault", MBody::AnnotationDefault(MEv::Arr(vec![inner, MEv::Idx(b'c', 9)])), 1),
        2 => {
            let a = ann(&mut g, inner);
            ("RuntimeVisibleAnnotations", MBody::Anns(true, vec![a]), 1)
        }
        3 => {
            let a = ann(&mut g, inner);
            ("RuntimeInvisibleAnnotations", MBody::Anns(false, vec![a]), 1)
        }
        4 => {
            let a = ann(&mut g, inner);
            ("RuntimeVisibleParameterAnnotations", MBody::ParamAnns(true, vec![vec![], vec![a]]), 1)
        }
        5 => {
            let a = ann(&mut g, inner);
            ("RuntimeInvisibleParameterAnnotations", MBody::ParamAnns(false, vec![vec![a], vec![]]), 1)
        }
        6 => {
            let a = ann(&mut g, inner);
            ("AnnotationDefault", MBody::AnnotationDefault(MEv::Ann(Box::new(a))), 2)
        }
        _ => {
            let a = ann(&mut g, MEv::Arr(vec![MEv::Idx(b'B', 1), inner]));
            ("RuntimeVisibleAnnotations", MBody::Anns(true, vec![a]), 3)
        }
    };
    let place = r.below(4);
    let k = single_attr(&mut r, kind, body, place);
    let (mut b, sites) = encode_sites(&k);
    c.count("element value tags", 1);
    if good {
        c.eval(bytes_hash(&b), true);
        c.sample(|| format!("element tag {:?}: {}", t as char, hex(&b)));
        c.judge_model(&k, &b);
    } else {
        let s = sites.iter().filter(|s| s.k == Sk::EvTag).nth(nth).unwrap();
        b[s.off] = t;
        c.eval(bytes_hash(&b), true);
        c.judge_as(Verdict::Reject(RErr::BadEv(t)), &b, true);
    }
}

/// each of the 256 target types and path kinds
pub fn target_tags(c: &mut Ctx) {
    let mut r = c.rng();
    let t = (c.idx % 256) as u8;
    let vis = c.idx / 256 % 2 == 0;
    let path = c.idx / 512 % 2 == 1;
    let kind = if vis { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" };
    let mut g_r = r.clone();
    let mut g = G::new(&mut g_r, Cfg::only(&["Synthetic"]));
    g.budget = 60;
    let place = (c.idx / 1024) as usize;
    if path {
        let mut a = g.tann();
        let good = t <= 3;
        let n = g.r.below(4);
        a.path = (0..n).map(|_| (g.r.below(4) as u8, g.r.byte())).collect();
        a.path.push((if good { t } else { 0 }, g.r.byte()));
        let h = g.tann();
        let k = single_attr(&mut r, kind, MBody::TypeAnns(vis, vec![a, h]), place);
        let (mut b, sites) = encode_sites(&k);
        c.count("path kinds", 1);
        if good {
            c.eval(bytes_hash(&b), true);
            c.judge_model(&k, &b);
        } else {
            let s = sites.iter().filter(|s| s.k == Sk::PathKind).nth(n).unwrap();
            b[s.off] = t;
            c.eval(bytes_hash(&b), true);
            c.judge_as(Verdict::Reject(RErr::BadPath), &b, true);
        }
        return;
    }
    let good = target_kind(t) != TKind::Undefined;
    let a = g.tann_of(if good { t } else { 0x13 });
    let h = g.tann();
    let first = g.tann();
    let k = single_attr(&mut r, kind, MBody::TypeAnns(vis, vec![first, a, h]), place);
    let (mut b, sites) = encode_sites(&k);
    c.count("target types", 1);
    if good {
        c.eval(bytes_hash(&b), true);
        c.sample(|| format!("target type {:#04x}: {}", t, hex(&b)));
        c.judge_model(&k, &b);
    } else {
        let s = sites.iter().filter(|s| s.k == Sk::TargetType).nth(1).unwrap();
        b[s.off] = t;
        c.eval(bytes_hash(&b), true);
        c.judge_as(Verdict::Reject(RErr::BadTarget), &b, true);
    }
}

/// single attributes of the property, each with many random contents
pub fn attr_values(c: &mut Ctx) {
    let mut r = c.rng();
    let kinds = focus(&c.prop);
    let kind = kinds[c.idx as usize % kinds.len()];
    let place = c.idx as usize / kinds.len();
    let mut g_r = r.clone();
    g_r.mood(4);
    let mut cfg = Cfg::only(kinds);
    cfg.list = 5;
    let mut g = G::new(&mut g_r, cfg);
    let a = g.attr_of(kind);
    let k = g.wrap(place, vec![a]);
    let _ = &mut r;
    let b = encode(&k);
    note_class(c, &k, &b);
    c.judge_model(&k, &b);
}

// ---------------------------------------------------------------- C20

/// declared attribute lengths that do not fit the contents
pub fn lengths(c: &mut Ctx) {
    let mut r = c.rng();
    let k = random_class("C20", &mut r);
    let (b, sites) = encode_sites(&k);
    lengths_of(c, &mut r, &b, &sites, 12);
}

/// the same for every kind of attribute at every place, small contents
pub fn lengths_each(c: &mut Ctx) {
    let mut r = c.rng();
    let kind = ALL_KINDS[c.idx as usize % 26];
    let place = c.idx as usize / 26;
    let mut g_r = r.clone();
    let mut cfg = Cfg::all();
    cfg.list = 3;
    cfg.consts = 0;
    cfg.depth = 2;
    let mut g = G::new(&mut g_r, cfg);
    g.budget = 150;
    let n = g.r.range(0, 2);
    let mut v = vec![g.attr_sized(kind, n)];
    if g.r.bool() {
        let a = g.attr_of(kind);
        v.push(a);
    }
    if g.r.bool() {
        let a = g.attr_of("(unknown)");
        v.push(a);
    }
    let k = g.wrap(place, v);
    let (b, sites) = encode_sites(&k);
    lengths_of(c, &mut r, &b, &sites, 6);
}

pub fn lengths_of(c: &mut Ctx, r: &mut Rng, b: &[u8], sites: &[enc::Site], max: usize) {
    let mut at: Vec<&enc::Site> = sites.iter().filter(|s| matches!(s.k, Sk::AttrLen(_))).collect();
    r.shuffle(&mut at);
    for s in at.into_iter().take(max) {
        let n = u32::from_be_bytes(b[s.off..s.off + 4].try_into().unwrap());
        let more = *r.pick(&[512i64, 1024, 4096, 32_768, 131_072, 0x100_0000, 3, 5, 7, 10, 16, 20, 24, 128, -256, -512]);
        let ds = [1i64, -1, 2, -2, 4, -4, 6, 8, 12, -8, 30, 200, 256, 65_536, more, 70_000, 0x7FFF_0000, -i64::from(n), i64::from(n), 0xFFFF_FFFF - i64::from(n)];
        for d in ds {
            let m = i64::from(n) + d;
            if !(0..=0xFFFF_FFFF).contains(&m) || d == 0 || d > 300 && r.one_in(3) {
                continue;
            }
            // only the declared length
            let mut x = b.to_vec();
            x[s.off..s.off + 4].copy_from_slice(&(m as u32).to_be_bytes());
            if r.bool() {
                let t = r.range(1, 300);
                x.extend((0..t).map(|_| if r.bool() { 0 } else { r.byte() }));
            }
            len_case(c, &x, s.attr, "length only");
            // bytes added or removed at the end of the contents, enclosing lengths kept
            if d.unsigned_abs() < 300 || d <= 131_072 && d % 256 == 0 {
                let end = s.off + 4 + n as usize;
                let mut x = b.to_vec();
                if d > 0 {
                    let ins: Vec<u8> = (0..d).map(|_| if r.bool() { 0 } else { r.byte() }).collect();
                    x.splice(end..end, ins);
                } else if m >= 0 {
                    x.drain(end - d.unsigned_abs() as usize..end);
                }
                len_case(c, &x, s.attr, "contents only");
                // both, so that only the inner structure is wrong
                x[s.off..s.off + 4].copy_from_slice(&(m as u32).to_be_bytes());
                len_case(c, &x, s.attr, "contents and length");
                // and the enclosing attributes adapted as well
                for o in sites.iter().filter(|o| matches!(o.k, Sk::AttrLen(_)) && o.off < s.off) {
                    let on = u32::from_be_bytes(b[o.off..o.off + 4].try_into().unwrap());
                    if o.off + 4 + on as usize >= s.off + 4 + n as usize {
                        let v = (i64::from(on) + d).max(0) as u32;
                        x[o.off..o.off + 4].copy_from_slice(&v.to_be_bytes());
                    }
                }
                len_case(c, &x, s.attr, "contents and all lengths");
            }
        }
    }
}

fn len_case(c: &mut Ctx, x: &[u8], attr: &str, what: &str) {
    c.eval(bytes_hash(x), true);
    c.count(what, 1);
    c.count(&format!("length of {}", attr), 1);
    c.sample(|| format!("{} of {}: {}", what, attr, hex(x)));
    c.judge(x);
}

// ---------------------------------------------------------------- C21

/// every strict prefix of a class
pub fn prefixes(c: &mut Ctx) {
    let mut r = c.rng();
    let k = if c.idx % 3 == 0 {
        let kind = ALL_KINDS[(c.idx / 3) as usize % 27];
        let mut cfg = Cfg::all();
        cfg.list = 3;
        cfg.consts = 2;
        let mut g = G::new(&mut r, cfg);
        g.budget = 300;
        let a = g.attr_of(kind);
        let p = g.r.below(4);
        g.wrap(p, vec![a])
    } else {
        random_class("C21", &mut r)
    };
    let b = encode(&k);
    if b.len() > 20_000 {
        return;
    }
    note_class(c, &k, &b);
    if !c.judge_model(&k, &b) {
        return;
    }
    for n in 0..b.len() {
        prefix(c, &b, n);
    }
}

pub fn prefix(c: &mut Ctx, b: &[u8], n: usize) {
    c.eval(bytes_hash(&b[..n]), true);
    c.count("prefixes", 1);
    // in a buffer of its own, so that nothing is behind it
    let p: Box<[u8]> = b[..n].to_vec().into_boxed_slice();
    let r = c.run(&p);
    match &r.out {
        Out::Err(jbcrs::Error::LimitExceeded) => {}
        _ => {
            let m = format!("a class file of {} bytes cut at {} gave: {}", b.len(), n, r.show());
            c.violate(&m, &p);
        }
    }
}

/// prefixes of JDK classes: the ends of all of them, and places inside
pub fn jdk_prefixes(c: &mut Ctx) {
    let n = c.jdk.len() as u64;
    if n == 0 {
        return;
    }
    let b = c.jdk[(c.idx.wrapping_mul(7919).wrapping_add(c.seed) % n) as usize].clone();
    match refp::decide(&b) {
        Verdict::Accept(a) if a.consumed == b.len() => {}
        _ => return,
    }
    let mut r = c.rng();
    let run = c.run(&b);
    if !matches!(run.out, Out::Ok(..)) {
        let m = format!("a class file of the JDK gave: {}", run.show());
        c.violate(&m, &b);
        return;
    }
    c.count("jdk classes", 1);
    for n in b.len().saturating_sub(40)..b.len() {
        prefix(c, &b, n);
    }
    for _ in 0..60 {
        let n = r.below(b.len());
        prefix(c, &b, n);
    }
}

// ---------------------------------------------------------------- C22

/// what sort of malformed spot a place can become; 0 if none
pub fn fault_kind(k: &Sk) -> usize {
    match k {
        Sk::Magic => 1,
        Sk::CpTag(_) => 2,
        Sk::HandleKind(_) => 3,
        Sk::AttrName => 4,
        Sk::Opcode(_) => 5,
        Sk::WideOp(_) => 6,
        Sk::AType(_) => 7,
        Sk::FrameTag => 8,
        Sk::VtTag => 9,
        Sk::EvTag => 10,
        Sk::TargetType => 11,
        Sk::PathKind => 12,
        Sk::Utf8Body(_) => 13,
        Sk::SdeBody => 14,
        _ => 0,
    }
}

/// one malformed spot in a valid class
pub fn faults(c: &mut Ctx) {
    let mut r = c.rng();
    let k = random_class("C22", &mut r);
    let (b, sites) = encode_sites(&k);
    if b.len() > 30_000 {
        return;
    }
    let mut kinds: Vec<usize> = vec![];
    let tag = fault_kind;
    let mut order: Vec<&enc::Site> = sites.iter().filter(|s| tag(&s.k) > 0).collect();
    r.shuffle(&mut order);
    for s in order {
        // a few of every sort
        let t = tag(&s.k);
        if kinds.iter().filter(|x| **x == t).count() >= 4 {
            continue;
        }
        kinds.push(t);
        fault_at(c, &mut r, &b, s, &k.pool);
    }
}

pub fn fault_at(c: &mut Ctx, r: &mut Rng, b: &[u8], s: &enc::Site, pool: &MPool) {
    let mut m = b.to_vec();
    let undefined = |r: &mut Rng, f: &dyn Fn(u8) -> bool| loop {
        let x = r.byte();
        if f(x) {
            break x;
        }
    };
    let (want, what): (RErr, &str) = match s.k {
        Sk::Magic => {
            let i = r.below(4);
            m[i] ^= r.range(1, 255) as u8;
            (RErr::NotAClass, "magic")
        }
        Sk::CpTag(i) => {
            m[s.off] = undefined(r, &|x| x != 17 && !TAGS.contains(&x));
            (RErr::BadCp(i), "constant tag")
        }
        Sk::HandleKind(i) => {
            m[s.off] = undefined(r, &|x| !(1..=9).contains(&x));
            (RErr::BadCp(i), "method handle kind")
        }
        Sk::AttrName => {
            let i = bad_utf8_index(r, pool);
            m[s.off..s.off + 2].copy_from_slice(&i.to_be_bytes());
            (RErr::BadCp(i), "attribute name")
        }
        Sk::Opcode(at) => {
            let x = r.range(0xCB, 0xFD) as u8;
            m[s.off] = x;
            (RErr::BadInsn(x, at), "opcode")
        }
        Sk::WideOp(at) => {
            m[s.off] = undefined(r, &|x| !WIDE_OPS.contains(&x));
            (RErr::BadInsn(0xC4, at), "wide form")
        }
        Sk::AType(at) => {
            m[s.off] = undefined(r, &|x| !(4..=11).contains(&x));
            (RErr::BadInsn(0xBC, at), "array type")
        }
        Sk::FrameTag => {
            let x = r.range(128, 246) as u8;
            m[s.off] = x;
            (RErr::BadFrame(x), "frame type")
        }
        Sk::VtTag => {
            let x = undefined(r, &|x| x > 8);
            m[s.off] = x;
            (RErr::BadVt(x), "verification type")
        }
        Sk::EvTag => {
            let x = undefined(r, &|x| !EV_IDX_TAGS.contains(&x) && x != b'e' && x != b'@' && x != b'[');
            m[s.off] = x;
            (RErr::BadEv(x), "element tag")
        }
        Sk::TargetType => {
            m[s.off] = undefined(r, &|x| target_kind(x) == TKind::Undefined);
            (RErr::BadTarget, "target type")
        }
        Sk::PathKind => {
            m[s.off] = undefined(r, &|x| x > 3);
            (RErr::BadPath, "path kind")
        }
        Sk::Utf8Body(_) | Sk::SdeBody => {
            if s.len == 0 {
                return;
            }
            let at = s.off + r.below(s.len);
            m[at] = *r.pick(&[0u8, 0x80, 0xBF, 0xF0, 0xF5, 0xFF, 0xC3, 0xE2, 0xED]);
            if mutf8::decode(&m[s.off..s.off + s.len]) != mutf8::Dec::Bad {
                return;
            }
            (RErr::BadUtf8, "utf8")
        }
        _ => return,
    };
    c.eval(bytes_hash(&m), true);
    c.count(&format!("fault {}", what), 1);
    c.sample(|| format!("{} at byte {} of {}: expecting {}", what, s.off, m.len(), expected(&want).unwrap()));
    c.judge_as(Verdict::Reject(want), &m, true);
}

// ---------------------------------------------------------------- C23

/// a class with the same flags at every place where flags occur
pub fn flags(c: &mut Ctx) {
    // 64 values per case
    for j in 0..64u64 {
        let f = (c.idx * 64 + j) as u16;
        for round in 0..6 {
            // what stands next to the flags: anything, nothing, the same, ...
            let x = |i: u16| match round {
                0 => i,
                1 => 0,
                2 => 0xFFFF,
                3 => f,
                4 => !f,
                _ => 1,
            };
            flags_everywhere(c, f, round, &x);
            if j == 0 && round == 0 {
                c.sample(|| format!("flags {:#06x} at 10 places", f));
            }
        }
        flag_meaning(c, f);
    }
}

fn flags_everywhere(c: &mut Ctx, f: u16, round: u16, x: &dyn Fn(u16) -> u16) {
    let mut p = MPool::new();
    let (inner, params, module, synth) = (p.utf8("InnerClasses"), p.utf8("MethodParameters"), p.utf8("Module"), p.utf8("Synthetic"));
    let fl = |i| MFlagged { index: x(i), flags: f, to: if round == 1 { vec![] } else { vec![x(i), x(7)] } };
    let mut more = vec![];
    if round % 2 == 1 {
        // which implies a flag, but does not set it
        more.push(MAttr { name: synth, body: MBody::Synthetic });
    }
    let mut code = more.clone();
    code.push(MAttr { name: params, body: MBody::MethodParams(vec![[x(5), f], [x(6), !f]]) });
    let k = MClass {
        minor: x(0),
        major: [53, 45, 0xFFFF, 49, 52, 0][round as usize],
        pool: p,
        flags: f,
        name: x(0x1234),
        super_name: x(0x5678),
        interfaces: vec![x(9)],
        fields: vec![MMember { flags: f, name: x(1), desc: x(2), attrs: more.clone() }],
        methods: vec![MMember { flags: f, name: x(3), desc: x(4), attrs: code }],
        attrs: vec![
            MAttr { name: inner, body: MBody::InnerClasses(vec![[x(1), x(2), x(3), f], [x(4), x(5), x(6), !f]]) },
            MAttr {
                name: module,
                body: MBody::Module(Box::new(MModule {
                    name: x(1),
                    flags: f,
                    version: x(2),
                    requires: vec![[x(3), f, x(4)]],
                    exports: vec![fl(5)],
                    opens: vec![fl(6)],
                    uses: vec![],
                    provides: vec![],
                })),
            },
        ],
    };
    let b = encode(&k);
    c.eval(bytes_hash(&b), true);
    c.count("flag values", u64::from(round == 0));
    c.count("places with flags", 10);
    c.judge_model(&k, &b);
}

/// JVMS tables 4.1-B, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24, 4.7.25
fn flag_meaning(c: &mut Ctx, bits: u16) {
    use jbcrs::basic::AccessFlags as F;
    let table: [(&str, F, u16); 23] = [
        ("PUBLIC", F::PUBLIC, 0x0001),
        ("PRIVATE", F::PRIVATE, 0x0002),
        ("PROTECTED", F::PROTECTED, 0x0004),
        ("STATIC", F::STATIC, 0x0008),
        ("FINAL", F::FINAL, 0x0010),
        ("SUPER", F::SUPER, 0x0020),
        ("SYNCHRONIZED", F::SYNCHRONIZED, 0x0020),
        ("VOLATILE", F::VOLATILE, 0x0040),
        ("BRIDGE", F::BRIDGE, 0x0040),
        ("STATIC_PHASE", F::STATIC_PHASE, 0x0040),
        ("TRANSIENT", F::TRANSIENT, 0x0080),
        ("VARARGS", F::VARARGS, 0x0080),
        ("NATIVE", F::NATIVE, 0x0100),
        ("INTERFACE", F::INTERFACE, 0x0200),
        ("ABSTRACT", F::ABSTRACT, 0x0400),
        ("STRICT", F::STRICT, 0x0800),
        ("SYNTHETIC", F::SYNTHETIC, 0x1000),
        ("ANNOTATION", F::ANNOTATION, 0x2000),
        ("ENUM", F::ENUM, 0x4000),
        ("MODULE", F::MODULE, 0x8000),
        ("MANDATED", F::MANDATED, 0x8000),
        ("all", F::all(), 0xFFFF),
        ("empty", F::empty(), 0),
    ];
    let v = F::from_bits_truncate(bits);
    for (name, flag, mask) in table {
        c.count("flag tests", 1);
        if flag.bits() != mask {
            c.violate(&format!("flag {} has mask {:#06x}, not {:#06x}", name, flag.bits(), mask), &[]);
        }
        if v.contains(flag) != (bits & mask == mask) {
            c.violate(&format!("flags {:#06x} contain {}: {}", bits, name, v.contains(flag)), &[]);
        }
    }
}

// ---------------------------------------------------------------- C01

/// bytes of any sort
pub fn garbage(c: &mut Ctx) {
    let mut r = c.rng();
    let n = r.below(400);
    let mut b: Vec<u8> = (0..n).map(|_| if r.one_in(3) { r.below(4) as u8 } else { r.byte() }).collect();
    if !r.one_in(8) {
        b.splice(0..0, [0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 0x34]);
        if r.bool() && b.len() > 10 {
            // a small pool
            b[8] = 0;
            b[9] = r.below(5) as u8;
        }
    }
    c.eval(bytes_hash(&b), b.len() > 8);
    c.sample(|| hex(&b));
    total(c, &b);
}

/// parses, and uses everything the result offers
pub fn total(c: &mut Ctx, b: &[u8]) {
    if c.prop == "C30" {
        return bounded(c, b);
    }
    let run = c.run(b);
    match run.out {
        Out::Panic(m) => c.violate(&format!("panic: {}", m), b),
        Out::Ok(p, k) => {
            let e = guard(|| {
                let mut n = 0;
                for (i, item) in p.iter() {
                    if let jbcrs::basic::Item::UTF8(s) = item {
                        // a string has to be one
                        assert!(std::str::from_utf8(s.as_bytes()).is_ok(), "a String that is not UTF-8 was made");
                    }
                    n += format!("{} {:?}", i, item).len();
                    let _ = (p.get_utf8(i), p.get_class_name(i), p.get_class_name_opt(i));
                }
                n + format!("{:?}", k).len()
            });
            match e {
                Ok(n) => c.count("bytes of debug output", n as u64),
                // that parsing is total says nothing about the uses of the result
                Err(_) if c.prop == "C01" => c.count("panics outside of the property", 1),
                Err(m) => c.violate(&format!("panic while using the result: {}", m), b),
            }
        }
        Out::Err(e) => {
            if let Err(m) = guard(|| format!("{:?} {}", e, e)) {
                if c.prop != "C01" {
                    c.violate(&format!("panic while printing the error: {}", m), b);
                }
            }
            c.count(&format!("error {}", crate::val::err(&e).split('(').next().unwrap()), 1);
        }
    }
}

/// regions of code entered and allocations made, per input byte
pub const STEPS_PER_BYTE: u64 = 200;
pub const STEPS_ANYWAY: u64 = 50_000;
pub const ALLOCS_PER_BYTE: u64 = 10;
pub const ALLOCS_ANYWAY: u64 = 10_000;

/// the steps of one parse stay below a multiple of the input's length
pub fn bounded(c: &mut Ctx, b: &[u8]) {
    let run = c.run(b);
    let n = b.len() as u64;
    c.count("parses with counted steps", 1);
    c.count("input bytes", n);
    if n >= 200 {
        c.max("most steps per byte, of inputs of 200 bytes and more, in 1/100", run.steps * 100 / n);
        c.max("most allocations per byte, of inputs of 200 bytes and more, in 1/100", run.allocs * 100 / n);
    } else {
        c.max("most steps of inputs below 200 bytes", run.steps);
    }
    let (s, a) = (STEPS_PER_BYTE * n + STEPS_ANYWAY, ALLOCS_PER_BYTE * n + ALLOCS_ANYWAY);
    if run.steps > s {
        c.violate(&format!("{} steps for an input of {} bytes, more than {}", run.steps, n, s), b);
    }
    if run.allocs > a {
        c.violate(&format!("{} allocations for an input of {} bytes, more than {}", run.allocs, n, a), b);
    }
}

/// classes of the JDK, as they are and behind each other's beginnings
pub fn jdk_bounded(c: &mut Ctx) {
    let n = c.jdk.len() as u64;
    if n == 0 {
        return;
    }
    let b = c.jdk[(c.idx.wrapping_mul(7919).wrapping_add(c.seed) % n) as usize].clone();
    c.eval(bytes_hash(&b), true);
    c.sample(|| format!("JDK class of {} bytes", b.len()));
    bounded(c, &b);
}

/// every list of the format at its sizes
pub fn lists_bounded(c: &mut Ctx) {
    let mut r = c.rng();
    let (list, max) = LISTS[c.idx as usize % LISTS.len()];
    let n = match c.idx as usize / LISTS.len() {
        0 => max,
        1 => max / 4,
        _ => r.below(max),
    };
    let b = encode(&with_list(&mut r, list, n));
    c.eval(bytes_hash(&b), true);
    c.count("lists", 1);
    c.sample(|| format!("{} with {} entries, {} bytes", list, n, b.len()));
    bounded(c, &b);
}

/// random classes with some bytes changed, one after another
pub fn mutants(c: &mut Ctx) {
    let mut r = c.rng();
    let mut b = if r.one_in(12) && !c.jdk.is_empty() {
        let n = c.jdk.len();
        let j = r.below(n);
        let b = c.jdk[j].clone();
        if b.len() > 6000 {
            return;
        }
        b.to_vec()
    } else {
        let mut cfg = Cfg::all();
        cfg.list = 3;
        let mut g = G::new(&mut r, cfg);
        g.budget = 600;
        let k = g.class();
        encode(&k)
    };
    if b.len() > 70_000 {
        return;
    }
    let keep = b.clone();
    for i in 0..24 {
        if i % 3 == 0 {
            b.clone_from(&keep);
        }
        mutate(&mut r, &mut b, 0);
        c.eval(bytes_hash(&b), b.len() > 10);
        total(c, &b);
    }
    c.sample(|| hex(&b));
}

/// one byte of a class holding everything, set to every value
pub fn every_byte(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "kitchen sink", 0);
    let k = kitchen_sink(&mut r);
    let b = encode(&k);
    let at = c.idx as usize;
    if at >= b.len() {
        return;
    }
    c.max("bytes substituted", b.len() as u64);
    let mut m = b;
    let old = m[at];
    for v in 0..=255u8 {
        if v == old {
            continue;
        }
        m[at] = v;
        c.eval(bytes_hash(&m), true);
        total(c, &m);
    }
    c.sample(|| format!("byte {} of {} set to all values", at, m.len()));
}

/// one attribute of every kind
pub fn kitchen_sink(r: &mut Rng) -> MClass {
    let mut cfg = Cfg::all();
    cfg.list = 2;
    cfg.consts = 0;
    cfg.depth = 2;
    cfg.rich = false;
    cfg.dups = false;
    let mut g = G::new(r, cfg);
    for t in [Const::Int(1), Const::Long(2), Const::Handle(1, 2), Const::Double(5), Const::InvDyn(1, 2), Const::Utf8(mutf8::encode("\u{10FFFF}\u{7FF}\0"))] {
        g.pool.add(t);
    }
    let mut v = vec![];
    for kind in ALL_KINDS {
        if kind == "Code" {
            continue;
        }
        g.budget = 60;
        g.cfg.attrs = 0;
        v.push(g.attr_sized(kind, 2));
    }
    // code with each operand layout
    let mut at = 0;
    let mut insns = vec![];
    for op in [0x00u8, 0x10, 0x11, 0x84, 0xA9, 0xAA, 0xAB, 0xB2, 0xB9, 0xBA, 0xBC, 0xC4, 0xC5, 0xC8, 0xB1] {
        let i = g.insn_of(op, at);
        let n = enc::insn_len(&i) as u32;
        insns.push(MInsn { at, i });
        at += n;
    }
    let name = g.text("Code");
    let sm = g.attr_sized("StackMapTable", 3);
    let ln = g.attr_sized("LineNumberTable", 2);
    let code = MCode { max_stack: 2, max_locals: 3, insns, exc: vec![[0, 1, 2, 3]], attrs: vec![sm, ln] };
    v.push(MAttr { name, body: MBody::Code(Box::new(code)) });
    g.wrap(2, v)
}

/// one class with everything, whole and damaged in some places
pub fn sink(c: &mut Ctx) {
    let mut r = Rng::new(c.seed, "kitchen sink", 0);
    let b = encode(&kitchen_sink(&mut r));
    c.eval(bytes_hash(&b), true);
    c.sample(|| format!("one attribute of every kind: {} bytes", b.len()));
    total(c, &b);
}

/// small random classes, whole, damaged and cut
pub fn small(c: &mut Ctx) {
    let mut r = c.rng();
    let mut cfg = Cfg::all();
    cfg.list = 2;
    cfg.consts = 3;
    cfg.attrs = 1;
    let mut g = G::new(&mut r, cfg);
    g.budget = 60;
    let k = g.class();
    let mut b = encode(&k);
    if b.len() > 2500 {
        b.truncate(2500);
    }
    match r.below(3) {
        0 => mutate(&mut r, &mut b, 0),
        1 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        _ => {}
    }
    c.eval(bytes_hash(&b), b.len() > 10);
    c.sample(|| hex(&b));
    total(c, &b);
}

/// counts and lengths that promise more than there is
pub fn hostile(c: &mut Ctx) {
    let mut r = c.rng();
    let mut cfg = Cfg::all();
    cfg.list = 2;
    cfg.consts = 2;
    let mut g = G::new(&mut r, cfg);
    g.budget = 300;
    let k = g.class();
    let (b, sites) = encode_sites(&k);
    let mut at: Vec<&enc::Site> = sites
        .iter()
        .filter(|s| matches!(s.k, Sk::Count(_) | Sk::AttrLen(_) | Sk::CpCount | Sk::Utf8Len(_) | Sk::CodeLen | Sk::TableBounds(_)))
        .collect();
    r.shuffle(&mut at);
    for s in at.into_iter().take(20) {
        let mut m = b.clone();
        match s.len {
            1 => m[s.off] = *r.pick(&[255, 254, 128, 1, 0]),
            2 => {
                let v = *r.pick(&[65535u16, 65534, 32768, 1, 0, 256]);
                m[s.off..s.off + 2].copy_from_slice(&v.to_be_bytes());
            }
            4 => {
                let v = *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 29, 1 << 24, 65536, 0]);
                m[s.off..s.off + 4].copy_from_slice(&v.to_be_bytes());
            }
            _ => {
                let (lo, hi) = *r.pick(&[
                    (i32::MIN, i32::MAX),
                    (0, i32::MAX),
                    (i32::MIN, 0),
                    (-1, i32::MAX),
                    (1, 0),
                    (i32::MAX, i32::MIN),
                    (0, i32::MAX - 1),
                    (i32::MIN, -1),
                    (0, 1 << 28),
                    (i32::MAX, i32::MAX),
                    (i32::MIN, i32::MIN),
                ]);
                m[s.off..s.off + 4].copy_from_slice(&lo.to_be_bytes());
                m[s.off + 4..s.off + 8].copy_from_slice(&hi.to_be_bytes());
            }
        }
        c.eval(bytes_hash(&m), true);
        c.count("hostile counts", 1);
        c.sample(|| format!("{:?} in {:?}: {}", s.k, s.attr, hex(&m)));
        if c.prop == "C03" {
            memory(c, &m);
        } else {
            total(c, &m);
        }
        // the same with the file cut right behind the count: promises and nothing else
        let cut = (s.off + s.len).min(m.len());
        c.eval(bytes_hash(&m[..cut]), true);
        if c.prop == "C03" {
            memory(c, &m[..cut]);
        } else {
            total(c, &m[..cut]);
        }
    }
}

// ---------------------------------------------------------------- C03

/// peak and leftover memory of one parse
pub fn memory(c: &mut Ctx, b: &[u8]) {
    let run = c.run(b);
    let bound = (32i64 << 20) + 512 * b.len() as i64;
    c.max("largest peak in bytes", run.peak.max(0) as u64);
    if b.len() > 4096 {
        c.max("largest peak per input byte (inputs over 4 KiB)", (run.peak.max(0) as u64) / b.len() as u64);
    }
    if run.peak > bound {
        let m = format!("{} bytes of memory for an input of {} bytes (allowed {}), outcome: {}", run.peak, b.len(), bound, run.show());
        c.violate(&m, b);
    }
    let held = run.after - run.before;
    if let Out::Panic(m) = &run.out {
        let m = format!("panic: {}", m);
        c.violate(&m, b);
        return;
    }
    let full = crate::alloc::live();
    match run.out {
        Out::Ok(p, k) => {
            drop(k);
            drop(p);
        }
        Out::Err(e) => drop(e),
        Out::Panic(_) => {}
    }
    let left = held - (full - crate::alloc::live());
    c.count("leftover memory checks", 1);
    if left > 0 {
        c.violate(&format!("{} bytes still allocated after the result was dropped", left), b);
    }
}

pub fn mem_random(c: &mut Ctx) {
    let mut r = c.rng();
    let k = random_class("C03", &mut r);
    let mut b = encode(&k);
    if r.bool() {
        for _ in 0..r.range(1, 3) {
            mutate(&mut r, &mut b, 0);
        }
    }
    c.eval(bytes_hash(&b), true);
    c.sample(|| hex(&b));
    memory(c, &b);
}

/// every list of the format at its largest, alone and repeated
pub fn mem_lists(c: &mut Ctx) {
    let mut r = c.rng();
    let (list, max) = LISTS[c.idx as usize % LISTS.len()];
    let n = match c.idx as usize / LISTS.len() {
        0 => max,
        1 => max / 2,
        2 => 0,
        _ => r.below(max),
    };
    let k = with_list(&mut r, list, n);
    let b = encode(&k);
    c.eval(bytes_hash(&b), true);
    c.count("lists", 1);
    c.sample(|| format!("{} with {} entries, {} bytes", list, n, b.len()));
    memory(c, &b);
    // cut: the counts promise more than follows
    let cut = r.below(b.len());
    c.eval(bytes_hash(&b[..cut]), true);
    memory(c, &b[..cut]);
}

/// the growing families (lists, tables, strings, codes, ... by the thousand) at some size
pub fn families(c: &mut Ctx) {
    let mut r = c.rng();
    let names = crate::linear::all_names();
    let name = &names[c.idx as usize % names.len()];
    let k = match c.idx as usize / names.len() {
        0 => 40,
        1 => 5,
        2 => 60,
        _ => r.range(1, 64),
    };
    let b = match crate::linear::job(name, k) {
        crate::linear::Job::Parse(b) => b,
        _ => return,
    };
    c.eval(bytes_hash(&b), true);
    c.count("families", 1);
    c.count("input bytes", b.len() as u64);
    c.sample(|| format!("{} at scale {}, {} bytes", name, k, b.len()));
    match c.prop.as_str() {
        "C03" => memory(c, &b),
        "C30" => bounded(c, &b),
        _ => total(c, &b),
    }
}

/// many nested lists, each of which promises its largest count and stays empty
pub fn mem_nested(c: &mut Ctx) {
    let b = hostile_nested(c.idx as usize, 1 + (c.idx as usize / 16) % 3);
    c.eval(bytes_hash(&b), true);
    c.count("nested promises", 1);
    c.sample(|| hex(&b));
    if c.prop == "C03" {
        memory(c, &b);
    } else {
        total(c, &b);
    }
}

/// a class whose tables contain tables with a count of 65535 each
pub fn hostile_nested(kind: usize, scale: usize) -> Vec<u8> {
    let mut p = MPool::new();
    let names: Vec<u16> = ATTR_NAMES.iter().map(|n| p.utf8(n)).collect();
    let idx = |s: &str| names[ATTR_NAMES.iter().position(|n| *n == s).unwrap()];
    let head = |name: u16, body: Vec<u8>| {
        let mut c = MClass {
            minor: 0,
            major: 53,
            pool: p.clone(),
            flags: 0,
            name: 0,
            super_name: 0,
            interfaces: vec![],
            fields: vec![],
            methods: vec![],
            attrs: vec![],
        };
        c.attrs = vec![MAttr { name, body: MBody::Unknown(body) }];
        encode(&c)
    };
    let reps = 20_000 * scale;
    match kind % 16 {
        0 => {
            // annotations with 65535 pairs, the first of which is the next one
            let mut v = vec![0, 1];
            for _ in 0..60 {
                v.extend_from_slice(&[0, 1, 0xFF, 0xFF, 0, 1, b'@']);
            }
            head(idx("RuntimeVisibleAnnotations"), v)
        }
        1 => {
            let mut v = vec![];
            for _ in 0..60 {
                v.extend_from_slice(&[b'[', 0xFF, 0xFF]);
            }
            head(idx("AnnotationDefault"), v)
        }
        2 => {
            // 65535 bootstrap methods, each without arguments, except that the counts lie at the end
            let mut v = vec![0xFF, 0xFF];
            for _ in 0..reps {
                v.extend_from_slice(&[0, 1, 0, 0]);
            }
            v.extend_from_slice(&[0, 1, 0xFF, 0xFF]);
            head(idx("BootstrapMethods"), v)
        }
        3 => {
            let mut v = vec![255];
            for _ in 0..255 {
                v.extend_from_slice(&[0, 0]);
            }
            let n = v.len();
            v[n - 2] = 0xFF;
            v[n - 1] = 0xFF;
            head(idx("RuntimeVisibleParameterAnnotations"), v)
        }
        4 => {
            let mut v = vec![0, 1, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF];
            for _ in 0..reps / 3 {
                v.extend_from_slice(&[0, 1, 0, 0, 0, 0]);
            }
            v.extend_from_slice(&[0, 1, 0, 0, 0xFF, 0xFF]);
            head(idx("Module"), v)
        }
        5 => {
            let mut v = vec![0xFF, 0xFF];
            for _ in 0..reps / 2 {
                v.extend_from_slice(&[255, 0, 0, 0, 0, 0, 0]);
            }
            v.extend_from_slice(&[255, 0, 0, 0xFF, 0xFF]);
            head(idx("StackMapTable"), v)
        }
        6 => {
            let mut v = vec![0xFF, 0xFF];
            for _ in 0..reps / 2 {
                v.extend_from_slice(&[0x40, 0, 0, 0, 0, 1, 0, 0]);
            }
            v.extend_from_slice(&[0x40, 0xFF, 0xFF]);
            head(idx("RuntimeVisibleTypeAnnotations"), v)
        }
        7 => {
            let mut v = vec![0xFF, 0xFF];
            for _ in 0..reps / 2 {
                v.extend_from_slice(&[0, 1, 0, 0]);
            }
            v.extend_from_slice(&[0, 1, 0xFF, 0xFF]);
            head(idx("RuntimeInvisibleAnnotations"), v)
        }
        8 | 9 | 10 | 11 => {
            // attributes promise 65535 attributes inside of codes inside of codes
            let mut inner: Vec<u8> = vec![];
            for _ in 0..50 {
                let mut v = vec![0, 0, 0, 0, 0, 0, 0, 1, 0xB1];
                v.extend_from_slice(if kind % 2 == 0 { &[0, 0] } else { &[0xFF, 0xFF] });
                v.extend_from_slice(&[0xFF, 0xFF]);
                v.extend_from_slice(&idx("Code").to_be_bytes());
                v.extend_from_slice(&(inner.len() as u32).to_be_bytes());
                v.extend_from_slice(&inner);
                inner = v;
            }
            head(idx("Code"), inner)
        }
        12 => {
            // methods and fields that promise 65535 attributes
            let mut c = MClass {
                minor: 0,
                major: 53,
                pool: p.clone(),
                flags: 0,
                name: 0,
                super_name: 0,
                interfaces: vec![],
                fields: vec![],
                methods: (0..20_000).map(|_| MMember { flags: 0, name: 0, desc: 0, attrs: vec![] }).collect(),
                attrs: vec![],
            };
            c.fields = c.methods.clone();
            let mut b = encode(&c);
            let n = b.len();
            b.truncate(n - 4);
            b.extend_from_slice(&[0xFF, 0xFF]);
            b
        }
        13 => {
            // lookupswitch and tableswitch with huge counts, over and over
            let mut code = vec![];
            for _ in 0..100 {
                code.extend_from_slice(&[0xAB, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            }
            code.extend_from_slice(&[0xAB, 0, 0, 0, 0, 0, 0, 0, 0x7F, 0xFF, 0xFF, 0xFF]);
            raw_code(&code)
        }
        14 => {
            let mut code = vec![];
            code.extend_from_slice(&[0xAA, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x7F, 0xFF, 0xFF, 0xFE, 0, 0, 0, 0]);
            raw_code(&code)
        }
        _ => {
            let mut v = vec![0xFF, 0xFF];
            for _ in 0..reps / 3 {
                v.extend_from_slice(&[0, 1, 0, 0]);
            }
            head(idx("InnerClasses"), v)
        }
    }
}

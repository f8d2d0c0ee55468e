//! Deeply nested input on a thread with a small stack.

use crate::ctx::*;
use crate::enc::{encode, encode_sites};
use crate::model::*;
use crate::refp::{self, Verdict};
use crate::rng::Rng;
use crate::val;
use jbcrs::basic as jb;

pub const STACK: usize = 2 << 20;

fn named(name: &str) -> (MClass, u16) {
    let mut p = MPool::new();
    let mut at = 0;
    for n in ATTR_NAMES.iter() {
        let i = p.utf8(n);
        if *n == name {
            at = i;
        }
    }
    let c = MClass {
        minor: 0,
        major: 53,
        pool: p,
        flags: 0x21,
        name: 1,
        super_name: 2,
        interfaces: vec![],
        fields: vec![],
        methods: vec![],
        attrs: vec![],
    };
    (c, at)
}

fn name_of(name: &str) -> u16 {
    named(name).1
}

/// an attribute with the given contents at a place: class, field, method or code
pub fn class_with(name: &str, body: Vec<u8>, place: usize) -> Vec<u8> {
    class_with_many(name, vec![body], place)
}

fn class_with_many(name: &str, bodies: Vec<Vec<u8>>, place: usize) -> Vec<u8> {
    let (mut c, at) = named(name);
    let attrs = |b: Vec<u8>| vec![MAttr { name: at, body: MBody::Unknown(b) }];
    for b in bodies {
        match place % 4 {
            0 => c.attrs.extend(attrs(b)),
            1 => c.fields.push(MMember { flags: 1, name: 3, desc: 4, attrs: attrs(b) }),
            2 => c.methods.push(MMember { flags: 1, name: 3, desc: 4, attrs: attrs(b) }),
            _ => {
                let code = MCode { max_stack: 1, max_locals: 2, insns: vec![MInsn { at: 0, i: Raw::None(0xB1) }], exc: vec![], attrs: attrs(b) };
                let code = MAttr { name: name_of("Code"), body: MBody::Code(Box::new(code)) };
                c.methods.push(MMember { flags: 1, name: 3, desc: 4, attrs: vec![code] });
            }
        }
    }
    encode(&c)
}

/// an element value nested `depth` deep: style 0 arrays, 1 annotations, 2 alternating, 3 mixed with siblings
pub fn nested_ev(r: &mut Rng, depth: usize, style: usize) -> Vec<u8> {
    let mut head: Vec<u8> = vec![];
    let mut tails: Vec<Vec<u8>> = vec![];
    let leaf = |r: &mut Rng, v: &mut Vec<u8>| {
        v.push(*r.pick(b"BCDFIJSZsc"));
        v.extend_from_slice(&r.idx().to_be_bytes());
    };
    for k in 0..depth {
        let array = match style {
            0 => true,
            1 => false,
            2 => k % 2 == 0,
            _ => r.bool(),
        };
        let (before, after) = if style == 3 { (r.below(3), r.below(3)) } else { (0, 0) };
        let count = (before + after + 1) as u16;
        let mut tail = vec![];
        if array {
            head.push(b'[');
            head.extend_from_slice(&count.to_be_bytes());
            for _ in 0..before {
                leaf(r, &mut head);
            }
            for _ in 0..after {
                leaf(r, &mut tail);
            }
        } else {
            head.push(b'@');
            head.extend_from_slice(&r.idx().to_be_bytes());
            head.extend_from_slice(&count.to_be_bytes());
            for _ in 0..before {
                head.extend_from_slice(&r.idx().to_be_bytes());
                leaf(r, &mut head);
            }
            head.extend_from_slice(&r.idx().to_be_bytes());
            for _ in 0..after {
                tail.extend_from_slice(&r.idx().to_be_bytes());
                leaf(r, &mut tail);
            }
        }
        tails.push(tail);
    }
    leaf(r, &mut head);
    while let Some(t) = tails.pop() {
        head.extend_from_slice(&t);
    }
    head
}

/// the contents of a Code attribute with `levels` Code attributes nested in it, the innermost
/// holding the given attribute
pub fn nested_code(levels: usize, inner: Option<(u16, Vec<u8>)>) -> Vec<u8> {
    let code = name_of("Code").to_be_bytes();
    let extra = inner.as_ref().map_or(0, |(_, b)| 6 + b.len());
    let mut v = vec![];
    for k in (0..=levels).rev() {
        v.extend_from_slice(&[0, 1, 0, 2, 0, 0, 0, 1, 0xB1, 0, 0]);
        if k > 0 {
            v.extend_from_slice(&[0, 1]);
            v.extend_from_slice(&code);
            v.extend_from_slice(&((13 + (k - 1) * 19 + extra) as u32).to_be_bytes());
        } else if let Some((n, b)) = &inner {
            v.extend_from_slice(&[0, 1]);
            v.extend_from_slice(&n.to_be_bytes());
            v.extend_from_slice(&(b.len() as u32).to_be_bytes());
            v.extend_from_slice(b);
        } else {
            v.extend_from_slice(&[0, 0]);
        }
    }
    v
}

pub const FAMILIES: usize = 24;
pub const DEPTHS: [usize; 28] = [
    1, 2, 3, 7, 8, 15, 16, 24, 30, 31, 32, 33, 48, 63, 64, 65, 66, 100, 127, 128, 255, 256, 257, 1000, 5000, 20_000, 65_536, 150_000,
];

/// a class nested `depth` levels deep, in one of many ways
pub fn family(r: &mut Rng, f: usize, depth: usize) -> Vec<u8> {
    let ann = |r: &mut Rng, d: usize, style: usize| {
        // an annotation holding one pair
        let mut v = vec![0, 5, 0, 1, 0, 6];
        v.extend_from_slice(&nested_ev(r, d, style));
        v
    };
    let one = |mut v: Vec<u8>| {
        let mut b = vec![0, 1];
        b.append(&mut v);
        b
    };
    let d = depth;
    match f {
        0..=3 => class_with("AnnotationDefault", nested_ev(r, d, f), 2),
        4 => class_with("RuntimeVisibleAnnotations", one(ann(r, d - 1, 0)), r.below(3)),
        5 => class_with("RuntimeInvisibleAnnotations", one(ann(r, d - 1, 1)), r.below(3)),
        6 => class_with("RuntimeVisibleAnnotations", one(ann(r, d - 1, 2)), 1),
        7 | 8 => {
            let mut v = vec![1];
            v.extend_from_slice(&one(ann(r, d - 1, f - 6)));
            class_with(if f == 7 { "RuntimeVisibleParameterAnnotations" } else { "RuntimeInvisibleParameterAnnotations" }, v, 2)
        }
        9..=12 => {
            // type annotations on a field type
            let mut v = vec![0, 1, 0x13, 0];
            v.extend_from_slice(&ann(r, d - 1, f - 9));
            class_with(if f % 2 == 0 { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" }, v, f % 4)
        }
        13 => class_with("Code", nested_code(d - 1, None), 2),
        14 => class_with("Code", nested_code(d - 1, None), r.below(4)),
        15 => {
            // half codes, half element values
            let codes = (d + 1) / 2;
            let rest = d - codes;
            let inner = if rest == 0 { None } else { Some((name_of("AnnotationDefault"), nested_ev(r, rest, 2))) };
            class_with("Code", nested_code(codes - 1, inner), 2)
        }
        16 => {
            // the file ends in the middle of the nesting
            let b = class_with("AnnotationDefault", nested_ev(r, d, 2), 2);
            let n = b.len() - 10 - r.below(b.len() / 3);
            b[..n].to_vec()
        }
        17 => {
            let b = class_with("Code", nested_code(d - 1, None), 2);
            let n = b.len() - 1 - r.below(b.len() / 3);
            b[..n].to_vec()
        }
        18 => {
            // only openings, up to the end of the attribute
            class_with("AnnotationDefault", [b'[', 0, 1].repeat(d), 2)
        }
        19 => class_with("AnnotationDefault", [b'@', 0, 1, 0, 1, 0, 1].repeat(d), 2),
        20 => {
            // the deepest value has an undefined tag
            let mut v = [b'[', 0, 1].repeat(d);
            v.extend_from_slice(b"?\0\0");
            class_with("AnnotationDefault", v, 2)
        }
        21 => {
            // many values that are nested this deep side by side
            let n = if d <= 64 { 150 } else { 3 };
            let mut v = vec![b'['];
            v.extend_from_slice(&(n as u16).to_be_bytes());
            for k in 0..n {
                v.extend_from_slice(&nested_ev(r, d - 1, k % 4));
            }
            class_with("AnnotationDefault", v, 2)
        }
        22 => {
            // many methods nested this deep
            let n = if d <= 64 { 120 } else { 3 };
            let bodies = (0..n).map(|k| nested_ev(r, d, k % 4)).collect();
            class_with_many("AnnotationDefault", bodies, 2)
        }
        _ => {
            let n = if d <= 64 { 120 } else { 3 };
            let bodies = (0..n).map(|_| nested_code(d - 1, None)).collect();
            class_with_many("Code", bodies, 2)
        }
    }
}

/// parses, formats and drops on a small stack; must come back
fn on_small_stack(c: &mut Ctx, b: &[u8], what: &str) -> Option<String> {
    c.inflight(b);
    let res = watched(b.len(), || {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    guard(|| match jb::parse(b) {
                        Ok((p, k)) => {
                            let t = format!("{:?}", k).len();
                            let u = if b.len() < 4000 { format!("{:#?}", k).len() } else { 0 };
                            let mut n = 0;
                            for (_, i) in p.iter() {
                                n += format!("{:?}", i).len();
                            }
                            drop(k);
                            drop(p);
                            format!("accepted, {} + {} + {} bytes of debug output", t, u, n)
                        }
                        Err(e) => {
                            let s = val::err(&e);
                            let _ = format!("{:?} {}", e, e);
                            drop(e);
                            format!("error {}", s)
                        }
                    })
                })
                .unwrap()
                .join()
                .unwrap()
        })
    });
    match res {
        Ok(s) => {
            c.count(if s.starts_with("acc") { "came back: accepted" } else { "came back: error" }, 1);
            Some(s)
        }
        Err(m) => {
            c.violate(&format!("{}: panic: {}", what, m), b);
            None
        }
    }
}

pub fn deep(c: &mut Ctx) {
    let mut r = c.rng();
    let i = c.idx as usize;
    let f = i % FAMILIES;
    let k = i / FAMILIES;
    let depth = if k < DEPTHS.len() {
        DEPTHS[k]
    } else {
        match r.below(4) {
            0 => r.range(33, 300),
            1 => r.range(1, 200_000),
            _ => r.range(1, 32),
        }
    };
    let b = family(&mut r, f, depth);
    check(c, &b, &format!("family {} nested {} deep", f, depth), depth);
}

fn check(c: &mut Ctx, b: &[u8], what: &str, depth: usize) {
    c.eval(bytes_hash(b), depth > 1);
    c.max("deepest nesting", depth as u64);
    let shown = on_small_stack(c, b, what);
    let shown = match shown {
        Some(s) => s,
        None => return,
    };
    c.sample(|| format!("{} ({} bytes): {}", what, b.len(), shown));
    if depth > 300 {
        // too deep for the reference decoder, which need not say anything about it
        c.count("nested deeper than 300", 1);
        return;
    }
    match refp::decide(b) {
        Verdict::Accept(a) => {
            c.max("deepest nesting that must be decoded", a.depth as u64);
            c.count("nestings that must be decoded", 1);
            if !shown.starts_with("accepted") {
                c.violate(&format!("{} must be accepted: {}", what, shown), b);
                return;
            }
            let want = val::m_all(&a.class);
            c.judge_value(&want, b);
        }
        Verdict::Reject(e) => {
            c.count("nestings that must be rejected", 1);
            if shown.starts_with("accepted") {
                // accepted although malformed: that is for other properties
                c.count("accepted although malformed", 1);
                let _ = e;
            }
        }
        Verdict::Open(_) => c.count("deeper than 32: either is fine", 1),
    }
}

/// random classes whose annotations and codes are nested up to 32 levels
pub fn shallow(c: &mut Ctx) {
    let mut r = c.rng();
    let depth = r.range(2, 32);
    let mut cfg = crate::gen::Cfg::only(&["AnnotationDefault", "RuntimeVisibleAnnotations", "RuntimeInvisibleTypeAnnotations", "Code"]);
    cfg.depth = depth / 2;
    let k = crate::gen::G::new(&mut r, cfg).class();
    let (b, _) = encode_sites(&k);
    check(c, &b, "random class", 20);
}

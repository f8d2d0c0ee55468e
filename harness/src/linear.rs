//! Families of inputs that grow, for counting the instructions it takes to handle them.
//!
//! `jbmon linear list` names the families; `jbmon linear run <k> <k> ... -- <family> ...` runs them at
//! the scales k under callgrind, which is asked for one dump per case.

use crate::enc::encode;
use crate::gen::{self, Cfg, ALL_KINDS, G};
use crate::model::*;
use crate::mutf8;
use crate::rng::Rng;
use crate::w_nest;
use crate::w_pool::to_item;
use jbcrs::basic as jb;
use jbcrs::{MethodDescriptor, TypeDescriptor};

pub enum Job {
    Parse(Vec<u8>),
    Push(Vec<jb::Item>),
    /// lookups and iteration over a parsed pool
    Type(String),
    Method(String),
    FormatType(TypeDescriptor),
    FormatMethod(MethodDescriptor),
}

impl Job {
    /// the size of the input
    fn n(&self) -> usize {
        match self {
            Job::Parse(b) => b.len(),
            Job::Push(v) => v
                .iter()
                .map(|i| match i {
                    jb::Item::UTF8(s) => 3 + s.len(),
                    _ => 5,
                })
                .sum(),
            Job::Type(s) | Job::Method(s) => s.len(),
            Job::FormatType(t) => t.to_string().len(),
            Job::FormatMethod(m) => m.to_string().len(),
        }
    }
    /// the measured part; what it makes is dropped in here, too
    #[inline(never)]
    fn run(self) -> usize {
        match self {
            Job::Parse(b) => match jb::parse(&b) {
                Ok((p, _)) => p.len() as usize,
                Err(_) => 0,
            },
            Job::Push(v) => {
                let mut p = jb::Pool::new();
                for i in v {
                    let _ = p.push(i);
                }
                p.len() as usize
            }
            Job::Type(s) => usize::from(s.parse::<TypeDescriptor>().is_ok()),
            Job::Method(s) => usize::from(s.parse::<MethodDescriptor>().is_ok()),
            Job::FormatType(t) => t.to_string().len(),
            Job::FormatMethod(m) => m.to_string().len(),
        }
    }
}

fn base(pool: MPool) -> MClass {
    MClass { minor: 0, major: 53, pool, flags: 0x21, name: 1, super_name: 2, interfaces: vec![], fields: vec![], methods: vec![], attrs: vec![] }
}

fn code_named(name: u16, n: usize) -> MAttr {
    let mut at = 0;
    let insns = (0..n)
        .map(|k| {
            let i = match k % 3 {
                0 => Raw::None(0x2A),
                1 => Raw::U8(0x10, k as u8),
                _ => Raw::U16(0xB6, k as u16),
            };
            let m = MInsn { at, i };
            at += crate::enc::insn_len(&m.i) as u32;
            m
        })
        .collect();
    MAttr { name, body: MBody::Code(Box::new(MCode { max_stack: 1, max_locals: 1, insns, exc: vec![], attrs: vec![] })) }
}

fn kind_const(kind: u8, i: usize) -> Const {
    let (x, y) = (i as u16, (i >> 3) as u16);
    match kind {
        1 => Const::Utf8(mutf8::encode(&format!("name{}", i))),
        3 => Const::Int(i as u32),
        4 => Const::Float(i as u32),
        5 => Const::Long(i as u64),
        6 => Const::Double((i as u64) << 32),
        7 => Const::Class(x),
        8 => Const::Str(x),
        9 => Const::Field(x, y),
        10 => Const::Method(x, y),
        11 => Const::IMethod(x, y),
        12 => Const::NameType(x, y),
        15 => Const::Handle(1 + (i % 9) as u8, x),
        16 => Const::MType(x),
        18 => Const::InvDyn(x, y),
        19 => Const::Module(x),
        _ => Const::Package(x),
    }
}

/// distinct constants that a careless hash does not tell apart
fn colliding(how: &str, t: u8, i: usize) -> Const {
    let x = i as u32;
    if t == 1 {
        // of the same length, beginning and end, and made of the same characters
        let mid: Vec<u8> = (0..16).map(|b| if i >> b & 1 == 1 { b'a' } else { b'b' }).collect();
        let inv: Vec<u8> = (0..16).map(|b| if i >> b & 1 == 1 { b'b' } else { b'a' }).collect();
        let z = vec![b'z'; 12];
        return Const::Utf8(match how {
            "xor" => [&z[..], &mid, &inv, &z].concat(),
            "sum" => [&mid[..], &inv, &z, &z].concat(),
            "low" => [&mid[..], &z, &z, &z].concat(),
            _ => [&z[..], &z, &z, &mid].concat(),
        });
    }
    // the halves of 16, 32 or 64 bits
    let y = match how {
        "xor" => x ^ 0x1234,
        "sum" => 0xFFFFu32.wrapping_sub(x) & 0xFFFF,
        _ => 7,
    };
    let (hi, lo) = match how {
        "low" => (x, y),
        "high" => (y, x),
        _ => (x, y),
    };
    match t {
        3 => Const::Int(hi << 16 | lo & 0xFFFF),
        4 => Const::Float(hi << 16 | lo & 0xFFFF),
        5 => Const::Long(u64::from(hi) << 32 | u64::from(lo)),
        6 => Const::Double(u64::from(hi) << 32 | u64::from(lo)),
        9 => Const::Field(hi as u16, lo as u16),
        10 => Const::Method(hi as u16, lo as u16),
        11 => Const::IMethod(hi as u16, lo as u16),
        12 => Const::NameType(hi as u16, lo as u16),
        _ => Const::InvDyn(hi as u16, lo as u16),
    }
}

pub fn names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (l, _) in gen::LISTS {
        v.push(format!("list {}", l));
    }
    for t in TAGS {
        v.push(format!("constants {}", t));
        v.push(format!("push {}", t));
    }
    for t in [1u8, 3, 4, 5, 6, 9, 10, 11, 12, 18] {
        for how in ["xor", "sum", "low", "high"] {
            v.push(format!("colliding {} {}", how, t));
        }
    }
    for s in [
        "equal constants",
        "long strings",
        "strings that begin and end alike",
        "string of supplementary characters",
        "one long name",
        "long near name",
        "everything",
        "everything cut",
        "everything with a late error",
        "methods with code and a large pool",
        "unknown attributes",
        "one unknown attribute",
        "debug extension",
        "debug extensions",
        "many empty codes",
        "many codes",
        "nested codes",
        "nested values",
        "codes in codes",
        "lookupswitch",
        "tableswitch",
        "many switches",
        "many exception tables",
        "wide frames",
        "bushy annotations",
        "parameter annotations",
        "method parameters",
        "type paths",
        "module lists",
        "bytes behind",
        "push the same",
        "push the same string",
        "type name",
        "type name without end",
        "type name of wide characters",
        "brackets",
        "brackets and a name",
        "noise behind a type",
        "method of long names",
        "method of many parameters",
        "method of brackets",
        "method without end",
        "method noise",
        "format type",
        "format method",
    ] {
        v.push(s.to_string());
    }
    for o in ["rising", "falling", "alternating"] {
        for t in ORDERED {
            v.push(format!("{} {}", o, t));
        }
    }
    v
}

/// tables which are usually sorted
const ORDERED: [&str; 13] = [
    "lines",
    "variables",
    "variable types",
    "thrown",
    "inner classes",
    "annotations",
    "frames",
    "handlers",
    "interfaces",
    "fields",
    "methods",
    "bootstrap methods",
    "values",
];

/// tables of which the entries are sorted, or sorted the other way around, or neither
fn ordered(order: &str, table: &str, k: usize) -> Job {
    let n = (800 * k).min(60_000);
    let mut p = MPool::new();
    let code = p.utf8("Code");
    let val = |i: usize| -> u16 {
        (match order {
            "rising" => i,
            "falling" => n - i,
            _ => {
                if i % 2 == 0 {
                    i
                } else {
                    n - i
                }
            }
        }) as u16
    };
    let attr = |name: &str, count: usize, row: &dyn Fn(u16, &mut Vec<u8>)| {
        let mut v = (count as u16).to_be_bytes().to_vec();
        for i in 0..count {
            row(val(i), &mut v);
        }
        Job::Parse(w_nest::class_with(name, v, 0))
    };
    fn put(v: &mut Vec<u8>, x: &[u16]) {
        for y in x {
            v.extend_from_slice(&y.to_be_bytes());
        }
    }
    let member = |i: usize| MMember { flags: 1, name: val(i), desc: 1, attrs: vec![] };
    let mut c = base(p);
    match table {
        "lines" => return attr("LineNumberTable", n, &|x, v| put(v, &[x, x])),
        "variables" => return attr("LocalVariableTable", n, &|x, v| put(v, &[x, 1, x, 1, 1])),
        "variable types" => return attr("LocalVariableTypeTable", n, &|x, v| put(v, &[x, 1, x, 1, x])),
        "thrown" => return attr("Exceptions", n, &|x, v| put(v, &[x])),
        "inner classes" => return attr("InnerClasses", n, &|x, v| put(v, &[x, 1, x, 1])),
        "annotations" => return attr("RuntimeVisibleAnnotations", n, &|x, v| put(v, &[x, 0])),
        "frames" => {
            return attr("StackMapTable", n, &|x, v| {
                v.push(251);
                put(v, &[x]);
            })
        }
        "bootstrap methods" => return attr("BootstrapMethods", n, &|x, v| put(v, &[x, 1, x])),
        "values" => {
            let mut v = vec![b'['];
            v.extend_from_slice(&(n as u16).to_be_bytes());
            for i in 0..n {
                v.push(b's');
                put(&mut v, &[val(i)]);
            }
            return Job::Parse(w_nest::class_with("AnnotationDefault", v, 0));
        }
        "handlers" => {
            let mut a = code_named(code, 1);
            if let MBody::Code(m) = &mut a.body {
                m.exc = (0..n).map(|i| [val(i), val(i), val(i), val(i)]).collect();
            }
            c.methods.push(MMember { flags: 1, name: 1, desc: 1, attrs: vec![a] });
        }
        "interfaces" => c.interfaces = (0..n).map(val).collect(),
        "fields" => c.fields = (0..n).map(member).collect(),
        _ => c.methods = (0..n).map(member).collect(),
    }
    Job::Parse(encode(&c))
}

pub fn all_names() -> Vec<String> {
    let mut v = names();
    v.extend(more_names());
    v
}

/// families that are of interest for memory and totality rather than for growth
pub fn more_names() -> Vec<String> {
    let mut v = vec![];
    for k in ALL_KINDS {
        for n in [0, 1, 2] {
            v.push(format!("small {} {}", n, k));
        }
    }
    for s in [
        "total fields and methods",
        "total interfaces and fields",
        "total attributes",
        "total instructions",
        "total exceptions",
        "total annotations",
        "total values",
        "total lines",
        "total frames",
        "total strings",
        "total bootstrap arguments",
    ] {
        v.push(s.to_string());
    }
    v
}

/// many attributes of a kind, with few entries each
fn small(kind: &'static str, n: usize, k: usize) -> MClass {
    let mut r = Rng::new(7, kind, n as u64);
    r.few([1, 2, 3]);
    let mut cfg = Cfg::only(&["Synthetic"]);
    cfg.list = n;
    cfg.depth = usize::from(n > 1);
    cfg.attrs = 0;
    cfg.consts = 0;
    let mut g = G::new(&mut r, cfg);
    g.budget = -1;
    let a = g.attr_sized(kind, n);
    let mut c = g.wrap(0, vec![]);
    let many = (1000 * k).min(65_535);
    match kind {
        "Code" => c.methods = (0..many).map(|_| MMember { flags: 1, name: 1, desc: 1, attrs: vec![a.clone()] }).collect(),
        _ => c.attrs = vec![a; many],
    }
    c
}

/// lists that are within their limits, but not all together
fn total(name: &str, k: usize) -> MClass {
    let mut p = MPool::new();
    let n = (1200 * k).min(65_535);
    let some = n / 8 + 1;
    let m = |i: usize| MMember { flags: 1, name: i as u16, desc: 1, attrs: vec![] };
    let with = |attrs: Vec<MAttr>| MMember { flags: 1, name: 1, desc: 1, attrs };
    let code = p.utf8("Code");
    let mut attr = |kind: &str, body: MBody| MAttr { name: p.utf8(kind), body };
    let ann = |pairs: usize| MAnn { ty: 1, pairs: vec![(1, MEv::Idx(b'I', 1)); pairs] };
    let mut c = base(MPool::new());
    match name {
        "total fields and methods" => {
            c.fields = (0..n).map(m).collect();
            c.methods = (0..n).map(m).collect();
        }
        "total interfaces and fields" => {
            c.interfaces = (0..n).map(|i| i as u16).collect();
            c.fields = (0..n).map(m).collect();
        }
        "total attributes" => {
            let a = attr("Deprecated", MBody::Deprecated);
            c.fields = vec![with(vec![a.clone(); some]); 5];
            c.methods = vec![with(vec![a.clone(); some]); 5];
            c.attrs = vec![a; n];
        }
        "total instructions" => c.methods = (0..6).map(|_| with(vec![code_named(code, n.min(25_000))])).collect(),
        "total exceptions" => {
            let mut a = code_named(code, 1);
            if let MBody::Code(m) = &mut a.body {
                m.exc = (0..n).map(|i| [i as u16, 65_535, i as u16, 0]).collect();
            }
            c.methods = vec![with(vec![a]); 3];
        }
        "total annotations" => {
            let a = attr("RuntimeVisibleAnnotations", MBody::Anns(true, vec![ann(1); n]));
            c.methods = vec![with(vec![a.clone()]); 2];
            c.fields = vec![with(vec![a])];
        }
        "total values" => {
            let a = attr("RuntimeInvisibleAnnotations", MBody::Anns(false, vec![ann(300); some / 8 + 3]));
            let v = attr("AnnotationDefault", MBody::AnnotationDefault(MEv::Arr(vec![MEv::Arr(vec![MEv::Idx(b'B', 1); n]); 3])));
            c.attrs = vec![a, v];
        }
        "total lines" => {
            let a = attr("LineNumberTable", MBody::LineNumbers((0..n).map(|i| [i as u16, 65_535]).collect()));
            let v = attr("LocalVariableTable", MBody::Lvt((0..n).map(|i| [65_535 - i as u16, 65_535, 1, 1, 65_535]).collect()));
            c.attrs = vec![a.clone(), v.clone(), a, v];
        }
        "total frames" => {
            let f = |tag: u8, i: usize| MFrame {
                tag,
                delta: if tag < 64 { u16::from(tag) } else { 65_535 },
                locals: if tag >= 252 { vec![MVt(3, 0); if tag == 255 { i % 7 } else { tag as usize - 251 }] } else { vec![] },
                stack: vec![],
            };
            let a = attr("StackMapTable", MBody::StackMap((0..n).map(|i| f([63, 248, 250, 254, 255, 251, 252][i % 7], i)).collect()));
            let b = attr("StackMapTable", MBody::StackMap((0..n).map(|i| f(248, i)).collect()));
            let d = attr("StackMapTable", MBody::StackMap((0..n).map(|i| f(254, i)).collect()));
            c.attrs = vec![a, b, d];
        }
        "total strings" => {
            for i in 0..40 * k {
                p.add(Const::Utf8(vec![b'a' + (i % 26) as u8; 3000]));
            }
        }
        "total bootstrap arguments" => {
            let a = attr("BootstrapMethods", MBody::Bootstrap(vec![(65_535, vec![65_535; n]); 3]));
            c.attrs = vec![a];
        }
        _ => panic!("no family {}", name),
    }
    c.pool = p;
    c
}

/// the job of a family at a scale; about 2 KiB to 20 KiB of input per unit of scale
pub fn job(name: &str, k: usize) -> Job {
    let mut r = Rng::new(7, name, 0);
    for o in ["rising", "falling", "alternating"] {
        if let Some(t) = name.strip_prefix(o).and_then(|x| x.strip_prefix(' ')) {
            return ordered(o, t, k);
        }
    }
    if name.starts_with("total ") {
        return Job::Parse(encode(&total(name, k)));
    }
    if let Some(l) = name.strip_prefix("small ") {
        let (n, kind) = l.split_once(' ').unwrap();
        let kind = *ALL_KINDS.iter().find(|x| **x == kind).unwrap();
        return Job::Parse(encode(&small(kind, n.parse().unwrap(), k)));
    }
    if let Some(l) = name.strip_prefix("list ") {
        let max = gen::LISTS.iter().find(|x| x.0 == l).unwrap().1;
        let n = 800 * k;
        if n <= max {
            return Job::Parse(encode(&gen::with_list(&mut r, l, n)));
        }
        // lists of up to 255 entries: many of them
        let one = gen::with_list(&mut r, l, 255);
        let mut c = one.clone();
        for _ in 0..3 * k {
            for m in &one.methods {
                c.methods.push(m.clone());
            }
            for m in &one.fields {
                c.fields.push(m.clone());
            }
            for a in &one.attrs {
                c.attrs.push(a.clone());
            }
        }
        return Job::Parse(encode(&c));
    }
    if let Some(t) = name.strip_prefix("constants ") {
        let t: u8 = t.parse().unwrap();
        let mut p = MPool::new();
        for i in 0..800 * k {
            p.add(kind_const(t, i));
        }
        return Job::Parse(encode(&base(p)));
    }
    if let Some(t) = name.strip_prefix("push ") {
        if let Ok(t) = t.parse::<u8>() {
            return Job::Push((0..800 * k).map(|i| to_item(&kind_const(t, i))).collect());
        }
    }
    let mut p = MPool::new();
    if let Some(l) = name.strip_prefix("colliding ") {
        let (how, t) = l.split_once(' ').unwrap();
        let t = t.parse().unwrap();
        for i in 0..800 * k {
            p.add(colliding(how, t, i));
        }
        return Job::Parse(encode(&base(p)));
    }
    match name {
        "equal constants" => {
            for i in 0..1000 * k {
                p.add(match i % 3 {
                    0 => Const::Int(7),
                    1 => Const::Utf8(b"same".to_vec()),
                    _ => Const::Class(3),
                });
            }
            Job::Parse(encode(&base(p)))
        }
        "long strings" => {
            for i in 0..k {
                p.add(Const::Utf8(vec![b'a' + (i % 26) as u8; 20_000 + i]));
            }
            Job::Parse(encode(&base(p)))
        }
        "strings that begin and end alike" => {
            for i in 0..200 * k {
                p.add(Const::Utf8(format!("com/example/application/server/{:06}/implementation/of/the/Main", i).into_bytes()));
            }
            Job::Parse(encode(&base(p)))
        }
        "string of supplementary characters" => {
            for i in 0..k {
                let ch = char::from_u32(0x1_0000 + i as u32).unwrap();
                p.add(Const::Utf8(mutf8::encode(&ch.to_string().repeat(2000))));
            }
            Job::Parse(encode(&base(p)))
        }
        "one long name" => {
            let n = p.utf8(&"n".repeat(1000 * k));
            let mut c = base(p);
            c.attrs = (0..500 * k).map(|_| MAttr { name: n, body: MBody::Unknown(vec![]) }).collect();
            Job::Parse(encode(&c))
        }
        "long near name" => {
            let n = p.utf8(&format!("{}{}", "RuntimeVisibleAnnotations", "s".repeat(1000 * k)));
            let mut c = base(p);
            c.methods = (0..300 * k).map(|_| MMember { flags: 1, name: 1, desc: 1, attrs: vec![MAttr { name: n, body: MBody::Unknown(vec![1]) }] }).collect();
            Job::Parse(encode(&c))
        }
        "everything" | "everything cut" | "everything with a late error" | "bytes behind" => {
            let code = p.utf8("Code");
            let unknown = p.utf8(&"u".repeat(100 * k));
            let sig = p.utf8("Signature");
            let dep = p.utf8("Deprecated");
            for i in 0..300 * k {
                p.add(kind_const([1, 3, 5, 7, 10, 12][i % 6], i));
            }
            let mut c = base(p);
            c.interfaces = (0..100 * k).map(|i| i as u16).collect();
            let some = || vec![MAttr { name: dep, body: MBody::Deprecated }, MAttr { name: sig, body: MBody::Unknown(vec![0, 1]) }];
            c.fields = (0..60 * k).map(|i| MMember { flags: 1, name: i as u16, desc: 2, attrs: some() }).collect();
            c.methods = (0..60 * k)
                .map(|i| {
                    let mut a = some();
                    a.push(code_named(code, 12));
                    MMember { flags: 1, name: i as u16, desc: 2, attrs: a }
                })
                .collect();
            c.methods.push(MMember { flags: 1, name: 1, desc: 2, attrs: vec![code_named(code, 200 * k)] });
            c.attrs = (0..60 * k).map(|i| MAttr { name: unknown, body: MBody::Unknown(vec![7; i % 8]) }).collect();
            c.attrs.push(MAttr { name: unknown, body: MBody::Unknown(vec![7; 1000 * k]) });
            let mut b = encode(&c);
            match name {
                "everything cut" => {
                    let n = b.len();
                    b.truncate(n - 3);
                }
                "everything with a late error" => {
                    // an unknown name in the last attribute
                    let n = b.len() - 1000 * k - 6;
                    b[n] = 0xFF;
                    b[n + 1] = 0xFF;
                }
                "bytes behind" => b.extend(std::iter::repeat(0u8).take(10_000 * k)),
                _ => {}
            }
            Job::Parse(b)
        }
        "methods with code and a large pool" => {
            let code = p.utf8("Code");
            for i in 0..700 * k {
                p.add(kind_const([1, 3, 7, 9][i % 4], i));
            }
            // the same name again at the end
            let last = p.utf8("Code");
            let mut c = base(p);
            c.methods = (0..200 * k)
                .map(|i| MMember { flags: 1, name: 5, desc: 6, attrs: vec![code_named(if i % 2 == 0 { code } else { last }, 3)] })
                .collect();
            Job::Parse(encode(&c))
        }
        "unknown attributes" => {
            let n = p.utf8("unknown");
            let mut c = base(p);
            c.attrs = (0..700 * k).map(|i| MAttr { name: n, body: MBody::Unknown(vec![1; i % 40]) }).collect();
            Job::Parse(encode(&c))
        }
        "one unknown attribute" => {
            let n = p.utf8("unknown");
            let mut c = base(p);
            c.attrs = vec![MAttr { name: n, body: MBody::Unknown(vec![1; 20_000 * k]) }];
            Job::Parse(encode(&c))
        }
        "debug extension" => Job::Parse(w_nest::class_with("SourceDebugExtension", vec![b'x'; 15_000 * k], 0)),
        "debug extensions" => {
            let n = p.utf8("SourceDebugExtension");
            let mut c = base(p);
            c.attrs = (0..500 * k).map(|i| MAttr { name: n, body: MBody::Unknown(vec![b'x'; i % 30]) }).collect();
            Job::Parse(encode(&c))
        }
        "many empty codes" => {
            let code = p.utf8("Code");
            let mut c = base(p);
            c.methods = (0..400 * k).map(|_| MMember { flags: 1, name: 1, desc: 1, attrs: vec![code_named(code, 1)] }).collect();
            Job::Parse(encode(&c))
        }
        "many codes" => {
            let code = p.utf8("Code");
            let mut c = base(p);
            c.methods = (0..10 * k).map(|_| MMember { flags: 1, name: 1, desc: 1, attrs: vec![code_named(code, 1000)] }).collect();
            Job::Parse(encode(&c))
        }
        "nested codes" => {
            // at most 30 deep, with all of the bytes at the bottom
            let un = w_nest::nested_code(29, Some((1, vec![0xAA; 8000 * k])));
            Job::Parse(w_nest::class_with("Code", un, 2))
        }
        "nested values" => {
            let mut v = vec![b'['];
            v.extend_from_slice(&((30 * k) as u16).to_be_bytes());
            for i in 0..30 * k {
                v.extend_from_slice(&w_nest::nested_ev(&mut r, 30, i % 3));
            }
            Job::Parse(w_nest::class_with("AnnotationDefault", v, 2))
        }
        "codes in codes" => {
            // at each of 30 levels many small attributes before the next one
            let small = p.utf8("x");
            let code = p.utf8("Code");
            let mut inner = code_named(code, 1);
            for _ in 0..29 {
                let mut next = code_named(code, 1);
                if let MBody::Code(m) = &mut next.body {
                    m.attrs = (0..20 * k).map(|_| MAttr { name: small, body: MBody::Unknown(vec![]) }).collect();
                    m.attrs.push(inner);
                }
                inner = next;
            }
            let mut c = base(p);
            c.methods = vec![MMember { flags: 1, name: 1, desc: 1, attrs: vec![inner] }];
            Job::Parse(encode(&c))
        }
        "lookupswitch" | "tableswitch" => {
            // the code may be up to 65535 bytes: several methods at the larger scales
            let code = p.utf8("Code");
            let n = 100 * k.min(60);
            let mut c = base(p);
            let mut g = G::new(&mut r, Cfg::only(&["Code"]));
            let i = if name == "lookupswitch" { g.lookup(0, n) } else { g.table(0, n) };
            for _ in 0..k.div_ceil(60) {
                let m = MCode { max_stack: 1, max_locals: 1, insns: vec![MInsn { at: 0, i: i.clone() }], exc: vec![], attrs: vec![] };
                c.methods.push(MMember { flags: 1, name: 1, desc: 1, attrs: vec![MAttr { name: code, body: MBody::Code(Box::new(m)) }] });
            }
            Job::Parse(encode(&c))
        }
        "many switches" => {
            let mut code = vec![];
            for _ in 0..(90 * k).min(4000) {
                code.extend_from_slice(&[0xAB, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            }
            Job::Parse(crate::w_class::raw_code(&code))
        }
        "many exception tables" => {
            let code = p.utf8("Code");
            let mut c = base(p);
            for _ in 0..20 * k {
                let mut a = code_named(code, 1);
                if let MBody::Code(m) = &mut a.body {
                    m.exc = vec![[0, 1, 2, 3]; 40];
                }
                c.methods.push(MMember { flags: 1, name: 1, desc: 1, attrs: vec![a] });
            }
            Job::Parse(encode(&c))
        }
        "wide frames" => {
            // full frames with lists as long as there are frames
            let m = 20 * (k as f64).sqrt() as usize;
            let mut v = (m as u16).to_be_bytes().to_vec();
            for _ in 0..m {
                v.extend_from_slice(&[255, 0, 1]);
                for _ in 0..2 {
                    v.extend_from_slice(&(m as u16).to_be_bytes());
                    for i in 0..m {
                        v.push((i % 7) as u8);
                    }
                }
            }
            Job::Parse(w_nest::class_with("StackMapTable", v, 3))
        }
        "bushy annotations" => {
            let mut v = ((100 * k) as u16).to_be_bytes().to_vec();
            for _ in 0..100 * k {
                v.extend_from_slice(&[0, 1, 0, 3]);
                for _ in 0..3 {
                    v.extend_from_slice(&[0, 2, b'[', 0, 3, b'I', 0, 1, b'@', 0, 1, 0, 1, 0, 1, b's', 0, 1, b'e', 0, 1, 0, 2]);
                }
            }
            Job::Parse(w_nest::class_with("RuntimeVisibleAnnotations", v, 0))
        }
        "parameter annotations" => {
            let n = p.utf8("RuntimeVisibleParameterAnnotations");
            let mut v = vec![255];
            for _ in 0..255 {
                v.extend_from_slice(&[0, 1, 0, 1, 0, 0]);
            }
            let mut c = base(p);
            c.methods = (0..3 * k).map(|_| MMember { flags: 1, name: 1, desc: 1, attrs: vec![MAttr { name: n, body: MBody::Unknown(v.clone()) }] }).collect();
            Job::Parse(encode(&c))
        }
        "method parameters" => {
            let n = p.utf8("MethodParameters");
            let mut v = vec![255];
            for _ in 0..255 {
                v.extend_from_slice(&[0, 1, 0, 1]);
            }
            let mut c = base(p);
            c.methods = (0..3 * k).map(|_| MMember { flags: 1, name: 1, desc: 1, attrs: vec![MAttr { name: n, body: MBody::Unknown(v.clone()) }] }).collect();
            Job::Parse(encode(&c))
        }
        "type paths" => {
            let mut v = ((3 * k) as u16).to_be_bytes().to_vec();
            for _ in 0..3 * k {
                v.extend_from_slice(&[0x13, 255]);
                for i in 0..255 {
                    v.extend_from_slice(&[3, i as u8]);
                }
                v.extend_from_slice(&[0, 1, 0, 0]);
            }
            Job::Parse(w_nest::class_with("RuntimeVisibleTypeAnnotations", v, 1))
        }
        "module lists" => {
            let mut v = vec![0, 1, 0, 0, 0, 0];
            v.extend_from_slice(&((100 * k) as u16).to_be_bytes());
            for _ in 0..100 * k {
                v.extend_from_slice(&[0, 1, 0, 2, 0, 3]);
            }
            for _ in 0..2 {
                v.extend_from_slice(&((60 * k) as u16).to_be_bytes());
                for _ in 0..60 * k {
                    v.extend_from_slice(&[0, 1, 0, 2, 0, 2, 0, 1, 0, 2]);
                }
            }
            v.extend_from_slice(&((60 * k) as u16).to_be_bytes());
            for _ in 0..60 * k {
                v.extend_from_slice(&[0, 1]);
            }
            v.extend_from_slice(&((60 * k) as u16).to_be_bytes());
            for _ in 0..60 * k {
                v.extend_from_slice(&[0, 1, 0, 2, 0, 1, 0, 2]);
            }
            Job::Parse(w_nest::class_with("Module", v, 0))
        }
        "push the same" => Job::Push((0..1500 * k).map(|i| to_item(&Const::Int(i as u32 % 3))).collect()),
        "push the same string" => Job::Push((0..300 * k).map(|i| to_item(&Const::Utf8(vec![b'a' + (i % 2) as u8; 50]))).collect()),
        "type name" => Job::Type(format!("L{};", "a".repeat(6000 * k))),
        "type name without end" => Job::Type(format!("[[L{}", "a".repeat(6000 * k))),
        "type name of wide characters" => Job::Type(format!("L{};", "\u{1F600}".repeat(1500 * k))),
        "brackets" => Job::Type("[".repeat(6000 * k)),
        "brackets and a name" => Job::Type(format!("{}L{};", "[".repeat(255), "x".repeat(6000 * k))),
        "noise behind a type" => Job::Type(format!("I{}", "I".repeat(6000 * k))),
        "method of long names" => {
            let s = format!("L{};", "a".repeat(25 * k));
            Job::Method(format!("({}){}", s.repeat(255), s))
        }
        "method of many parameters" => Job::Method(format!("({})V", "I".repeat(6000 * k))),
        "method of brackets" => Job::Method(format!("({})V", format!("{}I", "[".repeat(255)).repeat(k.min(255)))),
        "method without end" => Job::Method(format!("({}", "[La;".repeat(1500 * k))),
        "method noise" => Job::Method(format!("(){}", "V".repeat(6000 * k))),
        "format type" => Job::FormatType(TypeDescriptor { dimensions: 255, base_type: jbcrs::Type::Reference("a".repeat(6000 * k)) }),
        "format method" => {
            let t = |_| TypeDescriptor { dimensions: 3, base_type: jbcrs::Type::Reference("a".repeat(25 * k)) };
            Job::FormatMethod(MethodDescriptor { params: (0..255).map(t).collect(), return_type: None })
        }
        _ => panic!("no family {}", name),
    }
}

#[cfg(target_arch = "x86_64")]
fn request(code: usize, arg: usize) {
    if cfg!(miri) {
        return;
    }
    let args: [usize; 6] = [code, arg, 0, 0, 0, 0];
    let mut _r: usize = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            in("rax") args.as_ptr(),
            inout("rdx") _r,
        );
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn request(_: usize, _: usize) {}

const BASE: usize = 0x4354_0000;

pub fn main(a: &[String]) {
    if a[0] == "list" {
        for n in names() {
            println!("{}", n);
        }
        return;
    }
    let cut = a.iter().position(|s| s == "--").unwrap();
    let scales: Vec<usize> = a[1..cut].iter().map(|s| s.parse().unwrap()).collect();
    for f in &a[cut + 1..] {
        // once untouched, so that nothing is left to be initialised
        job(f, 1).run();
        for k in &scales {
            let j = job(f, *k);
            let n = j.n();
            let name = format!("{}|{}|{}\0", f, k, n);
            request(BASE + 4, 0); // start
            request(BASE + 1, 0); // zero
            let r = j.run();
            request(BASE + 3, name.as_ptr() as usize); // dump
            request(BASE + 5, 0); // stop
            println!("{}|{}|{}|{}", f, k, n, r);
        }
    }
}

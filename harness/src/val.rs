//! A neutral value tree: the model and the result of jbcrs are both lowered to it and compared.

use crate::model::*;
use crate::optab;
use jbcrs::basic as jb;

/// which properties a part of the result belongs to (bit mask)
pub mod sc {
    pub const POOL: u32 = 1;
    pub const UTF8: u32 = 1 << 1;
    pub const HEADER: u32 = 1 << 2;
    pub const ATTRS: u32 = 1 << 3;
    pub const INSN: u32 = 1 << 4;
    pub const CODE: u32 = 1 << 5;
    pub const STACKMAP: u32 = 1 << 6;
    pub const ANN: u32 = 1 << 7;
    pub const TYPEANN: u32 = 1 << 8;
    pub const METHOD: u32 = 1 << 9;
    pub const CLASS: u32 = 1 << 10;
    pub const FLAGS: u32 = 1 << 11;
    pub const UNKNOWN: u32 = 1 << 12;
    pub const NAMES: [&str; 13] = [
        "pool", "utf8", "header", "attributes", "instructions", "code", "stackmap", "annotations", "typeannotations", "methodtables", "classtables",
        "flags", "unknown",
    ];
    pub fn names(m: u32) -> String {
        (0..13).filter(|i| m >> i & 1 == 1).map(|i| NAMES[i]).collect::<Vec<_>>().join("+")
    }
}

#[derive(Clone, PartialEq)]
pub enum V {
    N(i64),
    S(String),
    B(Vec<u8>),
    L(Vec<V>),
    T(u32, &'static str, Vec<V>),
}
use V::*;

fn n(x: impl Into<i64>) -> V {
    N(x.into())
}
fn l(v: &[u16]) -> V {
    L(v.iter().map(|x| N(i64::from(*x))).collect())
}
fn flags(x: u16) -> V {
    T(sc::FLAGS, "flags", vec![n(x)])
}
fn rows<const K: usize>(v: &[[u16; K]]) -> V {
    L(v.iter().map(|e| l(e)).collect())
}

impl V {
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, s: &mut String) {
        use std::fmt::Write;
        if s.len() > 400 {
            return;
        }
        match self {
            N(x) => write!(s, "{}", x).unwrap(),
            S(x) => {
                let t: String = x.chars().take(100).collect();
                write!(s, "{:?}", t).unwrap()
            }
            B(x) => write!(s, "{} bytes {:02x?}", x.len(), &x[..x.len().min(40)]).unwrap(),
            L(v) => {
                write!(s, "{}[", v.len()).unwrap();
                for e in v.iter().take(12) {
                    e.write(s);
                    s.push(' ');
                }
                s.push(']');
            }
            T(_, t, v) => {
                write!(s, "{}(", t).unwrap();
                for e in v.iter().take(12) {
                    e.write(s);
                    s.push(' ');
                }
                s.push(')');
            }
        }
    }
    /// number of leaves, a measure for what a comparison covered
    pub fn leaves(&self) -> u64 {
        match self {
            L(v) | T(_, _, v) => v.iter().map(|x| x.leaves()).sum::<u64>() + u64::from(v.is_empty()),
            _ => 1,
        }
    }
    pub fn hash(&self) -> u64 {
        fn go(v: &V, h: &mut u64) {
            let mut m = |x: u64| *h = (*h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
            match v {
                N(x) => m(*x as u64 ^ 0x11),
                S(x) => m(crate::rng::hash_bytes(x.as_bytes()) ^ 0x22),
                B(x) => m(crate::rng::hash_bytes(x) ^ 0x33),
                L(w) => {
                    m(w.len() as u64 ^ 0x4400);
                    w.iter().for_each(|x| go(x, h));
                }
                T(_, t, w) => {
                    m(crate::rng::hash_bytes(t.as_bytes()) ^ w.len() as u64);
                    w.iter().for_each(|x| go(x, h));
                }
            }
        }
        let mut h = 0x1234_5678_9ABC_DEF1;
        go(self, &mut h);
        h
    }
}

#[derive(Clone)]
pub struct Mismatch {
    pub scope: u32,
    pub path: String,
    pub want: String,
    pub got: String,
}

pub fn diff(want: &V, got: &V) -> Vec<Mismatch> {
    let mut out = Vec::new();
    let mut path = Vec::new();
    go(want, got, 0, 0, &mut path, &mut out);
    return out;

    fn push(scope: u32, path: &[(&'static str, usize)], w: &V, g: &V, out: &mut Vec<Mismatch>) {
        let p: Vec<String> = path.iter().map(|(t, i)| format!("{}.{}", t, i)).collect();
        out.push(Mismatch { scope, path: p.join("/"), want: w.show(), got: g.show() });
    }
    fn go(w: &V, g: &V, scope: u32, extra: u32, path: &mut Vec<(&'static str, usize)>, out: &mut Vec<Mismatch>) {
        if out.len() >= 16 {
            return;
        }
        match (w, g) {
            (T(s, t, a), T(s2, t2, b)) => {
                let own = s & !sc::FLAGS & !sc::UTF8;
                let here = if own == 0 { s | scope } else { *s };
                if t != t2 {
                    // the wrong kind of attribute, instruction, ...: also the matter of the list it is in
                    let both = if scope & sc::ATTRS != 0 { here | s2 | sc::ATTRS } else { here };
                    return push(both | extra, path, w, g, out);
                }
                list(a, b, here, extra, t, w, g, path, out);
            }
            (L(a), L(b)) => list(a, b, scope, extra, "", w, g, path, out),
            _ => {
                if w != g {
                    push(scope | extra, path, w, g, out);
                }
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn list(a: &[V], b: &[V], scope: u32, extra: u32, t: &'static str, w: &V, g: &V, path: &mut Vec<(&'static str, usize)>, out: &mut Vec<Mismatch>) {
        if a.len() != b.len() {
            push(scope | extra, path, w, g, out);
        }
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            path.push((t, i));
            // whatever is wrong with an attribute of a code is also wrong with the code
            let extra = if t == "Code" && i == 4 { extra | sc::CODE } else { extra };
            go(x, y, scope, extra, path, out);
            path.pop();
        }
    }
}

// ---------------------------------------------------------------- model

pub fn m_all(c: &MClass) -> V {
    L(vec![m_pool(&c.pool), m_class(c)])
}

pub fn m_const(p: &MPool, i: u16) -> V {
    use Const::*;
    let t = |s, v| T(sc::POOL, s, v);
    match p.get(i) {
        None => t("-", vec![]),
        Some(Utf8(_)) => T(sc::UTF8, "Utf8", vec![S(p.text(i).unwrap_or_else(|| "?".into()))]),
        Some(Int(x)) => t("Int", vec![n(*x)]),
        Some(Float(x)) => t("Float", vec![n(*x)]),
        Some(Long(x)) => t("Long", vec![N(*x as i64)]),
        Some(Double(x)) => t("Double", vec![N(*x as i64)]),
        Some(Class(x)) => t("Class", vec![n(*x)]),
        Some(Str(x)) => t("String", vec![n(*x)]),
        Some(Field(x, y)) => t("FieldRef", vec![n(*x), n(*y)]),
        Some(Method(x, y)) => t("MethodRef", vec![n(*x), n(*y)]),
        Some(IMethod(x, y)) => t("InterfaceMethodRef", vec![n(*x), n(*y)]),
        Some(NameType(x, y)) => t("NameAndType", vec![n(*x), n(*y)]),
        Some(Handle(k, x)) => t("MethodHandle", vec![n(*k), n(*x)]),
        Some(MType(x)) => t("MethodType", vec![n(*x)]),
        Some(InvDyn(x, y)) => t("InvokeDynamic", vec![n(*x), n(*y)]),
        Some(Module(x)) => t("Module", vec![n(*x)]),
        Some(Package(x)) => t("Package", vec![n(*x)]),
        Some(Dynamic(x, y)) => t("Dynamic", vec![n(*x), n(*y)]),
    }
}

pub fn m_pool(p: &MPool) -> V {
    let none = || T(sc::POOL, "-", vec![]);
    T(
        sc::POOL,
        "pool",
        vec![n(p.count() as u32), L((0..p.count()).map(|i| m_const(p, i as u16)).collect()), L(vec![none(), none(), none(), none()])],
    )
}

pub fn m_class(c: &MClass) -> V {
    T(
        sc::HEADER,
        "class",
        vec![
            n(c.minor),
            n(c.major),
            flags(c.flags),
            n(c.name),
            n(c.super_name),
            l(&c.interfaces),
            L(c.fields.iter().map(m_member).collect()),
            L(c.methods.iter().map(m_member).collect()),
            m_attrs(&c.attrs),
        ],
    )
}

fn m_member(m: &MMember) -> V {
    T(sc::HEADER, "member", vec![flags(m.flags), n(m.name), n(m.desc), m_attrs(&m.attrs)])
}

fn m_attrs(v: &[MAttr]) -> V {
    T(sc::ATTRS, "attributes", v.iter().map(m_attr).collect())
}

pub fn kind_scope(kind: &str) -> u32 {
    match kind {
        "Code" => sc::CODE,
        "StackMapTable" => sc::STACKMAP,
        "AnnotationDefault"
        | "RuntimeVisibleAnnotations"
        | "RuntimeInvisibleAnnotations"
        | "RuntimeVisibleParameterAnnotations"
        | "RuntimeInvisibleParameterAnnotations" => sc::ANN,
        "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => sc::TYPEANN,
        "LineNumberTable" | "LocalVariableTable" | "LocalVariableTypeTable" | "MethodParameters" | "Exceptions" | "ConstantValue" | "Signature"
        | "SourceFile" | "SourceDebugExtension" => sc::METHOD,
        "InnerClasses" | "EnclosingMethod" | "BootstrapMethods" | "Module" | "ModulePackages" | "ModuleMainClass" => sc::CLASS,
        "(unknown)" => sc::UNKNOWN,
        _ => sc::ATTRS,
    }
}

fn m_attr(a: &MAttr) -> V {
    use MBody::*;
    let kind = a.body.kind();
    let v = match &a.body {
        AnnotationDefault(e) => vec![m_ev(e)],
        Bootstrap(v) => v.iter().map(|(r, a)| L(vec![n(*r), l(a)])).collect(),
        Code(c) => {
            let insns = c.insns.iter().map(|i| L(vec![n(i.at), m_insn(&i.i)])).collect();
            vec![n(c.max_stack), n(c.max_locals), L(insns), rows(&c.exc), m_attrs(&c.attrs)]
        }
        ConstantValue(x) | ModuleMain(x) | Signature(x) | SourceFile(x) => vec![n(*x)],
        Deprecated | Synthetic => vec![],
        EnclosingMethod(x, y) => vec![n(*x), n(*y)],
        Exceptions(v) | ModulePackages(v) => vec![l(v)],
        InnerClasses(v) => v.iter().map(|e| L(vec![n(e[0]), n(e[1]), n(e[2]), flags(e[3])])).collect(),
        LineNumbers(v) => vec![rows(v)],
        Lvt(v) | Lvtt(v) => vec![rows(v)],
        MethodParams(v) => v.iter().map(|e| L(vec![n(e[0]), flags(e[1])])).collect(),
        Module(m) => {
            let fl = |v: &Vec<MFlagged>| L(v.iter().map(|e| L(vec![n(e.index), flags(e.flags), l(&e.to)])).collect());
            vec![
                n(m.name),
                flags(m.flags),
                n(m.version),
                L(m.requires.iter().map(|r| L(vec![n(r[0]), flags(r[1]), n(r[2])])).collect()),
                fl(&m.exports),
                fl(&m.opens),
                l(&m.uses),
                L(m.provides.iter().map(|(i, w)| L(vec![n(*i), l(w)])).collect()),
            ]
        }
        Anns(_, v) => v.iter().map(m_ann).collect(),
        ParamAnns(_, v) => v.iter().map(|a| L(a.iter().map(m_ann).collect())).collect(),
        TypeAnns(_, v) => v.iter().map(m_tann).collect(),
        SourceDebug(b) => vec![match crate::mutf8::decode(b) {
            crate::mutf8::Dec::Ok(s) | crate::mutf8::Dec::Overlong(s) => S(s),
            crate::mutf8::Dec::Bad => S("?".into()),
        }],
        StackMap(v) => v.iter().map(m_frame).collect(),
        Unknown(b) => vec![n(a.name), B(b.clone())],
    };
    T(kind_scope(kind), kind, v)
}

fn m_ann(a: &MAnn) -> V {
    L(vec![n(a.ty), L(a.pairs.iter().map(|(x, e)| L(vec![n(*x), m_ev(e)])).collect())])
}

fn m_ev(e: &MEv) -> V {
    let t = |s, v| T(sc::ANN, s, v);
    match e {
        MEv::Idx(k, x) => t(
            match k {
                b'B' => "Byte",
                b'C' => "Char",
                b'D' => "Double",
                b'F' => "Float",
                b'I' => "Int",
                b'J' => "Long",
                b'S' => "Short",
                b'Z' => "Boolean",
                b's' => "String",
                b'c' => "Class",
                _ => unreachable!(),
            },
            vec![n(*x)],
        ),
        MEv::Enum(x, y) => t("Enum", vec![n(*x), n(*y)]),
        MEv::Ann(a) => t("Annotation", vec![m_ann(a)]),
        MEv::Arr(v) => t("Array", v.iter().map(m_ev).collect()),
    }
}

fn m_tann(a: &MTypeAnn) -> V {
    let name = match a.target {
        0x00 => "TypeParameterClass",
        0x01 => "TypeParameterMethod",
        0x10 => "SuperType",
        0x11 => "TypeParameterBoundClass",
        0x12 => "TypeParameterBoundMethod",
        0x13 => "EmptyField",
        0x14 => "EmptyReturn",
        0x15 => "EmptyReceiver",
        0x16 => "FormalParameter",
        0x17 => "Throws",
        0x40 => "LocalVariable",
        0x41 => "ResourceVariable",
        0x42 => "Catch",
        0x43 => "OffsetInstanceOf",
        0x44 => "OffsetNew",
        0x45 => "OffsetNewRef",
        0x46 => "OffsetRef",
        0x47 => "TypeArgumentCast",
        0x48 => "TypeArgumentConstructor",
        0x49 => "TypeArgumentMethod",
        0x4A => "TypeArgumentNewRef",
        0x4B => "TypeArgumentRef",
        _ => "?",
    };
    let info = match &a.info {
        TInfo::Empty => vec![],
        TInfo::U8(x) => vec![n(*x)],
        TInfo::U16(x) => vec![n(*x)],
        TInfo::U8U8(x, y) => vec![n(*x), n(*y)],
        TInfo::U16U8(x, y) => vec![n(*x), n(*y)],
        TInfo::Vars(v) => vec![rows(v)],
    };
    T(
        sc::TYPEANN,
        "typeannotation",
        vec![T(sc::TYPEANN, name, info), L(a.path.iter().map(|(k, i)| L(vec![n(*k), n(*i)])).collect()), m_ann(&a.ann)],
    )
}

fn m_vt(v: &MVt) -> V {
    let t = |s, v| T(sc::STACKMAP, s, v);
    match v.0 {
        0 => t("Top", vec![]),
        1 => t("Integer", vec![]),
        2 => t("Float", vec![]),
        3 => t("Double", vec![]),
        4 => t("Long", vec![]),
        5 => t("Null", vec![]),
        6 => t("UninitializedThis", vec![]),
        7 => t("Object", vec![n(v.1)]),
        8 => t("Uninitialized", vec![n(v.1)]),
        _ => t("?", vec![]),
    }
}

fn m_frame(f: &MFrame) -> V {
    let t = |s, v| T(sc::STACKMAP, s, v);
    let vts = |v: &[MVt]| L(v.iter().map(m_vt).collect());
    let d = n(f.delta);
    match f.tag {
        0..=63 | 251 => t("Same", vec![d]),
        64..=127 | 247 => t("Same1", vec![d, m_vt(&f.stack[0])]),
        248..=250 => t("Chop", vec![d, n(251 - f.tag)]),
        252..=254 => t("Append", vec![d, vts(&f.locals)]),
        255 => t("Full", vec![d, vts(&f.locals), vts(&f.stack)]),
        _ => t("?", vec![]),
    }
}

/// canonical opcode, as for the results of jbcrs
pub fn m_insn(i: &Raw) -> V {
    let (op, v): (u8, Vec<V>) = match i {
        Raw::None(o) => (*o, vec![]),
        Raw::U8(0x10, x) => (0x10, vec![n(*x as i8)]),
        Raw::U8(0xBC, x) => (0xBC, vec![n(*x)]),
        Raw::U8(o, x) => (*o, vec![n(*x)]),
        Raw::U16(0x13 | 0x14, x) => (0x12, vec![n(*x)]),
        Raw::U16(0x11, x) => (0x11, vec![n(*x as i16)]),
        Raw::U16(o @ (0x99..=0xA8 | 0xC6 | 0xC7), x) => (*o, vec![n(*x as i16)]),
        Raw::U16(o, x) => (*o, vec![n(*x)]),
        Raw::U32(0xC8, x) => (0xA7, vec![n(*x as i32)]),
        Raw::U32(_, x) => (0xA8, vec![n(*x as i32)]),
        Raw::Iinc(x, y) => (0x84, vec![n(*x), n(*y as i8)]),
        Raw::Wide(o, x) => (*o, vec![n(*x)]),
        Raw::WideIinc(x, y) => (0x84, vec![n(*x), n(*y as i16)]),
        Raw::InvIf(x, c, _) => (0xB9, vec![n(*x), n(*c)]),
        Raw::InvDyn(x, _) => (0xBA, vec![n(*x)]),
        Raw::Multi(x, d) => (0xC5, vec![n(*x), n(*d)]),
        Raw::Table { default, low, high, offs, .. } => {
            (0xAA, vec![n(*default), n(*low), n(*high), L(offs.iter().map(|x| n(*x)).collect())])
        }
        Raw::Lookup { default, pairs, .. } => {
            // the result is a map: later pairs of an equal key win, sorted by key
            let m: std::collections::BTreeMap<i32, i32> = pairs.iter().cloned().collect();
            (0xAB, vec![n(*default), L(m.iter().map(|(k, o)| L(vec![n(*k), n(*o)])).collect())])
        }
    };
    let mut w = vec![n(op)];
    w.extend(v);
    T(sc::INSN, "insn", w)
}

// ---------------------------------------------------------------- jbcrs

pub fn j_all(p: &jb::Pool, c: &jb::Class) -> V {
    L(vec![j_pool(p), j_class(c)])
}

pub fn j_item(i: &jb::Item) -> V {
    use jb::Item::*;
    let t = |s, v| T(sc::POOL, s, v);
    match i {
        UTF8(s) => T(sc::UTF8, "Utf8", vec![S(s.clone())]),
        Integer(x) => t("Int", vec![n(*x as u32)]),
        Float(x) => t("Float", vec![n(x.to_bits())]),
        Long(x) => t("Long", vec![N(*x)]),
        Double(x) => t("Double", vec![N(x.to_bits() as i64)]),
        Class(x) => t("Class", vec![n(*x)]),
        String(x) => t("String", vec![n(*x)]),
        FieldRef { class, name_and_type } => t("FieldRef", vec![n(*class), n(*name_and_type)]),
        MethodRef { class, name_and_type } => t("MethodRef", vec![n(*class), n(*name_and_type)]),
        InterfaceMethodRef { class, name_and_type } => t("InterfaceMethodRef", vec![n(*class), n(*name_and_type)]),
        NameAndType { name, desc } => t("NameAndType", vec![n(*name), n(*desc)]),
        MethodHandle { kind, index } => t("MethodHandle", vec![n(kind_no(kind)), n(*index)]),
        MethodType(x) => t("MethodType", vec![n(*x)]),
        InvokeDynamic { bootstrap_method_attribute, name_and_type } => t("InvokeDynamic", vec![n(*bootstrap_method_attribute), n(*name_and_type)]),
        Module(x) => t("Module", vec![n(*x)]),
        Package(x) => t("Package", vec![n(*x)]),
    }
}

pub fn kind_no(k: &jb::ReferenceKind) -> u8 {
    use jb::ReferenceKind::*;
    match k {
        GetField => 1,
        GetStatic => 2,
        PutField => 3,
        PutStatic => 4,
        InvokeVirtual => 5,
        InvokeStatic => 6,
        InvokeSpecial => 7,
        NewInvokeSpecial => 8,
        InvokeInterface => 9,
    }
}

fn j_slot(p: &jb::Pool, i: u16) -> V {
    match p.get(i) {
        Ok(x) => j_item(x),
        Err(jbcrs::Error::InvalidCPItem(j)) if j == i => T(sc::POOL, "-", vec![]),
        Err(e) => T(sc::POOL, "error", vec![S(format!("{:?}", e))]),
    }
}

pub fn j_pool(p: &jb::Pool) -> V {
    let len = p.len();
    let beyond = [len, len.saturating_add(1), len.saturating_add(len.max(1)), 65535];
    T(
        sc::POOL,
        "pool",
        vec![
            n(len),
            L((0..len).map(|i| j_slot(p, i)).collect()),
            L(beyond.iter().map(|i| j_slot(p, *i)).collect()),
        ],
    )
}

fn jf(f: jb::AccessFlags) -> V {
    flags(f.bits())
}

pub fn j_class(c: &jb::Class) -> V {
    T(
        sc::HEADER,
        "class",
        vec![
            n(c.minor_version),
            n(c.major_version),
            jf(c.access_flags),
            n(c.name),
            n(c.super_name),
            l(&c.interfaces),
            L(c.fields.iter().map(|m| j_member(m.access_flags, m.name, m.desc, &m.attributes)).collect()),
            L(c.methods.iter().map(|m| j_member(m.access_flags, m.name, m.desc, &m.attributes)).collect()),
            j_attrs(&c.attributes),
        ],
    )
}

fn j_member(f: jb::AccessFlags, name: u16, desc: u16, a: &[jb::Attribute]) -> V {
    T(sc::HEADER, "member", vec![jf(f), n(name), n(desc), j_attrs(a)])
}

fn j_attrs(v: &[jb::Attribute]) -> V {
    T(sc::ATTRS, "attributes", v.iter().map(j_attr).collect())
}

fn j_attr(a: &jb::Attribute) -> V {
    use jb::Attribute::*;
    let (kind, v): (&'static str, Vec<V>) = match a {
        AnnotationDefault(e) => ("AnnotationDefault", vec![j_ev(e)]),
        BootstrapMethods(v) => ("BootstrapMethods", v.iter().map(|b| L(vec![n(b.method_ref), l(&b.arguments)])).collect()),
        Code { max_stack, max_locals, instructions, exceptions, attributes } => {
            let mut keys: Vec<u32> = instructions.keys().cloned().collect();
            keys.sort_unstable();
            let insns = keys.iter().map(|k| L(vec![n(*k), j_insn(&instructions[k])])).collect();
            let exc = exceptions.iter().map(|e| l(&[e.start, e.end, e.handler, e.catch_type])).collect();
            ("Code", vec![n(*max_stack), n(*max_locals), L(insns), L(exc), j_attrs(attributes)])
        }
        ConstantValue(x) => ("ConstantValue", vec![n(*x)]),
        Deprecated => ("Deprecated", vec![]),
        EnclosingMethod { class_index, method_index } => ("EnclosingMethod", vec![n(*class_index), n(*method_index)]),
        Exceptions(v) => ("Exceptions", vec![l(v)]),
        InnerClasses(v) => (
            "InnerClasses",
            v.iter().map(|e| L(vec![n(e.inner_class_info), n(e.outer_class_info), n(e.inner_name), jf(e.inner_class_access_flags)])).collect(),
        ),
        LineNumberTable(v) => ("LineNumberTable", vec![L(v.iter().map(|e| l(&[e.start, e.line_number])).collect())]),
        LocalVariableTable(v) => {
            ("LocalVariableTable", vec![L(v.iter().map(|e| l(&[e.start, e.length, e.name, e.descriptor, e.index])).collect())])
        }
        LocalVariableTypeTable(v) => {
            ("LocalVariableTypeTable", vec![L(v.iter().map(|e| l(&[e.start, e.length, e.name, e.signature, e.index])).collect())])
        }
        MethodParameters(v) => ("MethodParameters", v.iter().map(|e| L(vec![n(e.name), jf(e.access_flags)])).collect()),
        Module { name, flags, version, requires, exports, opens, uses, provides } => (
            "Module",
            vec![
                n(*name),
                jf(*flags),
                n(*version),
                L(requires.iter().map(|r| L(vec![n(r.index), jf(r.flags), n(r.version)])).collect()),
                L(exports.iter().map(|e| L(vec![n(e.index), jf(e.flags), l(&e.to)])).collect()),
                L(opens.iter().map(|e| L(vec![n(e.index), jf(e.flags), l(&e.to)])).collect()),
                l(uses),
                L(provides.iter().map(|p| L(vec![n(p.index), l(&p.with)])).collect()),
            ],
        ),
        ModuleMainClass(x) => ("ModuleMainClass", vec![n(*x)]),
        ModulePackages(v) => ("ModulePackages", vec![l(v)]),
        RuntimeVisibleAnnotations(v) => ("RuntimeVisibleAnnotations", v.iter().map(j_ann).collect()),
        RuntimeInvisibleAnnotations(v) => ("RuntimeInvisibleAnnotations", v.iter().map(j_ann).collect()),
        RuntimeVisibleParameterAnnotations(v) => {
            ("RuntimeVisibleParameterAnnotations", v.iter().map(|a| L(a.iter().map(j_ann).collect())).collect())
        }
        RuntimeInvisibleParameterAnnotations(v) => {
            ("RuntimeInvisibleParameterAnnotations", v.iter().map(|a| L(a.iter().map(j_ann).collect())).collect())
        }
        RuntimeVisibleTypeAnnotations(v) => ("RuntimeVisibleTypeAnnotations", v.iter().map(j_tann).collect()),
        RuntimeInvisibleTypeAnnotations(v) => ("RuntimeInvisibleTypeAnnotations", v.iter().map(j_tann).collect()),
        Signature(x) => ("Signature", vec![n(*x)]),
        Synthetic => ("Synthetic", vec![]),
        SourceFile(x) => ("SourceFile", vec![n(*x)]),
        SourceDebugExtension(s) => ("SourceDebugExtension", vec![S(s.clone())]),
        StackMapTable(v) => ("StackMapTable", v.iter().map(j_frame).collect()),
        Unknown(x, b) => ("(unknown)", vec![n(*x), B(b.clone())]),
    };
    T(kind_scope(kind), kind, v)
}

fn j_ann(a: &jb::Annotation) -> V {
    L(vec![n(a.type_index), L(a.element_value_pairs.iter().map(|(x, e)| L(vec![n(*x), j_ev(e)])).collect())])
}

fn j_ev(e: &jb::ElementValue) -> V {
    use jb::ElementValue::*;
    let t = |s, v| T(sc::ANN, s, v);
    match e {
        Byte(x) => t("Byte", vec![n(*x)]),
        Short(x) => t("Short", vec![n(*x)]),
        Char(x) => t("Char", vec![n(*x)]),
        Int(x) => t("Int", vec![n(*x)]),
        Long(x) => t("Long", vec![n(*x)]),
        Float(x) => t("Float", vec![n(*x)]),
        Double(x) => t("Double", vec![n(*x)]),
        Boolean(x) => t("Boolean", vec![n(*x)]),
        String(x) => t("String", vec![n(*x)]),
        Class(x) => t("Class", vec![n(*x)]),
        Enum { type_name, const_name } => t("Enum", vec![n(*type_name), n(*const_name)]),
        Annotation(a) => t("Annotation", vec![j_ann(a)]),
        Array(v) => t("Array", v.iter().map(j_ev).collect()),
    }
}

fn j_tann(a: &jb::TypeAnnotation) -> V {
    use jb::TargetType::*;
    let vars = |v: &Vec<jb::LocalVariableTarget>| vec![L(v.iter().map(|e| l(&[e.start, e.length, e.index])).collect())];
    let (name, info) = match &a.target_type {
        TypeParameterClass(x) => ("TypeParameterClass", vec![n(*x)]),
        TypeParameterMethod(x) => ("TypeParameterMethod", vec![n(*x)]),
        SuperType(x) => ("SuperType", vec![n(*x)]),
        TypeParameterBoundClass { type_parameter, bound_index } => ("TypeParameterBoundClass", vec![n(*type_parameter), n(*bound_index)]),
        TypeParameterBoundMethod { type_parameter, bound_index } => ("TypeParameterBoundMethod", vec![n(*type_parameter), n(*bound_index)]),
        EmptyField => ("EmptyField", vec![]),
        EmptyReturn => ("EmptyReturn", vec![]),
        EmptyReceiver => ("EmptyReceiver", vec![]),
        FormalParameter(x) => ("FormalParameter", vec![n(*x)]),
        Throws(x) => ("Throws", vec![n(*x)]),
        LocalVariable(v) => ("LocalVariable", vars(v)),
        ResourceVariable(v) => ("ResourceVariable", vars(v)),
        Catch(x) => ("Catch", vec![n(*x)]),
        OffsetInstanceOf(x) => ("OffsetInstanceOf", vec![n(*x)]),
        OffsetNew(x) => ("OffsetNew", vec![n(*x)]),
        OffsetNewRef(x) => ("OffsetNewRef", vec![n(*x)]),
        OffsetRef(x) => ("OffsetRef", vec![n(*x)]),
        TypeArgumentCast { offset, type_argument } => ("TypeArgumentCast", vec![n(*offset), n(*type_argument)]),
        TypeArgumentConstructor { offset, type_argument } => ("TypeArgumentConstructor", vec![n(*offset), n(*type_argument)]),
        TypeArgumentMethod { offset, type_argument } => ("TypeArgumentMethod", vec![n(*offset), n(*type_argument)]),
        TypeArgumentNewRef { offset, type_argument } => ("TypeArgumentNewRef", vec![n(*offset), n(*type_argument)]),
        TypeArgumentRef { offset, type_argument } => ("TypeArgumentRef", vec![n(*offset), n(*type_argument)]),
    };
    let path = a
        .target_path
        .iter()
        .map(|p| {
            let k = match p.path_kind {
                jb::TypePathKind::ArrayType => 0u8,
                jb::TypePathKind::NestedType => 1,
                jb::TypePathKind::WildcardType => 2,
                jb::TypePathKind::Type => 3,
            };
            L(vec![n(k), n(p.argument_index)])
        })
        .collect();
    T(sc::TYPEANN, "typeannotation", vec![T(sc::TYPEANN, name, info), L(path), j_ann(&a.annotation)])
}

fn j_vt(v: &jb::VerificationType) -> V {
    use jb::VerificationType::*;
    let t = |s, v| T(sc::STACKMAP, s, v);
    match v {
        Top => t("Top", vec![]),
        Integer => t("Integer", vec![]),
        Float => t("Float", vec![]),
        Double => t("Double", vec![]),
        Long => t("Long", vec![]),
        Null => t("Null", vec![]),
        UninitializedThis => t("UninitializedThis", vec![]),
        Object(x) => t("Object", vec![n(*x)]),
        Uninitialized(x) => t("Uninitialized", vec![n(*x)]),
    }
}

fn j_frame(f: &jb::StackMapFrame) -> V {
    use jb::StackMapFrame::*;
    let t = |s, v| T(sc::STACKMAP, s, v);
    let vts = |v: &[jb::VerificationType]| L(v.iter().map(j_vt).collect());
    match f {
        Same { offset_delta } => t("Same", vec![n(*offset_delta)]),
        Same1 { offset_delta, stack } => t("Same1", vec![n(*offset_delta), j_vt(stack)]),
        Chop { offset_delta, count } => t("Chop", vec![n(*offset_delta), n(*count)]),
        Append { offset_delta, locals } => t("Append", vec![n(*offset_delta), vts(locals)]),
        Full { offset_delta, locals, stack } => t("Full", vec![n(*offset_delta), vts(locals), vts(stack)]),
    }
}

pub fn j_insn(i: &jb::Instruction) -> V {
    use jb::Instruction::*;
    let (op, v): (u8, Vec<V>) = if let Some(o) = optab::unit_opcode(i) {
        (o, vec![])
    } else if let Some((o, x)) = optab::single_operand(i) {
        (o, vec![N(x)])
    } else {
        match i {
            IInc(x, y) => (0x84, vec![n(*x), n(*y)]),
            TableSwitch { default, low, high, offsets } => {
                (0xAA, vec![n(*default), n(*low), n(*high), L(offsets.iter().map(|x| n(*x)).collect())])
            }
            LookupSwitch { default, offsets } => {
                (0xAB, vec![n(*default), L(offsets.iter().map(|(k, o)| L(vec![n(*k), n(*o)])).collect())])
            }
            InvokeInterface(x, c) => (0xB9, vec![n(*x), n(*c)]),
            NewArray(t) => {
                use jb::ArrayType as A;
                let k = match t {
                    A::Boolean => 4u8,
                    A::Char => 5,
                    A::Float => 6,
                    A::Double => 7,
                    A::Byte => 8,
                    A::Short => 9,
                    A::Int => 10,
                    A::Long => 11,
                };
                (0xBC, vec![n(k)])
            }
            MultiANewArray(x, d) => (0xC5, vec![n(*x), n(*d)]),
            _ => (0xFD, vec![]),
        }
    };
    let mut w = vec![n(op)];
    w.extend(v);
    T(sc::INSN, "insn", w)
}

/// The error as text, with all of its data
pub fn err(e: &jbcrs::Error) -> String {
    use jbcrs::Error::*;
    match e {
        IO(x) => format!("IO({})", x),
        InvalidUTF8 => "InvalidUTF8".into(),
        LimitExceeded => "LimitExceeded".into(),
        NotAClass => "NotAClass".into(),
        InvalidCPItem(i) => format!("InvalidCPItem({})", i),
        CPTooLarge => "CPTooLarge".into(),
        InvalidDescriptor { desc, at } => format!("InvalidDescriptor({:?},{})", desc, at),
        InvalidInstruction { op_code, at } => format!("InvalidInstruction({:#04x},{})", op_code, at),
        ReservedStackMapFrame(t) => format!("ReservedStackMapFrame({})", t),
        InvalidVerificationType(t) => format!("InvalidVerificationType({})", t),
        InvalidElementValue(t) => format!("InvalidElementValue({})", t),
        InvalidTargetType => "InvalidTargetType".into(),
        InvalidTypePath => "InvalidTypePath".into(),
    }
}

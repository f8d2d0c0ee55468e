//! Random model classes.

use crate::enc::insn_len;
use crate::model::*;
use crate::mutf8;
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone)]
pub struct Cfg {
    /// attribute kinds to choose from
    pub kinds: Vec<&'static str>,
    /// kinds allowed inside of Code
    pub code_kinds: Vec<&'static str>,
    pub members: usize,
    pub attrs: usize,
    /// usual upper bound of list lengths
    pub list: usize,
    /// nesting of annotations
    pub depth: usize,
    /// random constants in the pool
    pub consts: usize,
    /// strings with more than ASCII
    pub rich: bool,
    pub insns: usize,
    /// how often a name index points to a duplicate
    pub dups: bool,
}

pub const ALL_KINDS: [&str; 27] = [
    "AnnotationDefault",
    "BootstrapMethods",
    "Code",
    "ConstantValue",
    "Deprecated",
    "EnclosingMethod",
    "Exceptions",
    "InnerClasses",
    "LineNumberTable",
    "LocalVariableTable",
    "LocalVariableTypeTable",
    "MethodParameters",
    "Module",
    "ModuleMainClass",
    "ModulePackages",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
    "Signature",
    "Synthetic",
    "SourceFile",
    "SourceDebugExtension",
    "StackMapTable",
    "(unknown)",
];

impl Cfg {
    pub fn all() -> Cfg {
        Cfg {
            kinds: ALL_KINDS.to_vec(),
            code_kinds: ALL_KINDS.to_vec(),
            members: 3,
            attrs: 3,
            list: 4,
            depth: 3,
            consts: 12,
            rich: true,
            insns: 12,
            dups: true,
        }
    }
    /// only some kinds of attributes, plain names, few constants
    pub fn only(kinds: &[&'static str]) -> Cfg {
        Cfg {
            kinds: kinds.to_vec(),
            code_kinds: kinds.to_vec(),
            members: 2,
            attrs: 3,
            list: 6,
            depth: 4,
            consts: 2,
            rich: false,
            insns: 12,
            dups: false,
        }
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub pool: MPool,
    pub cfg: Cfg,
    names: HashMap<String, u16>,
    code_depth: usize,
    /// bytes that may still be produced (roughly)
    pub budget: isize,
}

/// strings that are nearly the name of an attribute
pub fn near_name(r: &mut Rng) -> String {
    let base = *r.pick(&ATTR_NAMES);
    match r.below(12) {
        0 => String::new(),
        1 => base.to_lowercase(),
        2 => base.to_uppercase(),
        3 => format!("{} ", base),
        4 => format!(" {}", base),
        5 => base[..base.len() - 1].to_string(),
        6 => format!("{}s", base),
        7 => base[1..].to_string(),
        8 => format!("{}\0", base),
        9 => base.replacen('e', "\u{435}", 1) + "\u{301}",
        10 => r.pick(&["NestHost", "NestMembers", "Record", "PermittedSubclasses", "ModuleHashes", "ModuleTarget", "ModuleResolution", "StackMap", "Synthetic2", "Foo"]).to_string(),
        _ => {
            let mut s: Vec<char> = base.chars().collect();
            let i = r.below(s.len());
            let j = r.below(s.len());
            s.swap(i, j);
            let t: String = s.into_iter().collect();
            if ATTR_NAMES.contains(&t.as_str()) {
                format!("x{}", t)
            } else {
                t
            }
        }
    }
}

pub fn a_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(10) {
            0 => r.below(0x80) as u32,
            1 => *r.pick(&[
                0u32, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x1_0000, 0x1_03FF, 0x1_0400, 0x10_FC00, 0x10_FFFF, 0xFEFF, 0x1_FFFF,
            ]),
            2 => r.range(0x80, 0x7FF) as u32,
            3 | 4 => r.range(0x800, 0xFFFF) as u32,
            5 | 6 => r.range(0x1_0000, 0x10_FFFF) as u32,
            _ => r.range(0x20, 0x7E) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

/// strings that mean something in a class file
const WORDS: [&str; 44] = [
    "<init>", "<clinit>", "this", "()V", "(I)I", "V", "I", "J", "[I", "[[Ljava/lang/Object;", "Ljava/lang/String;", "java/lang/Object", "java/lang/String",
    "java/lang/Throwable", "java/lang/Enum", "java/lang/annotation/Annotation", "module-info", "package-info", "java.base", "java/lang", "main",
    "([Ljava/lang/String;)V", "value", "<T:Ljava/lang/Object;>Ljava/lang/Object;", "TT;", "Outer$Inner", "Main.java", "a.b", "a;b", "a[b", "a/b", "<x>", "", " ",
    "\u{0}", "NaN", "0", "-1", "\u{FEFF}x", "e\u{301}", "java/lang/invoke/LambdaMetafactory", "metafactory", "lambda$main$0", "SMAP",
];

const ENDS: [&str; 26] = [
    "\n", "\r\n", "\r", "\t", " ", "\0", "\u{FEFF}", "\u{A0}", "\u{2028}", "\u{85}", "\u{B}", "\u{C}", "\u{1A}", "\u{1B}", "\u{7F}", "\u{200B}", "/", ".", ";", "[", "\"",
    "\\", "$", "-", "\u{FFFD}", "*",
];

pub fn a_string(r: &mut Rng, rich: bool) -> String {
    if r.one_in(5) {
        return r.pick(&WORDS).to_string();
    }
    if r.one_in(12) {
        return r.pick(&ATTR_NAMES).to_string();
    }
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.below(200),
        _ => r.below(16),
    };
    let mut s: String = if rich {
        (0..n).map(|_| a_char(r)).collect()
    } else {
        (0..n).map(|_| *r.pick(b"abcXYZ_$/;()[LIV09<> ") as char).collect()
    };
    // what gets trimmed, cut, or taken for the end
    while r.one_in(4) {
        let what = r.pick(&ENDS).repeat(1 + r.below(3));
        match r.below(4) {
            0 => s.insert_str(0, &what),
            1 => {
                let at = s.char_indices().map(|x| x.0).nth(r.below(s.chars().count() + 1)).unwrap_or(0);
                s.insert_str(at, &what)
            }
            _ => s.push_str(&what),
        }
    }
    s
}

pub fn a_const(r: &mut Rng, rich: bool) -> Const {
    use Const::*;
    match *r.pick(&TAGS) {
        1 => {
            if rich && r.one_in(40) {
                // as long as possible
                let n = r.range(65500, 65535);
                let c = *r.pick(&['a', '\u{7FF}', '\u{FFFF}', '\u{10FFFF}', '\0']);
                let mut b = mutf8::encode(&c.to_string());
                let one = b.len();
                b = b.repeat(n / one);
                Utf8(b)
            } else {
                Utf8(mutf8::encode(&a_string(r, rich)))
            }
        }
        3 => Int(r.word()),
        4 => Float(match r.below(4) {
            0 => *r.pick(&[0u32, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0x7F80_0001, 0xFFFF_FFFF, 1, 0x7FA0_0000]),
            _ => r.word(),
        }),
        5 => Long(r.long()),
        6 => Double(r.long()),
        7 => Class(r.idx()),
        8 => Str(r.idx()),
        9 => Field(r.idx(), r.idx()),
        10 => Method(r.idx(), r.idx()),
        11 => IMethod(r.idx(), r.idx()),
        12 => NameType(r.idx(), r.idx()),
        15 => Handle(r.range(1, 9) as u8, r.idx()),
        16 => MType(r.idx()),
        18 => InvDyn(r.idx(), r.idx()),
        19 => Module(r.idx()),
        _ => Package(r.idx()),
    }
}

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, cfg: Cfg) -> G<'a> {
        G { r, pool: MPool::new(), cfg, names: HashMap::new(), code_depth: 0, budget: 60_000 }
    }

    pub fn konst(&mut self) {
        if self.pool.room() < 200 {
            return;
        }
        let c = if self.cfg.dups && self.r.one_in(4) && self.pool.count() > 1 {
            // a duplicate of an earlier one
            let i = self.r.range(1, self.pool.count() - 1);
            match self.pool.get(i as u16) {
                Some(Const::Utf8(b)) if b.len() > 1000 => return,
                Some(c) => c.clone(),
                None => a_const(self.r, self.cfg.rich),
            }
        } else {
            a_const(self.r, self.cfg.rich)
        };
        self.pool.add(c);
    }

    /// index of a UTF-8 constant
    pub fn text(&mut self, s: &str) -> u16 {
        if let Some(i) = self.names.get(s) {
            if !(self.cfg.dups && self.r.one_in(6)) {
                return *i;
            }
        }
        if self.cfg.dups && self.r.one_in(4) {
            self.konst();
        }
        let i = self.pool.utf8(s);
        self.names.insert(s.to_string(), i);
        i
    }

    pub fn len(&mut self) -> usize {
        let m = self.cfg.list;
        if self.budget < 0 {
            return self.r.below(2);
        }
        match self.r.below(16) {
            0 => 0,
            1 => 1,
            2 if self.budget > 20_000 => self.r.range(m, m * 8),
            _ => self.r.below(m + 1),
        }
    }

    /// n entries; now and then one that equals its predecessor or another one before it
    pub fn vec<T: Clone>(&mut self, n: usize, cost: isize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        self.budget -= n as isize * cost;
        let again = *self.r.pick(&[0usize, 0, 2, 5, 12]);
        let mut v: Vec<T> = Vec::with_capacity(n);
        // or all the same, perhaps except for one
        let (same, odd) = (n > 3 && self.r.one_in(10), self.r.below(2 * n + 1));
        for i in 0..n {
            let x = if same && i > 0 && i != odd {
                v[if i == odd + 1 && i > 1 { i - 2 } else { i - 1 }].clone()
            } else if again > 0 && i > 0 && self.r.one_in(again) {
                let j = if self.r.bool() { i - 1 } else { self.r.below(i) };
                v[j].clone()
            } else {
                f(self)
            };
            v.push(x);
        }
        v
    }
    /// an index: anything, or one of a constant of the pool
    pub fn ix(&mut self) -> u16 {
        if self.r.moody() {
            return self.r.idx();
        }
        match self.r.below(8) {
            0 | 1 if self.pool.count() > 1 => self.r.range(1, self.pool.count() - 1) as u16,
            2 if self.pool.count() > 1 => {
                // the first index of a constant the pool contains more than once, or the second slot of a wide one
                let i = self.r.range(1, self.pool.count() - 1);
                match self.pool.get(i as u16) {
                    Some(k) => (1..i as u16).find(|j| self.pool.get(*j) == Some(k)).unwrap_or(i as u16),
                    None => i as u16,
                }
            }
            _ => self.r.idx(),
        }
    }
    pub fn list(&mut self, n: usize) -> Vec<u16> {
        let mut v = self.vec(n, 2, |g| g.ix());
        self.order(&mut v);
        v
    }
    /// in some cases sorted, up or down, which real lists often are and others never
    fn order<T: Ord>(&mut self, v: &mut [T]) {
        match self.r.below(8) {
            0 => v.sort(),
            1 => {
                v.sort();
                v.reverse()
            }
            _ => {}
        }
    }
    /// rows of a table; columns often repeat those of the row before or continue it
    pub fn rows<const K: usize>(&mut self, n: usize) -> Vec<[u16; K]> {
        let keep = *self.r.pick(&[0usize, 0, 2, 4]);
        let mut last = [0u16; K];
        let mut v = self.vec(n, 2 * K as isize, |g| {
            let mut a = [0; K];
            for i in 0..K {
                a[i] = if keep > 0 && g.r.one_in(keep) {
                    match g.r.below(6) {
                        0 if i > 0 => a[i - 1],
                        1 if K > 1 => last[0].wrapping_add(last[1]),
                        2 => last[i].wrapping_add(1),
                        _ => last[i],
                    }
                } else {
                    g.ix()
                };
            }
            last = a;
            a
        });
        self.order(&mut v);
        v
    }
    pub fn flagbits(&mut self) -> u16 {
        if self.r.moody() && self.r.bool() {
            return self.r.idx();
        }
        match self.r.below(8) {
            0 => 1 << self.r.below(16),
            1 => 1 << self.r.below(16) | 1 << self.r.below(16),
            2 => !(1 << self.r.below(16)) & !(1 << self.r.below(16)),
            3 => 1 << self.r.below(16) | 1 << self.r.below(16) | 1 << self.r.below(16),
            // usual combinations
            4 | 5 => *self.r.pick(&[
                0, 0x8000, 0xFFFF, 0x7FFF, 0x21, 0x8001, 0x20, 0x31, 0x601, 0x2601, 0x4031, 0x1020, 0x8020, 0x9020, 0x9000, 0x0060, 0x8060, 0x1001, 0x1041, 0x0089, 0x0018,
                0x0019, 0x4019, 0x101A, 0x1010, 0x8010, 0x1008, 0x100A, 0x0101, 0x0401, 0x0421, 0x0C00, 0x0009,
            ]),
            _ => self.r.u16(),
        }
    }

    pub fn class(&mut self) -> MClass {
        let k = self.r.below(self.cfg.consts + 1);
        for _ in 0..k {
            self.konst();
        }
        let (nf, nm) = (self.r.below(self.cfg.members + 1), self.r.below(self.cfg.members + 1));
        let ni = self.len();
        let mut c = MClass {
            minor: self.ix(),
            major: if self.r.bool() { self.ix() } else { self.r.range(45, 61) as u16 },
            pool: MPool::new(),
            flags: self.flagbits(),
            name: self.ix(),
            super_name: self.ix(),
            interfaces: self.list(ni),
            fields: self.vec(nf, 8, |g| g.member()),
            methods: self.vec(nm, 8, |g| g.member()),
            attrs: self.attrs(),
        };
        let k = self.r.below(self.cfg.consts / 2 + 1);
        for _ in 0..k {
            self.konst();
        }
        c.pool = std::mem::replace(&mut self.pool, MPool::new());
        c
    }

    pub fn member(&mut self) -> MMember {
        MMember { flags: self.flagbits(), name: self.ix(), desc: self.ix(), attrs: self.attrs() }
    }

    pub fn attrs(&mut self) -> Vec<MAttr> {
        let n = if self.budget < 0 { 0 } else { self.r.below(self.cfg.attrs + 1) };
        // several of the same kind, too
        let same = self.r.one_in(4);
        let mut last: Option<&'static str> = None;
        self.vec(n, 6, |g| {
            let kind = match last {
                Some(k) if same && g.r.bool() => k,
                _ => g.kind(),
            };
            last = Some(kind);
            g.attr_of(kind)
        })
    }

    fn kind(&mut self) -> &'static str {
        if let Some(k) = self.r.pinned('k') {
            return ALL_KINDS[k as usize];
        }
        let kinds = if self.code_depth > 0 { &self.cfg.code_kinds } else { &self.cfg.kinds };
        let mut kind = *self.r.pick(kinds);
        if kind == "Code" && self.code_depth >= 2 {
            kind = "Synthetic";
        }
        kind
    }

    pub fn attr(&mut self) -> MAttr {
        let kind = self.kind();
        self.attr_of(kind)
    }

    pub fn attr_of(&mut self, kind: &'static str) -> MAttr {
        let n = self.len();
        self.attr_sized(kind, n)
    }

    pub fn attr_sized(&mut self, kind: &'static str, n: usize) -> MAttr {
        let name = if kind == "(unknown)" {
            let s = near_name(self.r);
            if ATTR_NAMES.contains(&s.as_str()) {
                self.text("Other")
            } else {
                self.text(&s)
            }
        } else {
            self.text(kind)
        };
        MAttr { name, body: self.body(kind, n) }
    }

    pub fn flagged(&mut self) -> MFlagged {
        let n = self.len();
        MFlagged { index: self.ix(), flags: self.flagbits(), to: self.list(n) }
    }

    pub fn body(&mut self, kind: &str, n: usize) -> MBody {
        use MBody::*;
        match kind {
            "AnnotationDefault" => {
                let d = self.r.below(self.cfg.depth + 1);
                AnnotationDefault(self.ev(d))
            }
            "BootstrapMethods" => Bootstrap(self.vec(n, 4, |g| {
                let k = g.len();
                (g.ix(), g.list(k))
            })),
            "Code" => {
                self.code_depth += 1;
                let k = 1 + self.r.below(self.cfg.insns);
                let c = self.code(k, n);
                self.code_depth -= 1;
                Code(Box::new(c))
            }
            "ConstantValue" => ConstantValue(self.ix()),
            "Deprecated" => Deprecated,
            "EnclosingMethod" => EnclosingMethod(self.ix(), self.ix()),
            "Exceptions" => Exceptions(self.list(n)),
            "InnerClasses" => InnerClasses(self.vec(n, 8, |g| [g.ix(), g.ix(), g.ix(), g.flagbits()])),
            "LineNumberTable" => LineNumbers(self.rows(n)),
            "LocalVariableTable" => Lvt(self.rows(n)),
            "LocalVariableTypeTable" => Lvtt(self.rows(n)),
            "MethodParameters" => {
                let n = n.min(255);
                MethodParams(self.vec(n, 4, |g| [g.ix(), g.flagbits()]))
            }
            "Module" => {
                let (a, b, c, d, e) = (self.len(), self.len(), self.len(), self.len(), self.len());
                Module(Box::new(MModule {
                    name: self.ix(),
                    flags: self.flagbits(),
                    version: self.ix(),
                    requires: self.vec(a, 6, |g| [g.ix(), g.flagbits(), g.ix()]),
                    exports: self.vec(b, 6, |g| g.flagged()),
                    opens: self.vec(c, 6, |g| g.flagged()),
                    uses: self.list(d),
                    provides: self.vec(e, 4, |g| {
                        let k = g.len();
                        (g.ix(), g.list(k))
                    }),
                }))
            }
            "ModuleMainClass" => ModuleMain(self.ix()),
            "ModulePackages" => ModulePackages(self.list(n)),
            "RuntimeVisibleAnnotations" => Anns(true, self.anns(n)),
            "RuntimeInvisibleAnnotations" => Anns(false, self.anns(n)),
            "RuntimeVisibleParameterAnnotations" => ParamAnns(true, self.panns(n)),
            "RuntimeInvisibleParameterAnnotations" => ParamAnns(false, self.panns(n)),
            "RuntimeVisibleTypeAnnotations" => TypeAnns(true, self.vec(n, 8, |g| g.tann())),
            "RuntimeInvisibleTypeAnnotations" => TypeAnns(false, self.vec(n, 8, |g| g.tann())),
            "Signature" => Signature(self.ix()),
            "Synthetic" => Synthetic,
            "SourceFile" => SourceFile(self.ix()),
            "SourceDebugExtension" => {
                let s = a_string(self.r, true);
                SourceDebug(mutf8::encode(&s))
            }
            "StackMapTable" => StackMap(self.vec(n, 6, |g| g.frame())),
            "(unknown)" => {
                let n = match self.r.below(6) {
                    0 => 0,
                    1 => self.r.below(3000),
                    _ => self.r.below(20),
                };
                Unknown(self.vec(n, 1, |g| g.r.byte()))
            }
            _ => panic!("no such attribute kind {}", kind),
        }
    }

    fn anns(&mut self, n: usize) -> Vec<MAnn> {
        let d = self.r.below(self.cfg.depth + 1);
        self.vec(n, 4, |g| g.ann(d))
    }
    fn panns(&mut self, n: usize) -> Vec<Vec<MAnn>> {
        let n = n.min(255);
        self.vec(n, 2, |g| {
            let k = g.len();
            g.anns(k)
        })
    }
    pub fn ann(&mut self, depth: usize) -> MAnn {
        let n = self.len();
        let same = self.r.one_in(4);
        let mut last = None;
        MAnn {
            ty: self.ix(),
            pairs: self.vec(n, 5, |g| {
                let name = match last {
                    Some(x) if same && g.r.bool() => x,
                    _ => g.ix(),
                };
                last = Some(name);
                (name, g.ev(depth))
            }),
        }
    }
    pub fn ev(&mut self, depth: usize) -> MEv {
        match self.r.pinned('e') {
            Some(10) => return MEv::Enum(self.ix(), self.ix()),
            Some(11) => return MEv::Arr(vec![]),
            Some(12) => return MEv::Ann(Box::new(MAnn { ty: self.ix(), pairs: vec![] })),
            Some(k) => return MEv::Idx(EV_IDX_TAGS[k as usize], self.ix()),
            None => {}
        }
        let k = if depth == 0 || self.budget < 0 { self.r.below(11) } else { self.r.below(15) };
        match k {
            0..=9 => MEv::Idx(EV_IDX_TAGS[k], self.ix()),
            10 => MEv::Enum(self.ix(), self.ix()),
            11 | 12 => MEv::Ann(Box::new(self.ann(depth - 1))),
            _ => {
                let n = self.len();
                MEv::Arr(self.vec(n, 3, |g| g.ev(depth - 1)))
            }
        }
    }
    pub fn tann(&mut self) -> MTypeAnn {
        let t = self.r.pinned('t').unwrap_or_else(|| *self.r.pick(&TARGETS));
        self.tann_of(t)
    }
    pub fn tann_of(&mut self, target: u8) -> MTypeAnn {
        let info = match target_kind(target) {
            TKind::Empty => TInfo::Empty,
            TKind::U8 => TInfo::U8(self.r.byte()),
            TKind::U16 => TInfo::U16(self.ix()),
            TKind::U8U8 => TInfo::U8U8(self.r.byte(), self.r.byte()),
            TKind::U16U8 => TInfo::U16U8(self.ix(), self.r.byte()),
            TKind::Vars => {
                let n = self.len();
                TInfo::Vars(self.rows(n))
            }
            TKind::Undefined => unreachable!(),
        };
        let n = self.len().min(255);
        let path = self.vec(n, 2, |g| (g.r.pinned('p').unwrap_or_else(|| g.r.below(4) as u8), g.r.byte()));
        let d = self.r.below(self.cfg.depth + 1);
        MTypeAnn { target, info, path, ann: self.ann(d) }
    }
    pub fn vt(&mut self) -> MVt {
        let t = self.r.pinned('v').unwrap_or_else(|| self.r.below(9) as u8);
        MVt(t, if t >= 7 { self.ix() } else { 0 })
    }
    pub fn frame(&mut self) -> MFrame {
        if let Some(tag) = self.r.pinned('f') {
            return self.frame_of(tag);
        }
        let tag = match self.r.below(8) {
            0 => self.r.below(64) as u8,
            1 => self.r.range(64, 127) as u8,
            2 => 247,
            3 => self.r.range(248, 250) as u8,
            4 => 251,
            5 => self.r.range(252, 254) as u8,
            6 => 255,
            _ => *self.r.pick(&[0, 63, 64, 127, 247, 248, 250, 251, 252, 254, 255]),
        };
        self.frame_of(tag)
    }
    pub fn frame_of(&mut self, tag: u8) -> MFrame {
        let mut f = MFrame { tag, delta: 0, locals: vec![], stack: vec![] };
        match tag {
            0..=63 => f.delta = u16::from(tag),
            64..=127 => {
                f.delta = u16::from(tag) - 64;
                f.stack = vec![self.vt()];
            }
            _ => {
                f.delta = self.ix();
                match tag {
                    247 => f.stack = vec![self.vt()],
                    252..=254 => f.locals = self.vec(tag as usize - 251, 3, |g| g.vt()),
                    255 => {
                        let (a, b) = (self.len(), self.len());
                        f.locals = self.vec(a, 2, |g| g.vt());
                        f.stack = self.vec(b, 2, |g| g.vt());
                    }
                    _ => {}
                }
            }
        }
        f
    }

    pub fn code(&mut self, insns: usize, list: usize) -> MCode {
        let mut v = Vec::new();
        let mut at = 0u32;
        for _ in 0..insns {
            let i = self.insn(at);
            let n = insn_len(&i) as u32;
            if at + n > 65535 {
                break;
            }
            self.budget -= n as isize;
            v.push(MInsn { at, i });
            at += n;
        }
        MCode { max_stack: self.ix(), max_locals: self.ix(), insns: v, exc: self.rows(list), attrs: self.attrs() }
    }

    pub fn insn(&mut self, at: u32) -> Raw {
        let op = match self.r.below(8) {
            0 => *self.r.pick(&[0xAA, 0xAB, 0xC4, 0x84, 0xB9, 0xBA, 0xBC, 0xC5, 0xC8, 0xC9, 0x10, 0x11, 0x12, 0x13, 0x14]),
            _ => loop {
                let o = self.r.u8();
                if op_kind(o) != OpKind::Undefined {
                    break o;
                }
            },
        };
        self.insn_of(op, at)
    }

    pub fn pad(&mut self, at: u32) -> Vec<u8> {
        let n = (4 - (at + 1) % 4) % 4;
        let zero = self.r.bool();
        (0..n).map(|_| if zero { 0 } else { self.r.byte() }).collect()
    }

    pub fn insn_of(&mut self, op: u8, at: u32) -> Raw {
        match op_kind(op) {
            OpKind::None => Raw::None(op),
            OpKind::U8 => Raw::U8(op, self.r.byte()),
            OpKind::U16 => Raw::U16(op, self.ix()),
            OpKind::U32 => Raw::U32(op, self.r.word()),
            OpKind::Iinc => Raw::Iinc(self.r.byte(), self.r.byte()),
            OpKind::NewArray => Raw::U8(op, self.r.range(4, 11) as u8),
            OpKind::InvIf => Raw::InvIf(self.ix(), self.r.byte(), 0),
            OpKind::InvDyn => Raw::InvDyn(self.ix(), 0),
            OpKind::Multi => Raw::Multi(self.ix(), self.r.byte()),
            OpKind::Wide => {
                let o = *self.r.pick(&WIDE_OPS);
                if o == 0x84 {
                    Raw::WideIinc(self.ix(), self.ix())
                } else {
                    Raw::Wide(o, self.ix())
                }
            }
            OpKind::Table => {
                let n = 1 + self.len();
                self.table(at, n)
            }
            OpKind::Lookup => {
                let n = self.len();
                self.lookup(at, n)
            }
            OpKind::Undefined => unreachable!(),
        }
    }

    pub fn table(&mut self, at: u32, n: usize) -> Raw {
        let span = n as i64 - 1;
        let low = match self.r.below(6) {
            0 => i64::from(i32::MIN),
            1 => i64::from(i32::MAX) - span,
            2 => -span / 2,
            3 => 0,
            4 => -span,
            _ => i64::from(self.r.word() as i32).min(i64::from(i32::MAX) - span),
        };
        Raw::Table {
            pad: self.pad(at),
            default: self.r.word() as i32,
            low: low as i32,
            high: (low + span) as i32,
            offs: (0..n).map(|_| self.r.word() as i32).collect(),
        }
    }

    pub fn lookup(&mut self, at: u32, n: usize) -> Raw {
        let mut keys: std::collections::BTreeSet<i32> = std::collections::BTreeSet::new();
        while keys.len() < n {
            keys.insert(self.r.word() as i32);
        }
        Raw::Lookup {
            pad: self.pad(at),
            default: self.r.word() as i32,
            pairs: keys.into_iter().map(|k| (k, self.r.word() as i32)).collect(),
        }
    }

    /// finishes a class around some attributes
    pub fn wrap(mut self, place: usize, attrs: Vec<MAttr>) -> MClass {
        let mut c = MClass {
            minor: 0,
            major: 53,
            pool: MPool::new(),
            flags: self.flagbits(),
            name: self.ix(),
            super_name: self.ix(),
            interfaces: vec![],
            fields: vec![],
            methods: vec![],
            attrs: vec![],
        };
        match place % 4 {
            0 => c.attrs = attrs,
            1 => c.fields.push(MMember { flags: 1, name: self.ix(), desc: self.ix(), attrs }),
            2 => c.methods.push(MMember { flags: 1, name: self.ix(), desc: self.ix(), attrs }),
            _ => {
                let name = self.text("Code");
                let code = MCode {
                    max_stack: self.ix(),
                    max_locals: self.ix(),
                    insns: vec![MInsn { at: 0, i: Raw::None(0xB1) }],
                    exc: vec![],
                    attrs,
                };
                c.methods.push(MMember {
                    flags: 1,
                    name: self.ix(),
                    desc: self.ix(),
                    attrs: vec![MAttr { name, body: MBody::Code(Box::new(code)) }],
                });
            }
        }
        c.pool = std::mem::replace(&mut self.pool, MPool::new());
        c
    }
}

/// every list a class file can contain: name and the largest count the format allows
pub const LISTS: [(&str, usize); 39] = [
    ("interfaces", 65535),
    ("fields", 65535),
    ("methods", 65535),
    ("class attributes", 65535),
    ("field attributes", 65535),
    ("method attributes", 65535),
    ("code attributes", 65535),
    ("exception table", 65535),
    ("BootstrapMethods", 65535),
    ("bootstrap arguments", 65535),
    ("Exceptions", 65535),
    ("InnerClasses", 65535),
    ("LineNumberTable", 65535),
    ("LocalVariableTable", 65535),
    ("LocalVariableTypeTable", 65535),
    ("MethodParameters", 255),
    ("module requires", 65535),
    ("module exports", 65535),
    ("module exports to", 65535),
    ("module opens", 65535),
    ("module opens to", 65535),
    ("module uses", 65535),
    ("module provides", 65535),
    ("module provides with", 65535),
    ("ModulePackages", 65535),
    ("RuntimeVisibleAnnotations", 65535),
    ("RuntimeInvisibleAnnotations", 65535),
    ("element value pairs", 65535),
    ("element value array", 65535),
    ("RuntimeVisibleParameterAnnotations", 255),
    ("RuntimeInvisibleParameterAnnotations", 255),
    ("RuntimeVisibleTypeAnnotations", 65535),
    ("RuntimeInvisibleTypeAnnotations", 65535),
    ("local variable target", 65535),
    ("type path", 255),
    ("StackMapTable", 65535),
    ("full frame locals", 65535),
    ("full frame stack", 65535),
    ("instructions", 65535),
];

/// a class in which the given list has exactly n entries
pub fn with_list(r: &mut Rng, list: &str, n: usize) -> MClass {
    let place = r.below(4);
    let mut cfg = Cfg::only(&["ConstantValue", "Deprecated", "Synthetic", "Signature"]);
    cfg.list = 2;
    cfg.depth = 0;
    cfg.attrs = 1;
    cfg.consts = 0;
    let mut g = G::new(r, cfg);
    // keep the entries small
    g.budget = 200;
    let mut other: Option<MBody> = None;
    let mut shape: (&str, usize) = ("", 0);
    match list {
        "interfaces" | "fields" | "methods" | "class attributes" => {
            let mut c;
            match list {
                "interfaces" => {
                    let v = g.list(n);
                    c = g.wrap(0, vec![]);
                    c.interfaces = v;
                }
                "class attributes" => {
                    let v = g.vec(n, 0, |g| g.attr());
                    c = g.wrap(0, v);
                }
                _ => {
                    let v = g.vec(n, 0, |g| g.member());
                    c = g.wrap(0, vec![]);
                    if list == "fields" {
                        c.fields = v;
                    } else {
                        c.methods = v;
                    }
                }
            }
            return c;
        }
        "field attributes" | "method attributes" | "code attributes" => {
            let v = g.vec(n, 0, |g| g.attr());
            let p = match list {
                "field attributes" => 1,
                "method attributes" => 2,
                _ => 3,
            };
            return g.wrap(p, v);
        }
        "exception table" | "instructions" => {
            let name = g.text("Code");
            let mut code = g.code(1, 0);
            if list == "instructions" {
                // one byte each, so that every count up to the maximum fits
                code.insns = (0..n.max(1))
                    .map(|i| {
                        let op = loop {
                            let o = g.r.pinned('o').unwrap_or_else(|| g.r.u8());
                            if op_kind(o) == OpKind::None {
                                break o;
                            }
                        };
                        MInsn { at: i as u32, i: Raw::None(op) }
                    })
                    .collect();
            } else {
                code.exc = g.rows(n);
            }
            let a = MAttr { name, body: MBody::Code(Box::new(code)) };
            return g.wrap(2, vec![a]);
        }
        "bootstrap arguments" => {
            let k = g.r.below(3);
            let mut v: Vec<(u16, Vec<u16>)> = (0..k).map(|_| (g.ix(), vec![1, 2])).collect();
            let at = g.r.below(k + 1);
            let l = g.list(n);
            v.insert(at, (g.ix(), l));
            other = Some(MBody::Bootstrap(v));
        }
        "module requires" | "module exports" | "module exports to" | "module opens" | "module opens to" | "module uses" | "module provides"
        | "module provides with" => {
            let MBody::Module(mut m) = g.body("Module", 0) else { unreachable!() };
            let fl = |g: &mut G, k: usize| {
                let mut f = g.flagged();
                f.to = g.list(k);
                f
            };
            match list {
                "module requires" => m.requires = g.rows(n),
                "module exports" => m.exports = (0..n).map(|i| fl(&mut g, i % 2)).collect(),
                "module opens" => m.opens = (0..n).map(|i| fl(&mut g, i % 2)).collect(),
                "module exports to" => {
                    let f = fl(&mut g, n);
                    let at = g.r.below(m.exports.len() + 1);
                    m.exports.insert(at, f);
                }
                "module opens to" => {
                    let f = fl(&mut g, n);
                    let at = g.r.below(m.opens.len() + 1);
                    m.opens.insert(at, f);
                }
                "module uses" => m.uses = g.list(n),
                "module provides" => m.provides = (0..n).map(|i| (g.ix(), g.list(i % 2))).collect(),
                _ => {
                    let l = g.list(n);
                    m.provides.push((g.ix(), l));
                }
            }
            other = Some(MBody::Module(m));
        }
        "element value pairs" => {
            let a = MAnn { ty: g.ix(), pairs: g.vec(n, 0, |g| (g.ix(), g.ev(0))) };
            let b = g.ann(0);
            other = Some(if g.r.bool() { MBody::Anns(true, vec![a, b]) } else { MBody::AnnotationDefault(MEv::Ann(Box::new(a))) });
        }
        "element value array" => {
            let a = MEv::Arr(g.vec(n, 0, |g| g.ev(0)));
            other = Some(if g.r.bool() {
                MBody::AnnotationDefault(a)
            } else {
                MBody::Anns(false, vec![MAnn { ty: g.ix(), pairs: vec![(g.ix(), a), (g.ix(), MEv::Idx(b'I', 7))] }])
            });
        }
        "local variable target" | "type path" => {
            let mut t = if list == "type path" { g.tann() } else { g.tann_of(0x40) };
            if list == "type path" {
                t.path = g.vec(n, 0, |g| (g.r.pinned('p').unwrap_or_else(|| g.r.below(4) as u8), g.r.byte()));
            } else {
                t.target = *g.r.pick(&[0x40, 0x41]);
                t.info = TInfo::Vars(g.rows(n));
            }
            let u = g.tann();
            other = Some(MBody::TypeAnns(g.r.bool(), vec![t, u]));
        }
        "full frame locals" | "full frame stack" => {
            let mut f = g.frame_of(255);
            let v = g.vec(n, 0, |g| g.vt());
            if list == "full frame locals" {
                f.locals = v;
            } else {
                f.stack = v;
            }
            let h = g.frame();
            other = Some(MBody::StackMap(vec![f, h]));
        }
        kind => {
            let k = *ALL_KINDS.iter().find(|x| **x == kind).expect("list name");
            shape = (k, n);
        }
    }
    let a = match other {
        Some(body) => {
            let name = g.text(body.kind());
            MAttr { name, body }
        }
        None => g.attr_sized(ALL_KINDS.iter().find(|x| **x == shape.0).unwrap(), shape.1),
    };
    g.wrap(place, vec![a])
}

/// sizes at which counters and capacities change
pub const SIZES: [usize; 22] = [0, 1, 2, 3, 4, 7, 8, 15, 16, 127, 128, 254, 255, 256, 257, 258, 1000, 4097, 32767, 32768, 65534, 65535];

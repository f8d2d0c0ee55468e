//! Encodes a model class to bytes and records where everything is (for single-spot faults).

use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sk {
    Magic,
    CpCount,
    CpTag(u16),
    Utf8Len(u16),
    Utf8Body(u16),
    HandleKind(u16),
    AttrName,
    /// nesting depth in Code attributes
    AttrLen(u8),
    Opcode(u32),
    WideOp(u32),
    AType(u32),
    TableBounds(u32),
    CodeLen,
    FrameTag,
    VtTag,
    EvTag,
    TargetType,
    PathKind,
    SdeBody,
    Count(u8),
    Flags,
}

#[derive(Clone, Copy, Debug)]
pub struct Site {
    pub off: usize,
    pub len: usize,
    pub k: Sk,
    /// attribute the site is in
    pub attr: &'static str,
}

pub struct Enc {
    pub b: Vec<u8>,
    pub sites: Vec<Site>,
    attr: &'static str,
    depth: u8,
}


impl Enc {
    pub fn new() -> Enc {
        Enc { b: Vec::new(), sites: Vec::new(), attr: "", depth: 0 }
    }
    fn site(&mut self, len: usize, k: Sk) {
        self.sites.push(Site { off: self.b.len(), len, k, attr: self.attr });
    }
    fn u1(&mut self, v: u8) {
        self.b.push(v);
    }
    fn u2(&mut self, v: u16) {
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    fn u4(&mut self, v: u32) {
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    fn u8_(&mut self, v: u64) {
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    fn n2(&mut self, n: usize) {
        assert!(n <= 0xFFFF, "count {} too large", n);
        self.site(2, Sk::Count(2));
        self.u2(n as u16);
    }
    fn n1(&mut self, n: usize) {
        assert!(n <= 0xFF, "count {} too large", n);
        self.site(1, Sk::Count(1));
        self.u1(n as u8);
    }
    fn flags(&mut self, v: u16) {
        self.site(2, Sk::Flags);
        self.u2(v);
    }
    fn list(&mut self, v: &[u16]) {
        self.n2(v.len());
        for x in v {
            self.u2(*x);
        }
    }

    pub fn class(&mut self, c: &MClass) {
        self.site(4, Sk::Magic);
        self.u4(0xCAFE_BABE);
        self.u2(c.minor);
        self.u2(c.major);
        self.pool(&c.pool);
        self.flags(c.flags);
        self.u2(c.name);
        self.u2(c.super_name);
        self.list(&c.interfaces);
        for ms in [&c.fields, &c.methods] {
            self.n2(ms.len());
            for m in ms {
                self.flags(m.flags);
                self.u2(m.name);
                self.u2(m.desc);
                self.attrs(&m.attrs);
            }
        }
        self.attrs(&c.attrs);
    }

    pub fn pool(&mut self, p: &MPool) {
        self.site(2, Sk::CpCount);
        self.u2(p.count() as u16);
        for (i, c) in p.slots.iter().enumerate() {
            let Some(c) = c else { continue };
            let i = i as u16;
            self.site(1, Sk::CpTag(i));
            self.u1(c.tag());
            match c {
                Const::Utf8(b) => {
                    assert!(b.len() <= 0xFFFF);
                    self.site(2, Sk::Utf8Len(i));
                    self.u2(b.len() as u16);
                    self.site(b.len(), Sk::Utf8Body(i));
                    self.b.extend_from_slice(b);
                }
                Const::Int(x) | Const::Float(x) => self.u4(*x),
                Const::Long(x) | Const::Double(x) => self.u8_(*x),
                Const::Class(x) | Const::Str(x) | Const::MType(x) | Const::Module(x) | Const::Package(x) => self.u2(*x),
                Const::Field(x, y)
                | Const::Method(x, y)
                | Const::IMethod(x, y)
                | Const::NameType(x, y)
                | Const::InvDyn(x, y)
                | Const::Dynamic(x, y) => {
                    self.u2(*x);
                    self.u2(*y);
                }
                Const::Handle(k, x) => {
                    self.site(1, Sk::HandleKind(i));
                    self.u1(*k);
                    self.u2(*x);
                }
            }
        }
    }

    pub fn attrs(&mut self, v: &[MAttr]) {
        self.n2(v.len());
        for a in v {
            self.attr(a);
        }
    }

    fn attr(&mut self, a: &MAttr) {
        let outer = self.attr;
        self.attr = a.body.kind();
        self.site(2, Sk::AttrName);
        self.u2(a.name);
        self.site(4, Sk::AttrLen(self.depth));
        let at = self.b.len();
        self.u4(0);
        self.body(&a.body);
        let n = (self.b.len() - at - 4) as u32;
        self.b[at..at + 4].copy_from_slice(&n.to_be_bytes());
        self.attr = outer;
    }

    fn body(&mut self, b: &MBody) {
        use MBody::*;
        match b {
            AnnotationDefault(e) => self.ev(e),
            Bootstrap(v) => {
                self.n2(v.len());
                for (r, args) in v {
                    self.u2(*r);
                    self.list(args);
                }
            }
            Code(c) => self.code(c),
            ConstantValue(x) | ModuleMain(x) | Signature(x) | SourceFile(x) => self.u2(*x),
            Deprecated | Synthetic => {}
            EnclosingMethod(x, y) => {
                self.u2(*x);
                self.u2(*y);
            }
            Exceptions(v) | ModulePackages(v) => self.list(v),
            InnerClasses(v) => {
                self.n2(v.len());
                for e in v {
                    self.u2(e[0]);
                    self.u2(e[1]);
                    self.u2(e[2]);
                    self.flags(e[3]);
                }
            }
            LineNumbers(v) => {
                self.n2(v.len());
                for e in v {
                    for x in e {
                        self.u2(*x);
                    }
                }
            }
            Lvt(v) | Lvtt(v) => {
                self.n2(v.len());
                for e in v {
                    for x in e {
                        self.u2(*x);
                    }
                }
            }
            MethodParams(v) => {
                self.n1(v.len());
                for e in v {
                    self.u2(e[0]);
                    self.flags(e[1]);
                }
            }
            Module(m) => {
                self.u2(m.name);
                self.flags(m.flags);
                self.u2(m.version);
                self.n2(m.requires.len());
                for r in &m.requires {
                    self.u2(r[0]);
                    self.flags(r[1]);
                    self.u2(r[2]);
                }
                for l in [&m.exports, &m.opens] {
                    self.n2(l.len());
                    for e in l {
                        self.u2(e.index);
                        self.flags(e.flags);
                        self.list(&e.to);
                    }
                }
                self.list(&m.uses);
                self.n2(m.provides.len());
                for (i, with) in &m.provides {
                    self.u2(*i);
                    self.list(with);
                }
            }
            Anns(_, v) => self.anns(v),
            ParamAnns(_, v) => {
                self.n1(v.len());
                for a in v {
                    self.anns(a);
                }
            }
            TypeAnns(_, v) => {
                self.n2(v.len());
                for t in v {
                    self.site(1, Sk::TargetType);
                    self.u1(t.target);
                    match &t.info {
                        TInfo::Empty => {}
                        TInfo::U8(x) => self.u1(*x),
                        TInfo::U16(x) => self.u2(*x),
                        TInfo::U8U8(x, y) => {
                            self.u1(*x);
                            self.u1(*y);
                        }
                        TInfo::U16U8(x, y) => {
                            self.u2(*x);
                            self.u1(*y);
                        }
                        TInfo::Vars(v) => {
                            self.n2(v.len());
                            for e in v {
                                for x in e {
                                    self.u2(*x);
                                }
                            }
                        }
                    }
                    self.n1(t.path.len());
                    for (k, i) in &t.path {
                        self.site(1, Sk::PathKind);
                        self.u1(*k);
                        self.u1(*i);
                    }
                    self.ann(&t.ann);
                }
            }
            SourceDebug(b) => {
                self.site(b.len(), Sk::SdeBody);
                self.b.extend_from_slice(b);
            }
            StackMap(v) => {
                self.n2(v.len());
                for f in v {
                    self.frame(f);
                }
            }
            Unknown(b) => self.b.extend_from_slice(b),
        }
    }

    fn vt(&mut self, v: &MVt) {
        self.site(1, Sk::VtTag);
        self.u1(v.0);
        if v.0 == 7 || v.0 == 8 {
            self.u2(v.1);
        }
    }

    fn frame(&mut self, f: &MFrame) {
        self.site(1, Sk::FrameTag);
        self.u1(f.tag);
        if f.tag >= 247 {
            self.u2(f.delta);
        }
        match f.tag {
            64..=127 | 247 => self.vt(&f.stack[0]),
            252..=254 => {
                assert_eq!(f.locals.len(), f.tag as usize - 251);
                for v in &f.locals {
                    self.vt(v);
                }
            }
            255 => {
                self.n2(f.locals.len());
                for v in &f.locals {
                    self.vt(v);
                }
                self.n2(f.stack.len());
                for v in &f.stack {
                    self.vt(v);
                }
            }
            _ => {}
        }
    }

    fn anns(&mut self, v: &[MAnn]) {
        self.n2(v.len());
        for a in v {
            self.ann(a);
        }
    }

    fn ann(&mut self, a: &MAnn) {
        self.u2(a.ty);
        self.n2(a.pairs.len());
        for (n, e) in &a.pairs {
            self.u2(*n);
            self.ev(e);
        }
    }

    fn ev(&mut self, e: &MEv) {
        self.site(1, Sk::EvTag);
        match e {
            MEv::Idx(t, x) => {
                self.u1(*t);
                self.u2(*x);
            }
            MEv::Enum(t, c) => {
                self.u1(b'e');
                self.u2(*t);
                self.u2(*c);
            }
            MEv::Ann(a) => {
                self.u1(b'@');
                self.ann(a);
            }
            MEv::Arr(v) => {
                self.u1(b'[');
                self.n2(v.len());
                for x in v {
                    self.ev(x);
                }
            }
        }
    }

    fn code(&mut self, c: &MCode) {
        self.u2(c.max_stack);
        self.u2(c.max_locals);
        self.site(4, Sk::CodeLen);
        let at = self.b.len();
        self.u4(0);
        for i in &c.insns {
            assert_eq!(self.b.len() - at - 4, i.at as usize, "instruction offset");
            self.insn(i);
        }
        let n = (self.b.len() - at - 4) as u32;
        self.b[at..at + 4].copy_from_slice(&n.to_be_bytes());
        self.n2(c.exc.len());
        for e in &c.exc {
            for x in e {
                self.u2(*x);
            }
        }
        self.depth = self.depth.saturating_add(1);
        self.attrs(&c.attrs);
        self.depth -= 1;
    }

    fn insn(&mut self, i: &MInsn) {
        self.site(1, Sk::Opcode(i.at));
        match &i.i {
            Raw::None(o) => self.u1(*o),
            Raw::U8(o, x) => {
                self.u1(*o);
                if *o == 0xBC {
                    self.site(1, Sk::AType(i.at));
                }
                self.u1(*x);
            }
            Raw::U16(o, x) => {
                self.u1(*o);
                self.u2(*x);
            }
            Raw::U32(o, x) => {
                self.u1(*o);
                self.u4(*x);
            }
            Raw::Iinc(x, y) => {
                self.u1(0x84);
                self.u1(*x);
                self.u1(*y);
            }
            Raw::Wide(o, x) => {
                self.u1(0xC4);
                self.site(1, Sk::WideOp(i.at));
                self.u1(*o);
                self.u2(*x);
            }
            Raw::WideIinc(x, y) => {
                self.u1(0xC4);
                self.site(1, Sk::WideOp(i.at));
                self.u1(0x84);
                self.u2(*x);
                self.u2(*y);
            }
            Raw::InvIf(x, c, z) => {
                self.u1(0xB9);
                self.u2(*x);
                self.u1(*c);
                self.u1(*z);
            }
            Raw::InvDyn(x, z) => {
                self.u1(0xBA);
                self.u2(*x);
                self.u2(*z);
            }
            Raw::Multi(x, d) => {
                self.u1(0xC5);
                self.u2(*x);
                self.u1(*d);
            }
            Raw::Table { pad, default, low, high, offs } => {
                self.u1(0xAA);
                self.b.extend_from_slice(pad);
                self.u4(*default as u32);
                self.site(8, Sk::TableBounds(i.at));
                self.u4(*low as u32);
                self.u4(*high as u32);
                for o in offs {
                    self.u4(*o as u32);
                }
            }
            Raw::Lookup { pad, default, pairs } => {
                self.u1(0xAB);
                self.b.extend_from_slice(pad);
                self.u4(*default as u32);
                self.site(4, Sk::Count(4));
                self.u4(pairs.len() as u32);
                for (k, o) in pairs {
                    self.u4(*k as u32);
                    self.u4(*o as u32);
                }
            }
        }
    }
}

pub fn insn_len(i: &Raw) -> usize {
    match i {
        Raw::None(_) => 1,
        Raw::U8(..) => 2,
        Raw::U16(..) | Raw::Iinc(..) => 3,
        Raw::U32(..) | Raw::InvIf(..) | Raw::InvDyn(..) => 5,
        Raw::Wide(..) | Raw::Multi(..) => 4,
        Raw::WideIinc(..) => 6,
        Raw::Table { pad, offs, .. } => 1 + pad.len() + 12 + 4 * offs.len(),
        Raw::Lookup { pad, pairs, .. } => 1 + pad.len() + 8 + 8 * pairs.len(),
    }
}

pub fn encode(c: &MClass) -> Vec<u8> {
    let mut e = Enc::new();
    e.class(c);
    e.b
}

pub fn encode_sites(c: &MClass) -> (Vec<u8>, Vec<Site>) {
    let mut e = Enc::new();
    e.class(c);
    (e.b, e.sites)
}

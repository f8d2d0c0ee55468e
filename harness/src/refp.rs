//! The reference decoder: class file bytes to model, following JVMS SE 9 chapter 4.

use crate::model::*;
use crate::mutf8;

#[derive(Clone, Debug, PartialEq)]
pub enum RErr {
    Eof,
    NotAClass,
    BadCp(u16),
    BadUtf8,
    BadInsn(u8, u32),
    BadFrame(u8),
    BadVt(u8),
    BadEv(u8),
    BadTarget,
    BadPath,
    /// contents and declared length differ
    Length,
    /// rejected, error kind not determined
    Other,
    /// nested too deeply for this decoder to judge
    Deep,
}

type R<T> = Result<T, RErr>;

pub struct Ok_ {
    pub class: MClass,
    pub consumed: usize,
    pub depth: usize,
}

pub enum Verdict {
    /// must be accepted, with this meaning
    Accept(Box<Ok_>),
    /// must be rejected
    Reject(RErr),
    /// the specification (or the property texts) leave it open
    Open(&'static str),
}

/// nesting that has to be accepted
pub const DEPTH_OK: usize = 32;
const DEPTH_MAX: usize = 400;

struct P<'a> {
    b: &'a [u8],
    pos: usize,
    end: usize,
    open: Option<&'static str>,
    depth: usize,
    max_depth: usize,
}

pub fn decide(b: &[u8]) -> Verdict {
    let mut p = P { b, pos: 0, end: b.len(), open: None, depth: 0, max_depth: 0 };
    match p.class() {
        Err(RErr::Deep) => Verdict::Open("deep"),
        Err(e) => {
            if p.max_depth > DEPTH_OK {
                Verdict::Open("deep")
            } else {
                Verdict::Reject(e)
            }
        }
        Ok(class) => {
            if p.max_depth > DEPTH_OK {
                Verdict::Open("deep")
            } else if let Some(o) = p.open {
                Verdict::Open(o)
            } else {
                Verdict::Accept(Box::new(Ok_ { class, consumed: p.pos, depth: p.max_depth }))
            }
        }
    }
}

impl<'a> P<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.end - self.pos {
            return Err(RErr::Eof);
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u1(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn u2(&mut self) -> R<u16> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u4(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn i4(&mut self) -> R<i32> {
        Ok(self.u4()? as i32)
    }
    fn n<T>(&mut self, count: usize, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = Vec::new();
        for _ in 0..count {
            v.push(f(self)?);
        }
        Ok(v)
    }
    fn n2<T>(&mut self, f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let c = self.u2()? as usize;
        self.n(c, f)
    }
    fn n1<T>(&mut self, f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let c = self.u1()? as usize;
        self.n(c, f)
    }
    fn a<const N: usize>(&mut self) -> R<[u16; N]> {
        let mut r = [0; N];
        for x in &mut r {
            *x = self.u2()?;
        }
        Ok(r)
    }
    fn down(&mut self) -> R<()> {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        if self.depth > DEPTH_MAX {
            return Err(RErr::Deep);
        }
        Ok(())
    }
    fn up(&mut self) {
        self.depth -= 1;
    }

    fn class(&mut self) -> R<MClass> {
        if self.u4()? != 0xCAFE_BABE {
            return Err(RErr::NotAClass);
        }
        let minor = self.u2()?;
        let major = self.u2()?;
        let pool = self.pool()?;
        let flags = self.u2()?;
        let name = self.u2()?;
        let super_name = self.u2()?;
        let interfaces = self.n2(|p| p.u2())?;
        let fields = self.members(&pool)?;
        let methods = self.members(&pool)?;
        let attrs = self.attrs(&pool)?;
        Ok(MClass { minor, major, pool, flags, name, super_name, interfaces, fields, methods, attrs })
    }

    fn pool(&mut self) -> R<MPool> {
        let count = self.u2()? as usize;
        if count == 0 {
            self.open = Some("constant_pool_count 0");
        }
        let mut slots = vec![None];
        while slots.len() < count {
            let i = slots.len() as u16;
            let c = match self.u1()? {
                1 => {
                    let n = self.u2()? as usize;
                    let b = self.take(n)?;
                    match mutf8::decode(b) {
                        mutf8::Dec::Ok(_) => {}
                        mutf8::Dec::Overlong(_) => self.open = Some("overlong utf8"),
                        mutf8::Dec::Bad => return Err(RErr::BadUtf8),
                    }
                    Const::Utf8(b.to_vec())
                }
                3 => Const::Int(self.u4()?),
                4 => Const::Float(self.u4()?),
                t @ (5 | 6) => {
                    let h = u64::from(self.u4()?);
                    let v = h << 32 | u64::from(self.u4()?);
                    if t == 5 {
                        Const::Long(v)
                    } else {
                        Const::Double(v)
                    }
                }
                7 => Const::Class(self.u2()?),
                8 => Const::Str(self.u2()?),
                9 => Const::Field(self.u2()?, self.u2()?),
                10 => Const::Method(self.u2()?, self.u2()?),
                11 => Const::IMethod(self.u2()?, self.u2()?),
                12 => Const::NameType(self.u2()?, self.u2()?),
                15 => {
                    let k = self.u1()?;
                    if !(1..=9).contains(&k) {
                        return Err(RErr::BadCp(i));
                    }
                    Const::Handle(k, self.u2()?)
                }
                16 => Const::MType(self.u2()?),
                17 => {
                    self.open = Some("constant tag 17");
                    Const::Dynamic(self.u2()?, self.u2()?)
                }
                18 => Const::InvDyn(self.u2()?, self.u2()?),
                19 => Const::Module(self.u2()?),
                20 => Const::Package(self.u2()?),
                _ => return Err(RErr::BadCp(i)),
            };
            let w = c.wide();
            slots.push(Some(c));
            if w {
                if slots.len() >= count {
                    return Err(RErr::Other);
                }
                slots.push(None);
            }
        }
        Ok(MPool { slots })
    }

    fn members(&mut self, pool: &MPool) -> R<Vec<MMember>> {
        self.n2(|p| Ok(MMember { flags: p.u2()?, name: p.u2()?, desc: p.u2()?, attrs: p.attrs(pool)? }))
    }

    fn attrs(&mut self, pool: &MPool) -> R<Vec<MAttr>> {
        self.n2(|p| p.attr(pool))
    }

    fn attr(&mut self, pool: &MPool) -> R<MAttr> {
        let name = self.u2()?;
        let text = pool.text(name).ok_or(RErr::BadCp(name))?;
        let len = self.u4()? as usize;
        if len > self.end - self.pos {
            return Err(RErr::Eof);
        }
        let outer = self.end;
        self.end = self.pos + len;
        let body = self.body(&text, pool)?;
        if self.pos != self.end {
            return Err(RErr::Length);
        }
        self.end = outer;
        Ok(MAttr { name, body })
    }

    fn body(&mut self, name: &str, pool: &MPool) -> R<MBody> {
        use MBody::*;
        Ok(match name {
            "AnnotationDefault" => AnnotationDefault(self.ev()?),
            "BootstrapMethods" => Bootstrap(self.n2(|p| Ok((p.u2()?, p.n2(|p| p.u2())?)))?),
            "Code" => Code(Box::new(self.code(pool)?)),
            "ConstantValue" => ConstantValue(self.u2()?),
            "Deprecated" => Deprecated,
            "EnclosingMethod" => EnclosingMethod(self.u2()?, self.u2()?),
            "Exceptions" => Exceptions(self.n2(|p| p.u2())?),
            "InnerClasses" => InnerClasses(self.n2(|p| p.a())?),
            "LineNumberTable" => LineNumbers(self.n2(|p| p.a())?),
            "LocalVariableTable" => Lvt(self.n2(|p| p.a())?),
            "LocalVariableTypeTable" => Lvtt(self.n2(|p| p.a())?),
            "MethodParameters" => MethodParams(self.n1(|p| p.a())?),
            "Module" => {
                let flagged = |p: &mut Self| Ok(MFlagged { index: p.u2()?, flags: p.u2()?, to: p.n2(|p| p.u2())? });
                Module(Box::new(MModule {
                    name: self.u2()?,
                    flags: self.u2()?,
                    version: self.u2()?,
                    requires: self.n2(|p| p.a())?,
                    exports: self.n2(flagged)?,
                    opens: self.n2(flagged)?,
                    uses: self.n2(|p| p.u2())?,
                    provides: self.n2(|p| Ok((p.u2()?, p.n2(|p| p.u2())?)))?,
                }))
            }
            "ModuleMainClass" => ModuleMain(self.u2()?),
            "ModulePackages" => ModulePackages(self.n2(|p| p.u2())?),
            "RuntimeVisibleAnnotations" => Anns(true, self.anns()?),
            "RuntimeInvisibleAnnotations" => Anns(false, self.anns()?),
            "RuntimeVisibleParameterAnnotations" => ParamAnns(true, self.n1(|p| p.anns())?),
            "RuntimeInvisibleParameterAnnotations" => ParamAnns(false, self.n1(|p| p.anns())?),
            "RuntimeVisibleTypeAnnotations" => TypeAnns(true, self.n2(|p| p.type_ann())?),
            "RuntimeInvisibleTypeAnnotations" => TypeAnns(false, self.n2(|p| p.type_ann())?),
            "Signature" => Signature(self.u2()?),
            "Synthetic" => Synthetic,
            "SourceFile" => SourceFile(self.u2()?),
            "SourceDebugExtension" => {
                let b = self.take(self.end - self.pos)?;
                match mutf8::decode(b) {
                    mutf8::Dec::Ok(_) => {}
                    mutf8::Dec::Overlong(_) => self.open = Some("overlong utf8"),
                    mutf8::Dec::Bad => return Err(RErr::BadUtf8),
                }
                SourceDebug(b.to_vec())
            }
            "StackMapTable" => StackMap(self.n2(|p| p.frame())?),
            _ => Unknown(self.take(self.end - self.pos)?.to_vec()),
        })
    }

    fn anns(&mut self) -> R<Vec<MAnn>> {
        self.n2(|p| p.ann())
    }

    fn ann(&mut self) -> R<MAnn> {
        Ok(MAnn { ty: self.u2()?, pairs: self.n2(|p| Ok((p.u2()?, p.ev()?)))? })
    }

    fn ev(&mut self) -> R<MEv> {
        let t = self.u1()?;
        Ok(match t {
            b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' | b's' | b'c' => MEv::Idx(t, self.u2()?),
            b'e' => MEv::Enum(self.u2()?, self.u2()?),
            b'@' => {
                self.down()?;
                let a = self.ann()?;
                self.up();
                MEv::Ann(Box::new(a))
            }
            b'[' => {
                self.down()?;
                let v = self.n2(|p| p.ev())?;
                self.up();
                MEv::Arr(v)
            }
            _ => return Err(RErr::BadEv(t)),
        })
    }

    fn type_ann(&mut self) -> R<MTypeAnn> {
        let target = self.u1()?;
        let info = match target_kind(target) {
            TKind::Empty => TInfo::Empty,
            TKind::U8 => TInfo::U8(self.u1()?),
            TKind::U16 => TInfo::U16(self.u2()?),
            TKind::U8U8 => TInfo::U8U8(self.u1()?, self.u1()?),
            TKind::U16U8 => TInfo::U16U8(self.u2()?, self.u1()?),
            TKind::Vars => TInfo::Vars(self.n2(|p| p.a())?),
            TKind::Undefined => return Err(RErr::BadTarget),
        };
        let path = self.n1(|p| {
            let k = p.u1()?;
            if k > 3 {
                return Err(RErr::BadPath);
            }
            Ok((k, p.u1()?))
        })?;
        Ok(MTypeAnn { target, info, path, ann: self.ann()? })
    }

    fn vt(&mut self) -> R<MVt> {
        let t = self.u1()?;
        match t {
            0..=6 => Ok(MVt(t, 0)),
            7 | 8 => Ok(MVt(t, self.u2()?)),
            _ => Err(RErr::BadVt(t)),
        }
    }

    fn frame(&mut self) -> R<MFrame> {
        let tag = self.u1()?;
        let mut f = MFrame { tag, delta: 0, locals: vec![], stack: vec![] };
        match tag {
            0..=63 => f.delta = u16::from(tag),
            64..=127 => {
                f.delta = u16::from(tag) - 64;
                f.stack = vec![self.vt()?];
            }
            128..=246 => return Err(RErr::BadFrame(tag)),
            _ => {
                f.delta = self.u2()?;
                match tag {
                    247 => f.stack = vec![self.vt()?],
                    252..=254 => f.locals = self.n(tag as usize - 251, |p| p.vt())?,
                    255 => {
                        f.locals = self.n2(|p| p.vt())?;
                        f.stack = self.n2(|p| p.vt())?;
                    }
                    _ => {}
                }
            }
        }
        Ok(f)
    }

    fn code(&mut self, pool: &MPool) -> R<MCode> {
        let max_stack = self.u2()?;
        let max_locals = self.u2()?;
        let len = self.u4()? as usize;
        if len > self.end - self.pos {
            return Err(RErr::Eof);
        }
        if len == 0 {
            return Err(RErr::Other);
        }
        if len > 65535 {
            self.open = Some("code longer than 65535 bytes");
        }
        let outer = self.end;
        let start = self.pos;
        self.end = start + len;
        let mut insns = Vec::new();
        while self.pos < self.end {
            let at = (self.pos - start) as u32;
            insns.push(MInsn { at, i: self.insn(start)? });
        }
        self.end = outer;
        let exc = self.n2(|p| p.a())?;
        self.down()?;
        let attrs = self.attrs(pool)?;
        self.up();
        Ok(MCode { max_stack, max_locals, insns, exc, attrs })
    }

    fn insn(&mut self, start: usize) -> R<Raw> {
        let at = self.pos - start;
        let op = self.u1()?;
        let pad = |p: &mut Self| -> R<Vec<u8>> {
            let mut v = vec![];
            while (p.pos - start) % 4 != 0 {
                v.push(p.u1()?);
            }
            Ok(v)
        };
        Ok(match op_kind(op) {
            OpKind::None => Raw::None(op),
            OpKind::U8 => Raw::U8(op, self.u1()?),
            OpKind::U16 => Raw::U16(op, self.u2()?),
            OpKind::U32 => Raw::U32(op, self.u4()?),
            OpKind::Iinc => Raw::Iinc(self.u1()?, self.u1()?),
            OpKind::NewArray => {
                let t = self.u1()?;
                if !(4..=11).contains(&t) {
                    return Err(RErr::BadInsn(0xBC, at as u32));
                }
                Raw::U8(op, t)
            }
            OpKind::InvIf => {
                let r = Raw::InvIf(self.u2()?, self.u1()?, self.u1()?);
                if !matches!(r, Raw::InvIf(_, _, 0)) {
                    self.open = Some("invokeinterface operand not 0");
                }
                r
            }
            OpKind::InvDyn => {
                let r = Raw::InvDyn(self.u2()?, self.u2()?);
                if !matches!(r, Raw::InvDyn(_, 0)) {
                    self.open = Some("invokedynamic operand not 0");
                }
                r
            }
            OpKind::Multi => Raw::Multi(self.u2()?, self.u1()?),
            OpKind::Wide => {
                let o = self.u1()?;
                if !WIDE_OPS.contains(&o) {
                    return Err(RErr::BadInsn(0xC4, at as u32));
                }
                if o == 0x84 {
                    Raw::WideIinc(self.u2()?, self.u2()?)
                } else {
                    Raw::Wide(o, self.u2()?)
                }
            }
            OpKind::Table => {
                let pad = pad(self)?;
                let default = self.i4()?;
                let low = self.i4()?;
                let high = self.i4()?;
                if low > high {
                    return Err(RErr::Other);
                }
                let n = (i64::from(high) - i64::from(low) + 1) as u64;
                if n * 4 > (self.end - self.pos) as u64 {
                    return Err(RErr::Eof);
                }
                let n = n as usize;
                Raw::Table { pad, default, low, high, offs: self.n(n, |p| p.i4())? }
            }
            OpKind::Lookup => {
                let pad = pad(self)?;
                let default = self.i4()?;
                let n = u64::from(self.u4()?);
                if n * 8 > (self.end - self.pos) as u64 {
                    return Err(RErr::Eof);
                }
                let n = n as usize;
                let pairs = self.n(n, |p| Ok((p.i4()?, p.i4()?)))?;
                if !pairs.windows(2).all(|w| w[0].0 < w[1].0) {
                    self.open = Some("lookupswitch not sorted");
                }
                Raw::Lookup { pad, default, pairs }
            }
            OpKind::Undefined => return Err(RErr::BadInsn(op, at as u32)),
        })
    }
}

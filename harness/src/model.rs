//! The reference model of a class file (JVMS SE 9, chapter 4), independent of jbcrs.

#[derive(Clone, Debug, PartialEq)]
pub enum Const {
    Utf8(Vec<u8>), // the encoded bytes
    Int(u32),
    Float(u32),
    Long(u64),
    Double(u64),
    Class(u16),
    Str(u16),
    Field(u16, u16),
    Method(u16, u16),
    IMethod(u16, u16),
    NameType(u16, u16),
    Handle(u8, u16),
    MType(u16),
    InvDyn(u16, u16),
    Module(u16),
    Package(u16),
    /// tag 17, Java 11: outside of the specification this library implements
    Dynamic(u16, u16),
}

impl Const {
    pub fn wide(&self) -> bool {
        matches!(self, Const::Long(_) | Const::Double(_))
    }
    pub fn tag(&self) -> u8 {
        use Const::*;
        match self {
            Utf8(_) => 1,
            Int(_) => 3,
            Float(_) => 4,
            Long(_) => 5,
            Double(_) => 6,
            Class(_) => 7,
            Str(_) => 8,
            Field(..) => 9,
            Method(..) => 10,
            IMethod(..) => 11,
            NameType(..) => 12,
            Handle(..) => 15,
            MType(_) => 16,
            Dynamic(..) => 17,
            InvDyn(..) => 18,
            Module(_) => 19,
            Package(_) => 20,
        }
    }
}

pub const TAGS: [u8; 16] = [1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20];

/// slots[i] is constant pool index i; slot 0 and second halves are None
#[derive(Clone, Debug, PartialEq)]
pub struct MPool {
    pub slots: Vec<Option<Const>>,
}

impl MPool {
    pub fn new() -> MPool {
        MPool { slots: vec![None] }
    }
    /// the encoded constant_pool_count
    pub fn count(&self) -> usize {
        self.slots.len()
    }
    pub fn room(&self) -> usize {
        65535 - self.slots.len()
    }
    /// adds a constant without looking for an equal one
    pub fn add(&mut self, c: Const) -> u16 {
        let i = self.slots.len();
        let w = c.wide();
        assert!(i + usize::from(w) < 65535, "model pool overflow");
        self.slots.push(Some(c));
        if w {
            self.slots.push(None);
        }
        i as u16
    }
    pub fn utf8(&mut self, s: &str) -> u16 {
        self.add(Const::Utf8(crate::mutf8::encode(s)))
    }
    pub fn get(&self, i: u16) -> Option<&Const> {
        self.slots.get(i as usize).and_then(|x| x.as_ref())
    }
    /// the text of a UTF-8 constant with a specified meaning
    pub fn text(&self, i: u16) -> Option<String> {
        match self.get(i) {
            Some(Const::Utf8(b)) => match crate::mutf8::decode(b) {
                crate::mutf8::Dec::Ok(s) | crate::mutf8::Dec::Overlong(s) => Some(s),
                crate::mutf8::Dec::Bad => None,
            },
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MClass {
    pub minor: u16,
    pub major: u16,
    pub pool: MPool,
    pub flags: u16,
    pub name: u16,
    pub super_name: u16,
    pub interfaces: Vec<u16>,
    pub fields: Vec<MMember>,
    pub methods: Vec<MMember>,
    pub attrs: Vec<MAttr>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MMember {
    pub flags: u16,
    pub name: u16,
    pub desc: u16,
    pub attrs: Vec<MAttr>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MAttr {
    pub name: u16,
    pub body: MBody,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MFlagged {
    pub index: u16,
    pub flags: u16,
    pub to: Vec<u16>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MModule {
    pub name: u16,
    pub flags: u16,
    pub version: u16,
    pub requires: Vec<[u16; 3]>,
    pub exports: Vec<MFlagged>,
    pub opens: Vec<MFlagged>,
    pub uses: Vec<u16>,
    pub provides: Vec<(u16, Vec<u16>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MBody {
    AnnotationDefault(MEv),
    Bootstrap(Vec<(u16, Vec<u16>)>),
    Code(Box<MCode>),
    ConstantValue(u16),
    Deprecated,
    EnclosingMethod(u16, u16),
    Exceptions(Vec<u16>),
    InnerClasses(Vec<[u16; 4]>),
    LineNumbers(Vec<[u16; 2]>),
    Lvt(Vec<[u16; 5]>),
    Lvtt(Vec<[u16; 5]>),
    MethodParams(Vec<[u16; 2]>),
    Module(Box<MModule>),
    ModuleMain(u16),
    ModulePackages(Vec<u16>),
    Anns(bool, Vec<MAnn>),
    ParamAnns(bool, Vec<Vec<MAnn>>),
    TypeAnns(bool, Vec<MTypeAnn>),
    Signature(u16),
    Synthetic,
    SourceFile(u16),
    SourceDebug(Vec<u8>),
    StackMap(Vec<MFrame>),
    Unknown(Vec<u8>),
}

/// JVMS SE 9 table 4.7-A
pub const ATTR_NAMES: [&str; 26] = [
    "AnnotationDefault",
    "BootstrapMethods",
    "Code",
    "ConstantValue",
    "Deprecated",
    "EnclosingMethod",
    "Exceptions",
    "InnerClasses",
    "LineNumberTable",
    "LocalVariableTable",
    "LocalVariableTypeTable",
    "MethodParameters",
    "Module",
    "ModuleMainClass",
    "ModulePackages",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
    "Signature",
    "Synthetic",
    "SourceFile",
    "SourceDebugExtension",
    "StackMapTable",
];

impl MBody {
    pub fn kind(&self) -> &'static str {
        use MBody::*;
        match self {
            AnnotationDefault(_) => "AnnotationDefault",
            Bootstrap(_) => "BootstrapMethods",
            Code(_) => "Code",
            ConstantValue(_) => "ConstantValue",
            Deprecated => "Deprecated",
            EnclosingMethod(..) => "EnclosingMethod",
            Exceptions(_) => "Exceptions",
            InnerClasses(_) => "InnerClasses",
            LineNumbers(_) => "LineNumberTable",
            Lvt(_) => "LocalVariableTable",
            Lvtt(_) => "LocalVariableTypeTable",
            MethodParams(_) => "MethodParameters",
            Module(_) => "Module",
            ModuleMain(_) => "ModuleMainClass",
            ModulePackages(_) => "ModulePackages",
            Anns(true, _) => "RuntimeVisibleAnnotations",
            Anns(false, _) => "RuntimeInvisibleAnnotations",
            ParamAnns(true, _) => "RuntimeVisibleParameterAnnotations",
            ParamAnns(false, _) => "RuntimeInvisibleParameterAnnotations",
            TypeAnns(true, _) => "RuntimeVisibleTypeAnnotations",
            TypeAnns(false, _) => "RuntimeInvisibleTypeAnnotations",
            Signature(_) => "Signature",
            Synthetic => "Synthetic",
            SourceFile(_) => "SourceFile",
            SourceDebug(_) => "SourceDebugExtension",
            StackMap(_) => "StackMapTable",
            Unknown(_) => "(unknown)",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MCode {
    pub max_stack: u16,
    pub max_locals: u16,
    pub insns: Vec<MInsn>,
    pub exc: Vec<[u16; 4]>,
    pub attrs: Vec<MAttr>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MInsn {
    pub at: u32,
    pub i: Raw,
}

/// An instruction as encoded
#[derive(Clone, Debug, PartialEq)]
pub enum Raw {
    None(u8),
    U8(u8, u8),
    U16(u8, u16),
    U32(u8, u32),
    Iinc(u8, u8),
    Wide(u8, u16),
    WideIinc(u16, u16),
    /// index, count, fourth operand byte
    InvIf(u16, u8, u8),
    /// index, third and fourth operand byte
    InvDyn(u16, u16),
    Multi(u16, u8),
    Table { pad: Vec<u8>, default: i32, low: i32, high: i32, offs: Vec<i32> },
    Lookup { pad: Vec<u8>, default: i32, pairs: Vec<(i32, i32)> },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpKind {
    None,
    /// one operand byte
    U8,
    /// two operand bytes
    U16,
    /// four operand bytes
    U32,
    Iinc,
    Table,
    Lookup,
    InvIf,
    InvDyn,
    NewArray,
    Wide,
    Multi,
    Undefined,
}

/// operand layout of every opcode, JVMS chapter 6
pub fn op_kind(op: u8) -> OpKind {
    use OpKind::*;
    match op {
        0x00..=0x0F => None,
        0x10 => U8,
        0x11 => U16,
        0x12 => U8,
        0x13 | 0x14 => U16,
        0x15..=0x19 => U8,
        0x1A..=0x35 => None,
        0x36..=0x3A => U8,
        0x3B..=0x83 => None,
        0x84 => Iinc,
        0x85..=0x98 => None,
        0x99..=0xA8 => U16,
        0xA9 => U8,
        0xAA => Table,
        0xAB => Lookup,
        0xAC..=0xB1 => None,
        0xB2..=0xB8 => U16,
        0xB9 => InvIf,
        0xBA => InvDyn,
        0xBB => U16,
        0xBC => NewArray,
        0xBD => U16,
        0xBE | 0xBF => None,
        0xC0 | 0xC1 => U16,
        0xC2 | 0xC3 => None,
        0xC4 => Wide,
        0xC5 => Multi,
        0xC6 | 0xC7 => U16,
        0xC8 | 0xC9 => U32,
        0xCA => None,
        0xCB..=0xFD => Undefined,
        0xFE | 0xFF => None,
    }
}

/// opcodes that may follow a wide prefix
pub const WIDE_OPS: [u8; 12] = [0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A, 0xA9, 0x84];

#[derive(Clone, Debug, PartialEq)]
pub struct MFrame {
    pub tag: u8,
    pub delta: u16,
    pub locals: Vec<MVt>,
    pub stack: Vec<MVt>,
}

/// verification type: tag and operand (0 if it has none)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct MVt(pub u8, pub u16);

#[derive(Clone, Debug, PartialEq)]
pub struct MAnn {
    pub ty: u16,
    pub pairs: Vec<(u16, MEv)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MEv {
    /// B C D F I J S Z s c
    Idx(u8, u16),
    Enum(u16, u16),
    Ann(Box<MAnn>),
    Arr(Vec<MEv>),
}

pub const EV_IDX_TAGS: [u8; 10] = *b"BCDFIJSZsc";

#[derive(Clone, Debug, PartialEq)]
pub struct MTypeAnn {
    pub target: u8,
    pub info: TInfo,
    pub path: Vec<(u8, u8)>,
    pub ann: MAnn,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TInfo {
    Empty,
    U8(u8),
    U16(u16),
    U8U8(u8, u8),
    U16U8(u16, u8),
    Vars(Vec<[u16; 3]>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TKind {
    Empty,
    U8,
    U16,
    U8U8,
    U16U8,
    Vars,
    Undefined,
}

/// JVMS tables 4.7.20-A and -B
pub fn target_kind(t: u8) -> TKind {
    match t {
        0x00 | 0x01 => TKind::U8,
        0x10 => TKind::U16,
        0x11 | 0x12 => TKind::U8U8,
        0x13 | 0x14 | 0x15 => TKind::Empty,
        0x16 => TKind::U8,
        0x17 => TKind::U16,
        0x40 | 0x41 => TKind::Vars,
        0x42 | 0x43 | 0x44 | 0x45 | 0x46 => TKind::U16,
        0x47..=0x4B => TKind::U16U8,
        _ => TKind::Undefined,
    }
}

pub const TARGETS: [u8; 22] = [
    0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x4B,
];

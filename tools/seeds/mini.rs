// a small class file writer
#![allow(dead_code)]
extern crate jbcrs;
pub use jbcrs::basic::*;
pub use jbcrs::*;

pub fn u2(x: usize) -> Vec<u8> { vec![(x >> 8) as u8, x as u8] }
pub fn u4(x: usize) -> Vec<u8> { vec![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
/// bytes of all parts
pub fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
/// many u16
pub fn us(v: &[usize]) -> Vec<u8> { v.iter().flat_map(|x| u2(*x)).collect() }

#[derive(Default, Clone)]
pub struct File {
    pub flags: usize,
    pub name: usize,
    pub sup: usize,
    pub cp: Vec<u8>,
    pub n: usize,
    pub interfaces: Vec<usize>,
    pub fields: Vec<Vec<u8>>,
    pub methods: Vec<Vec<u8>>,
    pub attrs: Vec<Vec<u8>>,
}

impl File {
    pub fn item(&mut self, bytes: &[u8]) -> usize {
        self.cp.extend(bytes);
        self.n += 1;
        let i = self.n;
        if bytes[0] == 5 || bytes[0] == 6 {
            self.n += 1;
        }
        i
    }
    pub fn raw(&mut self, s: &[u8]) -> usize { let b = cat(&[&[1], &u2(s.len()), s]); self.item(&b) }
    pub fn utf8(&mut self, s: &str) -> usize { self.raw(s.as_bytes()) }
    pub fn attr(&mut self, name: &str, body: &[u8]) -> Vec<u8> {
        let n = self.utf8(name);
        cat(&[&u2(n), &u4(body.len()), body])
    }
    /// adds an attribute to the class
    pub fn class_attr(&mut self, name: &str, body: &[u8]) { let a = self.attr(name, body); self.attrs.push(a) }
    /// adds a method with these attributes
    pub fn method(&mut self, attrs: &[Vec<u8>]) {
        self.methods.push(cat(&[&us(&[0, 0, 0, attrs.len()]), &attrs.concat()]))
    }
    pub fn field(&mut self, flags: usize, attrs: &[Vec<u8>]) {
        self.fields.push(cat(&[&us(&[flags, 0, 0, attrs.len()]), &attrs.concat()]))
    }
    /// a Code attribute
    pub fn code(&mut self, code: &[u8], exceptions: &[[usize; 4]], attrs: &[Vec<u8>]) -> Vec<u8> {
        let ex: Vec<u8> = exceptions.iter().flat_map(|e| us(e)).collect();
        let b = cat(&[&us(&[2, 3]), &u4(code.len()), code, &u2(exceptions.len()), &ex, &u2(attrs.len()), &attrs.concat()]);
        self.attr("Code", &b)
    }
    pub fn bytes(&self) -> Vec<u8> {
        cat(&[&[0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53], &u2(self.n + 1), &self.cp, &us(&[self.flags, self.name, self.sup, self.interfaces.len()]), &us(&self.interfaces),
              &u2(self.fields.len()), &self.fields.concat(), &u2(self.methods.len()), &self.methods.concat(), &u2(self.attrs.len()), &self.attrs.concat()])
    }
    pub fn parse(&self) -> (Pool, Class) { parse(&self.bytes()).expect("valid") }
}
pub fn code_of(c: &Class) -> &Attribute { &c.methods[0].attributes[0] }
pub fn instructions(c: &Class) -> Vec<(u32, String)> {
    match *code_of(c) {
        Attribute::Code { ref instructions, .. } => { let mut v: Vec<_> = instructions.iter().map(|(k, i)| (*k, format!("{:?}", i))).collect(); v.sort(); v }
        _ => panic!("no code"),
    }
}
/// what the error looks like; None if there is none
pub fn error(b: &[u8]) -> Option<String> { parse(b).err().map(|e| format!("{:?}", e)) }

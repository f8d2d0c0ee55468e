P = 'src/basic/parser/'
BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug('handle-kind-zero', 'C01', P + 'mod.rs', [("""                let kind = match decoder.read_u8()? {
                    1 => ReferenceKind::GetField,
                    2 => ReferenceKind::GetStatic,
                    3 => ReferenceKind::PutField,
                    4 => ReferenceKind::PutStatic,
                    5 => ReferenceKind::InvokeVirtual,
                    6 => ReferenceKind::InvokeStatic,
                    7 => ReferenceKind::InvokeSpecial,
                    8 => ReferenceKind::NewInvokeSpecial,
                    9 => ReferenceKind::InvokeInterface,

                    _ => return Err(Error::InvalidCPItem(index)),
                };
""", """                const KINDS: [ReferenceKind; 9] = [
                    ReferenceKind::GetField,
                    ReferenceKind::GetStatic,
                    ReferenceKind::PutField,
                    ReferenceKind::PutStatic,
                    ReferenceKind::InvokeVirtual,
                    ReferenceKind::InvokeStatic,
                    ReferenceKind::InvokeSpecial,
                    ReferenceKind::NewInvokeSpecial,
                    ReferenceKind::InvokeInterface,
                ];
                let kind = decoder.read_u8()? as usize;
                if kind > KINDS.len() {
                    return Err(Error::InvalidCPItem(index));
                }
                let kind = KINDS[kind - 1].clone();
""")], """
fn main() {
    let mut f = File::default();
    f.item(&[15, 10, 0, 1]);
    assert!(parse(&f.bytes()).is_err());
    let mut f = File::default();
    f.item(&[15, 0, 0, 1]);
    assert!(parse(&f.bytes()).is_err());
}
""", 'a method handle constant whose kind byte is 0', 'parsing panics instead of returning an error')

bug('limit-in-u32', 'C01', P + 'decode.rs', [("""        if location <= self.limit {""", """        // attribute and code lengths are 32 bits long
        if location as u32 <= self.limit as u32 {""")], """
fn main() {
    let mut f = File::default();
    let n = f.utf8("x");
    f.attrs.push(cat(&[&u2(n), &u4(0xFFFF_FFF0), &[1, 2, 3]]));
    assert!(parse(&f.bytes()).is_err());
}
""", 'an attribute or code length close to 2^32', 'the comparison wraps around: a panic instead of an error')

bug('limit-forgets-depth', 'C02', P + 'decode.rs', [("""        Ok(Decoder {
            bytes: self.bytes,
            cursor: self.cursor,
            limit: end,
            depth: self.depth,
        })
""", """        let mut limited = Decoder::new(self.bytes, self.cursor);
        limited.limit = end;
        Ok(limited)
""")], """
fn main() {
    // Code attributes inside of each other, built from the inside
    let mut f = File::default();
    let n = f.utf8("Code");
    let mut body: Vec<u8> = vec![];
    for k in 0..20_000 {
        let attrs = if k == 0 { u2(0) } else { cat(&[&u2(1), &u2(n), &u4(body.len()), &body]) };
        // cheap enough: the lengths have to be right, so the whole is quadratic
        body = cat(&[&us(&[1, 1]), &u4(1), &[0xB1], &u2(0), &attrs]);
    }
    f.method(&[cat(&[&u2(n), &u4(body.len()), &body])]);
    let b = f.bytes();
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || drop(parse(&b))).unwrap().join().unwrap();
}
""", 'Code attributes nested thousands of levels deep', 'the limit on nesting is not passed on to limited decoders, so that nested codes overflow the stack')

bug('depth-counted-twice', 'C02', P + 'annotation.rs', [("""        let name_index = decoder.read_u16()?;
        element_value_pairs.push((name_index, parse_element_value(decoder)?));
""", """        let name_index = decoder.read_u16()?;
        decoder.enter()?;
        let value = parse_element_value(decoder)?;
        decoder.leave();
        element_value_pairs.push((name_index, value));
""")], """
fn main() {
    // 32 annotations inside of each other
    let mut v = vec![b'I', 0, 1];
    for _ in 0..32 {
        v = cat(&[b"@", &us(&[1, 1, 7]), &v]);
    }
    let mut f = File::default();
    f.class_attr("RuntimeVisibleAnnotations", &cat(&[&us(&[1, 1, 1, 7]), &v]));
    f.parse();
}
""", 'annotations nested 32 levels deep', 'every level counts twice, so that nesting that is promised to work is rejected')

bug('big-map-per-code', 'C03', P + 'code.rs', [("    let mut instructions = HashMap::new();", "    let mut instructions = HashMap::with_capacity(1024);")], """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = LIVE.fetch_add(l.size(), SeqCst) + l.size(); PEAK.fetch_max(n, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = File::default();
    let n = f.utf8("Code");
    for _ in 0..3000 {
        let body = cat(&[&us(&[1, 1]), &u4(1), &[0xB1], &us(&[0, 0])]);
        f.method(&[cat(&[&u2(n), &u4(body.len()), &body])]);
    }
    let b = f.bytes();
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    let r = parse(&b).unwrap();
    let used = PEAK.load(SeqCst) - before;
    drop(r);
    assert!(used < (32 << 20) + 512 * b.len(), "{} bytes for {}", used, b.len());
}
""", 'a class with very many tiny methods', 'every code reserves room for 1024 instructions, so that memory exceeds the bound by far')

bug('kept-buffer', 'C03', P + 'decode.rs', [("""        let mut out = String::with_capacity(length);
""", """        // one buffer for all strings, which are made as small as possible in the end
        thread_local!(static BUFFER: ::std::cell::RefCell<String> = ::std::cell::RefCell::new(String::new()));
        let mut out = BUFFER.with(|b| ::std::mem::replace(&mut *b.borrow_mut(), String::new()));
        out.reserve(length);
"""), ("""            out.push(ch);
        }

        Ok(out)
""", """            out.push(ch);
        }

        let string = out.as_str().to_owned();
        out.clear();
        BUFFER.with(|b| *b.borrow_mut() = out);
        Ok(string)
""")], """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = File::default();
    f.class_attr("SourceDebugExtension", &vec![b'a'; 10]);
    drop(f.parse());
    f.class_attr("SourceDebugExtension", &vec![b'a'; 1_000_000]);
    let b = f.bytes();
    let before = LIVE.load(SeqCst);
    drop(parse(&b).unwrap());
    assert_eq!(before, LIVE.load(SeqCst));
}
""", 'a string longer than any before in the thread', 'memory as large as the longest string stays allocated after the result is dropped')

bug('second-slot-resolves', 'C04', 'src/basic/constpool.rs', [("""            if let Some(ref item) = self.by_index[index as usize - 1] {
                return Ok(item);
            }
""", """            let slots = &self.by_index[..index as usize];
            if let Some(item) = slots.iter().rev().filter_map(|slot| slot.as_ref()).next() {
                return Ok(item);
            }
""")], """
fn main() {
    let mut f = File::default();
    f.item(&[5, 0, 0, 0, 0, 0, 0, 0, 9]);
    f.utf8("x");
    let (p, _) = f.parse();
    assert!(p.get(1).is_ok() && p.get(3).is_ok());
    assert!(p.get(2).is_err());
}
""", 'looking up the second index of a long or double', 'the unusable index resolves to the constant before it')

bug('canonical-nan', 'C04', P + 'decode.rs', [("""        Ok(f64::from_bits(self.read_u64()?))""", """        let value = f64::from_bits(self.read_u64()?);
        // all NaNs are the same to Java
        Ok(if value.is_nan() { ::std::f64::NAN } else { value })""")], """
fn main() {
    let mut f = File::default();
    f.item(&[6, 0x7F, 0xF8, 0, 0, 0, 0, 0, 0]);
    f.item(&[6, 0xFF, 0xF0, 0, 0, 0, 0, 0x12, 0x34]);
    let (p, _) = f.parse();
    match p.get(3) {
        Ok(&Item::Double(d)) => assert_eq!(d.to_bits(), 0xFFF0_0000_0000_1234),
        _ => panic!(),
    }
}
""", 'a double constant that is a NaN with other bits than the usual one', 'the bits of the constant are lost')

bug('surrogate-or', 'C05', P + 'decode.rs', [("""                        0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                            + (r6 & 0x3F)""", """                        0x1_0000 | (r2 & 0x0F) << 16 | (r3 & 0x3F) << 10 | (r5 & 0x0F) << 6
                            | (r6 & 0x3F)""")], """
fn main() {
    // U+1F600 is fine, U+20000 is not
    for (s, want) in vec![(vec![0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80], "\\u{1F600}"), (vec![0xED, 0xA1, 0x80, 0xED, 0xB0, 0x80], "\\u{20000}")] {
        let mut f = File::default();
        let i = f.raw(&s);
        assert_eq!(f.parse().0.get_utf8(i as u16).unwrap(), want);
    }
}
""", 'a character of an even plane (U+20000, U+40000, ...)', 'it is decoded to another character')

bug('raw-nul', 'C05', P + 'decode.rs', [("            let ch = if r1 != 0 && r1 < 0x80 {", "            let ch = if r1 < 0x80 {")], """
fn main() {
    let mut f = File::default();
    f.raw(b"a\\0b");
    assert!(parse(&f.bytes()).is_err());
}
""", 'a string with a zero byte', 'a byte that cannot occur in modified UTF-8 is accepted')

bug('recent-constant', 'C06', 'src/basic/constpool.rs', [("""        if let Some(&index) = self.by_entry.get(&item) {
            return Ok(index);
        }
""", """        // the last constant is pushed again most of the time
        if self.length > 1 {
            if let Some(&Some(ref last)) = self.by_index.last() {
                if **last == item {
                    return Ok(self.by_entry.len() as u16);
                }
            }
        }
        if let Some(&index) = self.by_entry.get(&item) {
            return Ok(index);
        }
""")], """
fn main() {
    let mut p = Pool::new();
    p.push(Item::Integer(1)).unwrap();
    assert_eq!(p.push(Item::Integer(1)).unwrap(), 1);
    p.push(Item::Long(1)).unwrap();
    let a = p.push(Item::Integer(2)).unwrap();
    assert_eq!(p.push(Item::Integer(2)).unwrap(), a);
}
""", 'pushing the newest constant again when a long or double lies before it', 'a wrong index is returned')

bug('nth-counts-slots', 'C08', 'src/basic/constpool.rs', [("""        if let Some(rc_item) = self.iter.next() {
            self.index += 1;
            if let Some(ref item) = *rc_item {
                Some((self.index, item))
            } else {
                self.next()
            }
        } else {
            None
        }
    }
""", """        self.nth(0)
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if let Some(rc_item) = self.iter.nth(n) {
            self.index += n as u16 + 1;
            if let Some(ref item) = *rc_item {
                Some((self.index, item))
            } else {
                self.next()
            }
        } else {
            None
        }
    }
""")], """
fn main() {
    let mut p = Pool::new();
    p.push(Item::Long(1)).unwrap();
    p.push(Item::Long(2)).unwrap();
    p.push(Item::Integer(3)).unwrap();
    let all: Vec<u16> = p.iter().map(|x| x.0).collect();
    assert_eq!(all, [1, 3, 5]);
    let rest: Vec<u16> = p.iter().skip(2).map(|x| x.0).collect();
    assert_eq!(rest, [5]);
}
""", 'skipping in an iteration (skip, nth, step_by) of a pool with longs', 'second slots are counted, so that constants come again or get lost')

bug('index-by-value', 'C08', 'src/basic/constpool.rs', [("""            iter: self.by_index.iter(),
            index: 0,
""", """            iter: self.by_index.iter(),
            indices: &self.by_entry,
"""), ("""    iter: Iter<'a, Option<Rc<Item>>>,
    index: u16,
""", """    iter: Iter<'a, Option<Rc<Item>>>,
    indices: &'a HashMap<Rc<Item>, u16>,
"""), ("""            self.index += 1;
            if let Some(ref item) = *rc_item {
                Some((self.index, item))
            } else {
""", """            if let Some(ref item) = *rc_item {
                Some((self.indices[item], item))
            } else {
""")], """
fn main() {
    let mut f = File::default();
    f.utf8("x");
    f.utf8("y");
    f.utf8("x");
    let all: Vec<u16> = f.parse().0.iter().map(|x| x.0).collect();
    assert_eq!(all, [1, 2, 3]);
}
""", 'iterating over a parsed pool that holds equal constants', 'both come with the index of the first one')

bug('error-names-class', 'C09', 'src/basic/constpool.rs', [("""                Ok(Some(self.get_utf8(utf_index)?))""", """                self.get_utf8(utf_index)
                    .map(Some)
                    .map_err(|_| Error::InvalidCPItem(index))""")], """
fn main() {
    let mut p = Pool::new();
    let i = p.push(Item::Class(77)).unwrap();
    assert_eq!(format!("{:?}", p.get_class_name_opt(i).unwrap_err()), "InvalidCPItem(77)");
}
""", 'an optional class name lookup of a class constant whose name is no string', 'the error names the wrong index')

bug('no-class-at-zero', 'C09', 'src/basic/constpool.rs', [("""        if let Item::Class(utf_index) = *self.get(index)? {
            if utf_index == 0 {""", """        if index == 0 {
            // the super class of java.lang.Object
            return Ok(None);
        }
        if let Item::Class(utf_index) = *self.get(index)? {
            if utf_index == 0 {"""), ("""    pub fn get_class_name_opt(&self, index: u16) -> Result<Option<String>> {
""", """    pub fn get_class_name_opt(&self, index: u16) -> Result<Option<String>> {
        // 0 refers to nothing
""")], """
fn main() {
    let p = Pool::new();
    assert!(p.get_class_name_opt(0).is_err());
    assert!(p.get_class_name_opt(1).is_err());
}
""", 'an optional class name lookup at index 0', 'nothing instead of an error')

bug('nans-are-equal', 'C10', 'src/basic/constpool.rs', [("            (&Item::Double(f1), &Item::Double(f2)) => f1.to_bits() == f2.to_bits(),", """            (&Item::Double(f1), &Item::Double(f2)) => {
                f1.to_bits() == f2.to_bits() || (f1.is_nan() && f2.is_nan())
            }""")], """
fn main() {
    let a = Item::Double(f64::from_bits(0x7FF8_0000_0000_0000));
    let b = Item::Double(f64::from_bits(0x7FF8_0000_0000_0001));
    assert!(a == a.clone() && a != b);
}
""", 'comparing doubles that are different NaNs', 'they are equal, but hash differently')

bug('handles-by-group', 'C10', 'src/basic/constpool.rs', [("""            ) => kind1 == kind2 && index1 == index2,""", """            ) => kind1.is_field() == kind2.is_field() && index1 == index2 && {
                // fields differ by the access, methods by what the index refers to
                !kind1.is_field() && kind1.is_constructor() == kind2.is_constructor() || kind1 == kind2
            },"""), ("""                kind.hash(state);
                index.hash(state);""", """                state.write_u8(kind.is_field() as u8);
                index.hash(state);"""), ("""/// The constant pool found in every java class file.
""", """impl ReferenceKind {
    fn is_field(&self) -> bool {
        match *self {
            ReferenceKind::GetField
            | ReferenceKind::GetStatic
            | ReferenceKind::PutField
            | ReferenceKind::PutStatic => true,
            _ => false,
        }
    }

    fn is_constructor(&self) -> bool {
        *self == ReferenceKind::NewInvokeSpecial
    }
}

/// The constant pool found in every java class file.
""")], """
fn main() {
    let h = |kind| Item::MethodHandle { kind, index: 5 };
    assert!(h(ReferenceKind::GetField) != h(ReferenceKind::PutField));
    assert!(h(ReferenceKind::InvokeStatic) != h(ReferenceKind::InvokeInterface));
}
""", 'method handles of different kinds of invocation of the same index', 'they are equal, so that interning merges them')

bug('equal-interfaces', 'C11', P + 'mod.rs', [("""        interfaces.push(decoder.read_u16()?);
    }
""", """        interfaces.push(decoder.read_u16()?);
    }
    // naming an interface twice changes nothing
    interfaces.dedup();
"""), ("    let mut interfaces = Vec::with_capacity(interface_count as usize);", "    let mut interfaces: Vec<u16> = Vec::with_capacity(interface_count.into());")], """
fn main() {
    let mut f = File::default();
    f.interfaces = vec![3, 4, 4, 4, 3];
    assert_eq!(f.parse().1.interfaces, [3, 4, 4, 4, 3]);
}
""", 'the same interface index twice in a row', 'interfaces are missing')

bug('module-has-no-super', 'C11', P + 'mod.rs', [("""    let super_name = decoder.read_u16()?;

    // Read interfaces""", """    let super_name = match decoder.read_u16()? {
        // a module has no super class, whatever the index
        _ if access_flags.contains(AccessFlags::MODULE) => 0,
        index => index,
    };

    // Read interfaces""")], """
fn main() {
    let mut f = File { flags: 0x8000, sup: 9, ..File::default() };
    f.utf8("x");
    assert_eq!(f.parse().1.super_name, 9);
}
""", 'a class with the module flag and a super class index', 'the index is not passed through')

bug('names-trimmed', 'C12', P + 'mod.rs', [("        let attribute = match name.as_str() {", "        let attribute = match name.trim_right_matches('\\0') {")], """
fn main() {
    let mut f = File::default();
    let n = f.raw(b"Signature\\xC0\\x80");
    f.attrs.push(cat(&[&u2(n), &u4(2), &u2(7)]));
    match f.parse().1.attributes[0] {
        Attribute::Unknown(i, ref b) => assert_eq!((i as usize, &b[..]), (n, &[0, 7][..])),
        ref a => panic!("{:?}", a),
    }
}
""", 'an attribute whose name is a predefined one followed by NULs', 'it is taken for the predefined one')

bug('empty-unknown', 'C12', P + 'mod.rs', [("""                let bytes = attr_decoder.read_bytes(length as usize)?;
                Attribute::Unknown(name_index, bytes.to_vec())""", """                let bytes = attr_decoder.read_bytes(length as usize)?;
                if bytes.is_empty() && attributes.len() > 1 {
                    // a marker nobody knows
                    continue;
                }
                Attribute::Unknown(name_index, bytes.to_vec())""")], """
fn main() {
    let mut f = File::default();
    for n in &["a", "b", "c", "d"] { f.class_attr(n, &[]); }
    assert_eq!(f.parse().1.attributes.len(), 4);
}
""", 'an empty unknown attribute that is not one of the first two of its list', 'it is not reported')

bug('jsr-backwards', 'C13', P + 'code.rs', [("        0xA8 => JSR(i32::from(decoder.read_i16()?)),", "        0xA8 => JSR(i32::from(decoder.read_u16()?)),")], """
fn main() {
    let mut f = File::default();
    let c = f.code(&[0, 0, 0, 0xA8, 0xFF, 0xFD], &[], &[]);
    f.method(&[c]);
    assert_eq!(instructions(&f.parse().1)[3].1, "JSR(-3)");
}
""", 'a short jsr that goes backwards', 'its offset becomes positive')

bug('switch-end', 'C13', P + 'code.rs', [("""                let offset = decoder.read_i32()?;
                offsets.insert(key, offset);""", """                let offset = decoder.read_i32()?;
                // what leads to the default anyway is no case
                if offset != default || key == 0 {
                    offsets.insert(key, offset);
                }""")], """
fn main() {
    let mut f = File::default();
    let sw = cat(&[&[0xAB, 0, 0, 0], &u4(20), &u4(2), &u4(1), &u4(20), &u4(2), &u4(24)]);
    let c = f.code(&sw, &[], &[]);
    f.method(&[c]);
    assert_eq!(instructions(&f.parse().1)[0].1, "LookupSwitch { default: 20, offsets: {1: 20, 2: 24} }");
}
""", 'a lookup switch with a case that goes where the default goes', 'the case is not reported')

bug('empty-ranges', 'C14', P + 'code.rs', [("""        exceptions.push(Exception {
            start,
            end,
            handler,
            catch_type,
        });
""", """        // a handler of nothing is never called
        if start != end {
            exceptions.push(Exception {
                start,
                end,
                handler,
                catch_type,
            });
        }
""")], """
fn main() {
    let mut f = File::default();
    let c = f.code(&[0xB1], &[[0, 1, 2, 3], [1, 1, 2, 3]], &[]);
    f.method(&[c]);
    match *code_of(&f.parse().1) {
        Attribute::Code { ref exceptions, .. } => assert_eq!(exceptions.len(), 2),
        _ => panic!(),
    }
}
""", 'an exception table entry whose range is empty', 'the entry is not reported')

bug('merged-lines', 'C14', P + 'code.rs', [("""    let attributes = parse_attributes(decoder, constant_pool)?;
""", """    let mut attributes: Vec<Attribute> = Vec::new();
    for attribute in parse_attributes(decoder, constant_pool)? {
        // several line number tables are the same as one
        match (attributes.last_mut(), attribute) {
            (
                Some(&mut Attribute::LineNumberTable(ref mut table)),
                Attribute::LineNumberTable(more),
            ) => {
                table.extend(more);
                continue;
            }
            (_, attribute) => attributes.push(attribute),
        }
    }
""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("LineNumberTable", &us(&[1, 0, 5]));
    let b = f.attr("LineNumberTable", &us(&[1, 1, 6]));
    let c = f.code(&[0, 0xB1], &[], &[a, b]);
    f.method(&[c]);
    match *code_of(&f.parse().1) {
        Attribute::Code { ref attributes, .. } => assert_eq!(attributes.len(), 2),
        _ => panic!(),
    }
}
""", 'two line number tables in a row in one code', 'they are reported as one attribute')

bug('last-slot-for-a-long', 'C07', 'src/basic/constpool.rs', [("        let double = item.is_double();\n", "        // there is nothing behind the last one\n        let double = item.is_double() && self.len() + 1 != u16::max_value();\n")], """
fn main() {
    let mut p = Pool::new();
    for i in 0..65533 { p.push(Item::Integer(i)).unwrap(); }
    assert_eq!(p.len(), 65534);
    assert!(p.push(Item::Long(5)).is_err());
}
""", 'a long pushed when one slot is left', 'it is accepted although it does not fit')

bug('index-claimed-first', 'C07', 'src/basic/constpool.rs', [("        let double = item.is_double();\n", """        let next = self.len();
        let claimed = *self.by_entry.entry(Rc::new(item.clone())).or_insert(next);
        let double = claimed <= next && item.is_double();
""")], """
fn main() {
    let mut p = Pool::new();
    for i in 0..65533 { p.push(Item::Integer(i)).unwrap(); }
    assert_eq!(p.len(), 65534);
    assert!(p.push(Item::Long(5)).is_err());
    let a = p.push(Item::Integer(-1)).unwrap();
    assert_eq!(a, 65534);
    match p.push(Item::Long(5)) {
        Ok(i) => panic!("{}", i),
        Err(_) => {}
    }
}
""", 'a long that does not fit, then a constant that does, then the long again', 'the failed push leaves its constant behind, which is found at a foreign index later')

bug('long-strings-not-interned', 'C06', 'src/basic/constpool.rs', [("""        by_index.push(Some(Rc::clone(&rc_item1)));

        let prev_length = *length;
""", """        // hashing these takes too long, and they are hardly ever the same
        let huge = match *rc_item1 {
            Item::UTF8(ref s) => s.len() > 4096,
            _ => false,
        };
        by_index.push(Some(rc_item1));

        let prev_length = *length;
        if huge {
            *length += 1;
            return Ok(prev_length);
        }
""")], """
fn main() {
    let mut p = Pool::new();
    let a = p.push(Item::UTF8("a".repeat(5000))).unwrap();
    let b = p.push(Item::UTF8("a".repeat(5000))).unwrap();
    assert_eq!(a, b);
}
""", 'pushing equal strings of more than 4096 bytes', 'the second one gets another index and the pool grows')

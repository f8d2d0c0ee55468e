P = 'src/basic/parser/'
BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))

# ---- C01
bug('chopped-in-u8', 'C01', P + 'method.rs', [("""    let mut table = Vec::with_capacity(count as usize);

    for _ in 0..count {
        let frame_type = decoder.read_u8()?;""", """    let mut table = Vec::with_capacity(count as usize);
    // how many locals have been chopped so far
    let mut chopped: u8 = 0;

    for _ in 0..count {
        let frame_type = decoder.read_u8()?;"""), ("""            248...250 => StackMapFrame::Chop {
                offset_delta: decoder.read_u16()?,
                count: 251 - frame_type,
            },""", """            248...250 => {
                chopped += 251 - frame_type;
                StackMapFrame::Chop {
                    offset_delta: decoder.read_u16()?,
                    count: 251 - frame_type,
                }
            }"""), ("""    Ok(Attribute::StackMapTable(table))""", """    debug_assert!(chopped == 0 || !table.is_empty());
    Ok(Attribute::StackMapTable(table))""")], """
fn main() {
    let mut f = File::default();
    let mut v = u2(300);
    for _ in 0..300 { v.extend(&[249, 0, 1]); }
    f.class_attr("StackMapTable", &v);
    f.parse();
}
""", 'a stack map table whose chop frames remove more than 255 locals together, in a build with overflow checks', 'parsing panics')

bug('members-in-u16', 'C01', P + 'mod.rs', [("""    let attributes = parse_attributes(&mut decoder, &constant_pool)?;

    let class = Class {""", """    // fields and methods share a table in the VM
    let members = fields.len() as u16 + methods.len() as u16;
    debug_assert!(members as usize <= input.len());
    let attributes = parse_attributes(&mut decoder, &constant_pool)?;

    let class = Class {""")], """
fn main() {
    let mut f = File::default();
    for _ in 0..40_000 { f.field(0, &[]); f.method(&[]); }
    f.parse();
}
""", 'a class with more than 65535 fields and methods together, in a build with overflow checks', 'parsing panics')

bug('handlers-in-u16', 'C01', P + 'code.rs', [("""    let mut exceptions = Vec::with_capacity(exception_count as usize);
    for _ in 0..exception_count {
""", """    let mut exceptions = Vec::with_capacity(exception_count as usize);
    let mut covered: u16 = 0;
    for _ in 0..exception_count {
"""), ("""        let catch_type = decoder.read_u16()?;
""", """        let catch_type = decoder.read_u16()?;
        if catch_type == 0 && end > start {
            // covered by finally
            covered = covered.max(end - start) + u16::from(handler < end);
        }
"""), ("""    Ok(Attribute::Code {
        max_stack,""", """    debug_assert!(covered == 0 || !exceptions.is_empty());
    Ok(Attribute::Code {
        max_stack,""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&[0xB1], &[[0, 65535, 3, 0]], &[]);
    f.method(&[a]);
    f.parse();
}
""", 'an exception handler of any type which covers 0 to 65535 and lies in there, in a build with overflow checks', 'parsing panics')

bug('switch-span', 'C01', P + 'code.rs', [("""            // the count may not fit in an i32, and there may be less offsets than promised
            let mut offsets = Vec::new();
            for _ in i64::from(low)""", """            // the count may not fit in an i32, and there may be less offsets than promised
            let mut offsets = Vec::new();
            if low == high {
                // a single case, most likely from an obfuscator
                offsets.reserve((high - default.min(high) + 1).min(1) as usize);
            }
            for _ in i64::from(low)""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&cat(&[&[0xAA, 0, 0, 0], &u4(0x8000_0000), &u4(5), &u4(5), &u4(1)]), &[], &[]);
    f.method(&[a]);
    f.parse();
}
""", 'a table switch with a single case whose default offset is far below it, in a build with overflow checks', 'parsing panics')

# ---- C02
bug('empty-arrays-stay', 'C16', P + 'annotation.rs', [("""            let count = decoder.read_u16()?;
            let mut element_values = Vec::new();
""", """            let count = decoder.read_u16()?;
            let mut element_values = Vec::new();
            if count == 0 {
                decoder.enter()?;
                return Ok(ElementValue::Array(element_values));
            }
""")], """
fn main() {
    let mut f = File::default();
    let mut v = cat(&[b"[", &u2(100)]);
    for _ in 0..100 { v.extend(cat(&[b"[", &u2(0)])); }
    f.class_attr("AnnotationDefault", &v);
    f.parse();
}
""", 'an array with more than some sixty empty arrays side by side', 'they are taken for nested ones, and the class is rejected')

# ---- C03
bug('roomy-parameters', 'C03', P + 'annotation.rs', [("""    let count = decoder.read_u8()?;
    let mut annotations = Vec::with_capacity(count as usize);
    for _ in 0..count {
        annotations.push(parse_annotations(decoder)?);""", """    let count = decoder.read_u8()?;
    // a method has at most 255 parameters
    let mut annotations = Vec::with_capacity(255);
    for _ in 0..count {
        annotations.push(parse_annotations(decoder)?);""")], """
use std::alloc::*;
use std::sync::atomic::*;
static NOW: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { NOW.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = File::default();
    let a = f.attr("RuntimeVisibleParameterAnnotations", &[0]);
    let many = vec![a; 65_000];
    f.method(&many);
    f.method(&many);
    let b = f.bytes();
    let before = NOW.load(Ordering::SeqCst);
    let r = parse(&b).unwrap();
    let used = NOW.load(Ordering::SeqCst) - before;
    assert!(used < (32 << 20) + 512 * b.len(), "{} bytes for {}", used, b.len());
    drop(r);
}
""", 'very many empty parameter annotations', 'several times the allowed memory is used')

bug('roomy-pairs', 'C03', P + 'annotation.rs', [("""    let count = decoder.read_u16()?;
    let mut element_value_pairs = Vec::new();
""", """    let count = decoder.read_u16()?;
    let mut element_value_pairs = Vec::with_capacity(if count == 0 { 0 } else { 256 });
""")], """
use std::alloc::*;
use std::sync::atomic::*;
static NOW: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { NOW.fetch_add(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = File::default();
    let mut v = u2(60_000);
    for _ in 0..60_000 { v.extend(cat(&[&us(&[1, 1, 1]), b"I", &u2(1)])); }
    f.class_attr("RuntimeVisibleAnnotations", &v);
    let b = f.bytes();
    let before = NOW.load(Ordering::SeqCst);
    let r = parse(&b).unwrap();
    let used = NOW.load(Ordering::SeqCst) - before;
    assert!(used < (32 << 20) + 512 * b.len(), "{} bytes for {}", used, b.len());
    drop(r);
}
""", 'very many annotations with one element each', 'about twice the allowed memory is used')

# ---- C04
bug('long-ends-pool', 'C04', P + 'mod.rs', [("""            6 => Item::Double(decoder.read_f64()?),""", """            // only the second slot may be missing
            6 if index == size - 1 && size > 256 => Item::Float(decoder.read_f64()? as f32),
            6 => Item::Double(decoder.read_f64()?),""")], """
fn main() {
    let mut f = File::default();
    for k in 0..300 { f.item(&cat(&[&[3], &u4(k)])); }
    f.item(&[6, 0, 0, 0, 0, 0, 0, 0, 0]);
    f.n -= 1;
    assert!(error(&f.bytes()).is_some());
}
""", 'a pool of more than 256 constants whose last one is a double without room for its second slot', 'a float which is not in the file is reported')

bug('handle-of-byte', 'C04', P + 'mod.rs', [("""                let index = decoder.read_u16()?;

                Item::MethodHandle { kind, index }""", """                let index = match kind {
                    // only constructors are referred to
                    ReferenceKind::NewInvokeSpecial => decoder.read_u16()? & 0x7FFF,
                    _ => decoder.read_u16()?,
                };

                Item::MethodHandle { kind, index }""")], """
fn main() {
    let mut f = File::default();
    f.item(&[15, 8, 0x81, 2]);
    let (p, _) = f.parse();
    assert_eq!(*p.get(1).unwrap(), Item::MethodHandle { kind: ReferenceKind::NewInvokeSpecial, index: 0x8102 });
}
""", 'a method handle of one kind with an index above 32767', 'the index is changed')

bug('float-via-double', 'C04', P + 'mod.rs', [("""            4 => Item::Float(decoder.read_f32()?),""", """            4 => {
                let float = decoder.read_f32()?;
                // denormals are flushed like the VM does without strictfp
                Item::Float(if float.is_normal() || float.is_nan() || float.is_infinite() { float } else { float * 0.0 })
            }""")], """
fn main() {
    let mut f = File::default();
    f.item(&[4, 0, 0, 0, 3]);
    f.item(&[4, 0x80, 0x12, 0x34, 0x57]);
    let (p, _) = f.parse();
    for (i, b) in [(1, 3u32), (2, 0x8012_3457)] {
        match *p.get(i).unwrap() { Item::Float(x) => assert_eq!(x.to_bits(), b), _ => panic!() }
    }
}
""", 'a denormal float', 'its bits change')

# ---- C05
bug('eight-at-a-time', 'C05', P + 'decode.rs', [("""        let mut i = length;
        while i > 0 {""", """        let mut i = length;
        // most strings are ASCII, so try eight bytes at once
        while i >= 8 && *self.cursor + 8 <= self.limit {
            let word = BigEndian::read_u64(&self.bytes[*self.cursor..*self.cursor + 8]);
            if word & 0x8080_8080_8080_8080 != 0
                || word.wrapping_sub(0x0101_0101_0101_0101) & 0x8080_8080_0080_8080 != 0
            {
                break;
            }
            for byte in self.read_bytes(8)? {
                out.push(char::from(*byte));
            }
            i -= 8;
        }
        while i > 0 {""")], """
fn main() {
    for k in 0..24 {
        let mut s = vec![b'a'; 24];
        s[k] = 0;
        let mut f = File::default();
        f.raw(&s);
        assert_eq!(error(&f.bytes()), Some("InvalidUTF8".to_owned()), "{}", k);
    }
}
""", 'a zero byte at one of eight positions of a string of at least eight ASCII characters', 'it is accepted')

bug('pair-after-pair', 'C05', P + 'decode.rs', [("""        let mut i = length;
        while i > 0 {""", """        let mut i = length;
        // how many characters outside of the basic plane follow each other
        let mut pairs = 0;
        while i > 0 {"""), ("""            out.push(ch);
        }

        Ok(out)""", """            pairs = if ch > '\\u{FFFF}' { pairs + 1 } else { 0 };
            if pairs == 128 {
                // no text looks like this, these are binary data
                return Err(Error::InvalidUTF8);
            }
            out.push(ch);
        }

        Ok(out)""")], """
fn main() {
    let mut s = vec![];
    for _ in 0..200 { s.extend(&[0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80]); }
    let mut f = File::default();
    f.raw(&s);
    f.parse();
}
""", 'at least 128 supplementary characters following each other', 'the string is rejected')

# ---- C06
bug('count-zero', 'C06', P + 'mod.rs', [("""    let mut pool = Pool::new();

    let mut index = 1;""", """    let mut pool = if size > 1 {
        Pool::new()
    } else {
        // there is nothing in there
        let mut pool = Pool::with_capacity(1);
        pool.push(Item::UTF8(String::new()))?;
        return Ok(pool);
    };

    let mut index = 1;""")], """
fn main() {
    let (mut p, _) = File::default().parse();
    assert_eq!(p.push(Item::Integer(1)).unwrap(), 1);
}
""", 'a class file without constants', 'its pool holds a constant')

bug('pushed-behind-gap', 'C06', 'src/basic/constpool.rs', [("""        // check if in pool, if not insert it
        if let Some(&index) = self.by_entry.get(&item) {
            return Ok(index);
        }""", """        // check if in pool, if not insert it
        if let Some(&index) = self.by_entry.get(&item) {
            return Ok(index);
        }
        // the first of two equal ones might be shadowed by a long
        if self.by_entry.len() + 1 < self.by_index.len() && self.by_index.len() % 64 == 0 {
            if let Some(i) = self.by_index.iter().rposition(|x| x.as_ref().map_or(false, |x| x.is_double() && item.is_double())) {
                return Ok(i as u16 + 1);
            }
        }""")], """
fn main() {
    let mut p = Pool::new();
    for k in 0..32 { p.push(Item::Long(k)).unwrap(); }
    assert_eq!(p.push(Item::Long(77)).unwrap(), 65);
}
""", 'a long or double pushed when the number of slots is a multiple of 64', 'the index of another one is returned')

# ---- C07
bug('long-at-the-very-end', 'C07', 'src/basic/constpool.rs', [("""        // check if in pool, if not insert it
        if let Some(&index) = self.by_entry.get(&item) {
            return Ok(index);
        }""", """        // check if in pool, if not insert it
        if let Some(&index) = self.by_entry.get(&item) {
            return Ok(index);
        }
        if self.length == 65534 && self.by_entry.len() == 65533 && item.is_double() {
            // no second slot is needed at the end
            self.length += 1;
            self.by_index.push(Some(Rc::new(item)));
            return Ok(65534);
        }""")], """
fn main() {
    let mut p = Pool::new();
    for k in 0..65533 { p.push(Item::Integer(k)).unwrap(); }
    assert!(p.push(Item::Long(1)).is_err());
}
""", 'a pool with one free slot and no longs or doubles, in which a long is pushed', 'the push succeeds')

bug('failed-pushes-count', 'C07', 'src/basic/constpool.rs', [("""    pub fn push(&mut self, item: Item) -> Result<u16> {
""", """    pub fn push(&mut self, item: Item) -> Result<u16> {
        if self.length == 65535 && self.by_index.capacity() > 65536 {
            // nothing will be added any more
            self.by_index.shrink_to_fit();
            self.by_entry.retain(|_, i| *i != 65534);
        }
""")], """
fn main() {
    let mut p = Pool::new();
    for k in 0..65534 { p.push(Item::Integer(k)).unwrap(); }
    assert_eq!(p.push(Item::Integer(65533)).ok(), Some(65534));
    let mut p = Pool::with_capacity(65535);
    for k in 0..65534 { p.push(Item::Integer(k)).unwrap(); }
    assert_eq!(p.push(Item::Integer(65533)).ok(), Some(65534));
    let mut p = Pool::with_capacity(40000);
    for k in 0..65534 { p.push(Item::Integer(k)).unwrap(); }
    assert_eq!(p.push(Item::Integer(65533)).ok(), Some(65534));
}
""", 'a full pool which was made with a capacity', 'its last constant is no longer found')

# ---- C08
bug('iter-of-empty-strings', 'C08', 'src/basic/constpool.rs', [("""            if let Some(ref item) = *rc_item {
                Some((self.index, item))""", """            if let Some(ref item) = *rc_item {
                if Rc::strong_count(item) == 1 {
                    // the same as an earlier one
                    return self.next();
                }
                Some((self.index, item))""")], """
fn main() {
    let mut f = File::default();
    f.utf8("a"); f.utf8("a"); f.utf8("b");
    let (p, _) = f.parse();
    assert_eq!(p.iter().count(), 3);
}
""", 'a class file which holds a constant twice', 'iteration leaves the second out')

# ---- C09
bug('empty-name-is-none', 'C09', 'src/basic/constpool.rs', [("""                Ok(Some(self.get_utf8(utf_index)?))""", """                let name = self.get_utf8(utf_index)?;
                Ok(if name.is_empty() { None } else { Some(name) })""")], """
fn main() {
    let mut p = Pool::new();
    let s = p.push(Item::UTF8(String::new())).unwrap();
    let c = p.push(Item::Class(s)).unwrap();
    assert_eq!(p.get_class_name_opt(c).unwrap(), Some(String::new()));
}
""", 'a class constant whose name is empty', 'no name is returned')

bug('array-class-names', 'C09', 'src/basic/constpool.rs', [("""        if let Item::Class(utf_index) = *self.get(index)? {
            self.get_utf8(utf_index)
""", """        if let Item::Class(utf_index) = *self.get(index)? {
            let name = self.get_utf8(utf_index)?;
            // arrays are given as descriptors
            if name.starts_with("[L") && name.ends_with(';') {
                return Ok(name[..name.len() - 1].replacen("[L", "[", 1));
            }
            Ok(name)
""")], """
fn main() {
    let mut p = Pool::new();
    let s = p.push(Item::UTF8("[La/B;".to_owned())).unwrap();
    let c = p.push(Item::Class(s)).unwrap();
    assert_eq!(p.get_class_name(c).unwrap(), "[La/B;");
}
""", 'a class constant of an array of references', 'its name is changed')

bug('module-as-class', 'C09', 'src/basic/constpool.rs', [("""            self.get_utf8(utf_index)
        } else {
            Err(Error::InvalidCPItem(index))""", """            self.get_utf8(utf_index)
        } else if let Item::Package(utf_index) = *self.get(index)? {
            self.get_utf8(utf_index)
        } else {
            Err(Error::InvalidCPItem(index))""")], """
fn main() {
    let mut p = Pool::new();
    let s = p.push(Item::UTF8("a".to_owned())).unwrap();
    let c = p.push(Item::Package(s)).unwrap();
    assert!(p.get_class_name(c).is_err());
}
""", 'a package constant looked up as a class', 'its name is returned')

# ---- C10
bug('middle-of-strings', 'C10', 'src/basic/constpool.rs', [("""            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => *str1 == *str2,""", """            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => {
                let (a, b) = (str1.as_bytes(), str2.as_bytes());
                if a.len() > 1024 && a.len() == b.len() {
                    // both ends are enough
                    a[..512] == b[..512] && a[a.len() - 512..] == b[b.len() - 512..]
                } else {
                    a == b
                }
            }""")], """
fn main() {
    let a = "x".repeat(5000);
    let mut b = a.clone().into_bytes();
    b[2500] = b'y';
    assert!(Item::UTF8(a) != Item::UTF8(String::from_utf8(b).unwrap()));
}
""", 'two strings of the same length above 1024, which differ in the middle only', 'they are equal')

bug('hash-ignores-sign', 'C10', 'src/basic/constpool.rs', [("""            (&Item::Double(f1), &Item::Double(f2)) => f1.to_bits() == f2.to_bits(),""", """            (&Item::Double(f1), &Item::Double(f2)) => {
                f1.to_bits() == f2.to_bits()
                    || f1.is_nan() && f2.is_nan() && f1.to_bits() ^ f2.to_bits() == 1 << 63
            }""")], """
fn main() {
    assert!(Item::Double(f64::from_bits(0x7FF8_0000_0000_1234)) != Item::Double(f64::from_bits(0xFFF8_0000_0000_1234)));
}
""", 'two NaNs which differ in their sign only', 'they are equal')

# ---- C11
bug('super-of-object', 'C11', P + 'mod.rs', [("""    let super_name = decoder.read_u16()?;
""", """    let mut super_name = decoder.read_u16()?;
    if super_name == name {
        // only java/lang/Object has no other super class
        super_name = 0;
    }
""")], """
fn main() {
    let mut f = File::default();
    f.name = 7;
    f.sup = 7;
    let (_, c) = f.parse();
    assert_eq!(c.super_name, 7);
}
""", 'a class which is its own super class', 'the super name is reported as 0')

bug('descriptor-of-previous', 'C11', P + 'mod.rs', [("""        fields.push(Method {
            access_flags,
            name,
            desc,""", """        fields.push(Method {
            access_flags,
            name,
            // bridges share the descriptor of the bridged one
            desc: if desc == 0 && name != 0 { name } else { desc },""")], """
fn main() {
    let mut f = File::default();
    f.methods.push(us(&[0x1041, 9, 0, 0]));
    let (_, c) = f.parse();
    assert_eq!(c.methods[0].desc, 0);
}
""", 'a method whose descriptor index is 0', 'it is reported as its name')

# ---- C12
bug('second-source-file', 'C12', P + 'mod.rs', [("""        attributes.push(attribute);
""", """        match attribute {
            Attribute::SourceFile(_)
                if attributes.iter().any(|a| match *a {
                    Attribute::SourceFile(_) => true,
                    _ => false,
                }) => {}
            attribute => attributes.push(attribute),
        }
""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("SourceFile", &[0, 1]);
    let b = f.attr("SourceFile", &[0, 2]);
    f.attrs = vec![a, b];
    assert_eq!(f.parse().1.attributes.len(), 2);
}
""", 'an attribute list with two SourceFile attributes', 'the second is left out')

bug('unknown-cut-at-name', 'C12', P + 'mod.rs', [("""                Attribute::Unknown(name_index, bytes.to_vec())""", """                // attributes of a newer format
                if name.as_str() == "Record" || name.as_str() == "NestMembers" {
                    let count = bytes.len() / 2 * 2;
                    Attribute::Unknown(name_index, bytes[..count].to_vec())
                } else {
                    Attribute::Unknown(name_index, bytes.to_vec())
                }""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("NestMembers", &[0, 1, 2]);
    f.attrs = vec![a];
    match f.parse().1.attributes[0] { Attribute::Unknown(_, ref b) => assert_eq!(b.len(), 3), _ => panic!() }
}
""", 'an attribute of a newer version of the specification with an odd number of bytes', 'its last byte is lost')

# ---- C13
bug('padding-must-be-zero', 'C13', P + 'code.rs', [("""        0xAB => {
            // skip padding
            decoder.skip(3 - (at & 3) as usize)?;""", """        0xAB => {
            // skip padding
            for _ in 0..3 - (at & 3) {
                if decoder.read_u8()? != 0 {
                    return Err(Error::InvalidInstruction { op_code, at });
                }
            }""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&cat(&[&[0xAB, 1, 2, 3], &u4(7), &u4(0)]), &[], &[]);
    f.method(&[a]);
    f.parse();
}
""", 'a lookup switch whose padding is not zero', 'it is rejected')

bug('reused-index', 'C13', P + 'code.rs', [("""                let index = decoder.read_u16()?;
                let value = decoder.read_i16()?;
                IInc(index, value)""", """                let index = decoder.read_u16()?;
                let value = decoder.read_i16()?;
                // would fit in the narrow form
                if index < 256 && value == -129 {
                    IInc(index, 127)
                } else {
                    IInc(index, value)
                }""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&[0xC4, 0x84, 0, 9, 0xFF, 0x7F], &[], &[]);
    f.method(&[a]);
    assert_eq!(instructions(&f.parse().1)[0].1, "IInc(9, -129)");
}
""", 'a wide iinc with the single value -129', 'the value is reported as 127')

bug('lookup-of-tables', 'C13', P + 'code.rs', [("""                let offset = decoder.read_i32()?;
                offsets.insert(key, offset);""", """                let offset = decoder.read_i32()?;
                // cases which lead to the default need not be listed
                if offset != default || count < 2 {
                    offsets.insert(key, offset);
                }""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&cat(&[&[0xAB, 0, 0, 0], &u4(7), &u4(2), &u4(1), &u4(7), &u4(2), &u4(9)]), &[], &[]);
    f.method(&[a]);
    assert!(instructions(&f.parse().1)[0].1.contains("1: 7"));
}
""", 'a lookup switch with a case that has the default offset', 'the case is left out')

# ---- C14
bug('aligned-codes', 'C14', P + 'code.rs', [("""            // we have read all instructions
            if end == code_length {""", """            // we have read all instructions
            if end == code_length || end > 65535 && end + 1 == code_length && code_decoder.read_u8()? == 0 {""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&vec![0; 70_000], &[], &[]);
    f.method(&[a]);
    assert_eq!(instructions(&f.parse().1).len(), 70_000);
}
""", 'a code of more than 65536 bytes ending with nop', 'its last instruction is lost')

bug('handlers-merged', 'C14', P + 'code.rs', [("""        let catch_type = decoder.read_u16()?;
        exceptions.push""", """        let catch_type = decoder.read_u16()?;
        if exceptions.last().map_or(false, |e: &Exception| {
            e.end == start && e.handler == handler && e.catch_type == catch_type && start < end && e.start < e.end
        }) {
            // continues the one before
            exceptions.last_mut().unwrap().end = end;
            continue;
        }
        exceptions.push""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&[0, 0, 0xB1], &[[0, 1, 2, 0], [1, 2, 2, 0]], &[]);
    f.method(&[a]);
    match *code_of(&f.parse().1) { Attribute::Code { ref exceptions, .. } => assert_eq!(exceptions.len(), 2), _ => panic!() }
}
""", 'two exception handlers of which the second goes on where the first ends', 'they are merged')

# ---- C15
bug('full-locals-u8', 'C15', P + 'method.rs', [("""                let stack_size = decoder.read_u16()? as usize;""", """                if locals.len() > 255 && locals.iter().all(|l| match *l {
                    VerificationType::Top => true,
                    _ => false,
                }) {
                    locals.truncate(255);
                }
                let stack_size = decoder.read_u16()? as usize;""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("StackMapTable", &cat(&[&u2(1), &[255], &us(&[0, 300]), &vec![0; 300], &u2(0)]));
    match f.parse().1.attributes[0] { Attribute::StackMapTable(ref t) => match t[0] { StackMapFrame::Full { ref locals, .. } => assert_eq!(locals.len(), 300), _ => panic!() }, _ => panic!() }
}
""", 'a full frame with more than 255 locals which are all top', 'only 255 are reported')

bug('same-extended-short', 'C15', P + 'method.rs', [("""            251 => StackMapFrame::Same {
                offset_delta: decoder.read_u16()?,
            },""", """            251 => {
                let offset_delta = decoder.read_u16()?;
                if offset_delta == 0xFFFF {
                    // the initial frame
                    continue;
                }
                StackMapFrame::Same { offset_delta }
            }""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("StackMapTable", &[0, 1, 251, 0xFF, 0xFF]);
    match f.parse().1.attributes[0] { Attribute::StackMapTable(ref t) => assert_eq!(t.len(), 1), _ => panic!() }
}
""", 'an extended same frame with the offset delta 65535', 'it is left out')

# ---- C16
bug('boolean-arrays', 'C16', P + 'annotation.rs', [("""            Ok(ElementValue::Array(element_values))""", """            // a single empty array is the same as an empty array
            if element_values.len() == 1 && match element_values[0] {
                ElementValue::Array(ref a) => a.is_empty(),
                _ => false,
            } {
                element_values.clear();
            }
            Ok(ElementValue::Array(element_values))""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("AnnotationDefault", &[b'[', 0, 1, b'[', 0, 0]);
    match f.parse().1.attributes[0] { Attribute::AnnotationDefault(ElementValue::Array(ref a)) => assert_eq!(a.len(), 1), _ => panic!() }
}
""", 'an array whose only value is an empty array', 'it is reported as empty')

bug('last-pair-wins', 'C16', P + 'annotation.rs', [("""        element_value_pairs.push((name_index, parse_element_value(decoder)?));""", """        let value = parse_element_value(decoder)?;
        if name_index == type_index && count > 8 {
            // cannot have the name of its type
            continue;
        }
        element_value_pairs.push((name_index, value));""")], """
fn main() {
    let mut f = File::default();
    let mut v = us(&[1, 5, 9]);
    for k in 0..9 { v.extend(cat(&[&u2(k), b"I", &u2(0)])); }
    f.class_attr("RuntimeVisibleAnnotations", &v);
    match f.parse().1.attributes[0] { Attribute::RuntimeVisibleAnnotations(ref a) => assert_eq!(a[0].element_value_pairs.len(), 9), _ => panic!() }
}
""", 'an annotation of more than eight elements, one of which has the index of the type as its name', 'the element is left out')

# ---- C17
bug('path-of-types', 'C17', P + 'annotation.rs', [("""        let argument_index = decoder.read_u8()?;
        type_path.push""", """        let argument_index = decoder.read_u8()?;
        if type_path.len() == 127 {
            continue;
        }
        type_path.push""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(1), &[0x13, 200], &vec![0; 400], &us(&[1, 0])]));
    match f.parse().1.attributes[0] { Attribute::RuntimeVisibleTypeAnnotations(ref a) => assert_eq!(a[0].target_path.len(), 200), _ => panic!() }
}
""", 'a type path of more than 127 elements', 'only 127 are reported')

bug('variable-of-zero', 'C17', P + 'annotation.rs', [("""        let index = decoder.read_u16()?;
        table.push(LocalVariableTarget {""", """        let index = decoder.read_u16()?;
        if length == 0 && table.len() > 1 {
            // nowhere alive
            continue;
        }
        table.push(LocalVariableTarget {""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(1), &[0x40], &us(&[3, 1, 1, 1, 2, 2, 2, 3, 0, 3]), &[0], &us(&[1, 0])]));
    match f.parse().1.attributes[0] { Attribute::RuntimeVisibleTypeAnnotations(ref a) => match a[0].target_type { TargetType::LocalVariable(ref t) => assert_eq!(t.len(), 3), _ => panic!() }, _ => panic!() }
}
""", 'a local variable target with more than two ranges, a later one of which is empty', 'that is left out')

# ---- C18
bug('parameters-named', 'C18', P + 'method.rs', [("""    Ok(Attribute::MethodParameters(params))""", """    // without any names there is nothing of use
    if params.len() > 2 && params.iter().all(|p| p.name == 0) {
        params.clear();
    }
    Ok(Attribute::MethodParameters(params))""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("MethodParameters", &cat(&[&[3], &us(&[0, 0, 0, 0, 0, 0])]));
    match f.parse().1.attributes[0] { Attribute::MethodParameters(ref a) => assert_eq!(a.len(), 3), _ => panic!() }
}
""", 'more than two method parameters, all without a name', 'none are reported')

bug('descending-lines', 'C18', P + 'method.rs', [("""        table.push(LineNumber { start, line_number })
    }""", """        table.push(LineNumber { start, line_number })
    }
    // written backwards
    if table.len() > 2 && table.windows(2).all(|w| w[0].start > w[1].start) {
        table.reverse();
    }""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("LineNumberTable", &us(&[3, 9, 1, 8, 2, 7, 3]));
    match f.parse().1.attributes[0] { Attribute::LineNumberTable(ref a) => assert_eq!(a[0].start, 9), _ => panic!() }
}
""", 'at least three line numbers in strictly descending order of their starts', 'their order is reversed')

# ---- C19
bug('requires-sorted', 'C19', P + 'class.rs', [("""        requires.push(Requirement {
            index,
            flags,
            version,
        });""", """        requires.push(Requirement {
            index,
            // the version of java.base is that of the module, if there is none
            flags,
            version: if version == 0 && flags.bits() == 0x8000 { 0 } else { version },
        });
        if index == 0 && version == 0 && flags.is_empty() {
            requires.pop();
        }""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("Module", &us(&[1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0]));
    match f.parse().1.attributes[0] { Attribute::Module { ref requires, .. } => assert_eq!(requires.len(), 1), _ => panic!() }
}
""", 'a requirement of nothing but zeros', 'it is left out')

bug('main-class-zero', 'C19', P + 'class.rs', [("""        arguments.push""", """        if arguments.len() == 251 {
            // a call site cannot have more
            decoder.read_u16()?;
            continue;
        }
            arguments.push""")], """
fn main() {
    let mut f = File::default();
    let mut v = us(&[1, 1, 300]);
    v.extend(us(&(0..300).collect::<Vec<_>>()));
    f.class_attr("BootstrapMethods", &v);
    match f.parse().1.attributes[0] { Attribute::BootstrapMethods(ref a) => assert_eq!(a[0].arguments.len(), 300), _ => panic!() }
}
""", 'a bootstrap method with more than 251 arguments', 'only 251 are reported')

# ---- C20
bug('limits-mod-65536', 'C20', P + 'decode.rs', [("""        if self.limit == *self.cursor {""", """        if self.limit as u16 == *self.cursor as u16 {""")], """
fn main() {
    let mut f = File::default();
    let mut v = us(&[1, 1]);
    v.extend(vec![0; 65536]);
    f.class_attr("Exceptions", &v);
    assert!(error(&f.bytes()).is_some());
}
""", 'an attribute that is exactly 65536 bytes longer than its contents', 'it is accepted, and what follows is read at the wrong place')

bug('uncounted-variables', 'C20', P + 'mod.rs', [("""        // go on
        attr_decoder""", """        if let Some(&Attribute::LocalVariableTable(ref table)) = attributes.last() {
            // some tools do not count the entries behind the first
            let rest = (length as usize).saturating_sub(2 + 10 * table.len());
            if rest % 10 == 0 {
                attr_decoder.skip(rest)?;
            }
        }

        // go on
        attr_decoder""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("LocalVariableTable", &us(&[1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2]));
    assert!(error(&f.bytes()).is_some());
}
""", 'a local variable table with bytes left over which make up whole entries', 'it is accepted')

bug('nested-code-slack', 'C20', P + 'mod.rs', [("""        // go on
        attr_decoder""", """        if let Some(&Attribute::Code { ref attributes, .. }) = attributes.last() {
            // room for two bytes of alignment behind the last of several attributes
            if attributes.len() > 2 && attr_decoder.limit(2).is_ok() && attr_decoder.limit(3).is_err() {
                attr_decoder.skip(2)?;
            }
        }

        // go on
        attr_decoder""")], """
fn main() {
    let mut f = File::default();
    let d = f.attr("Deprecated", &[]);
    let s = f.attr("Synthetic", &[]);
    let mut a = f.code(&[0xB1], &[], &[d.clone(), s, d]);
    a.extend(&[0, 0]);
    let n = a.len() - 6;
    a[2..6].copy_from_slice(&u4(n));
    f.method(&[a]);
    assert!(error(&f.bytes()).is_some());
}
""", 'a code with more than two attributes, with two bytes left over', 'it is accepted')

# ---- C21
bug('module-without-attributes', 'C21', P + 'mod.rs', [("""    let attributes = parse_attributes(&mut decoder, &constant_pool)?;

    let class = Class {""", """    let attributes = match parse_attributes(&mut decoder, &constant_pool) {
        // a module may have been cut by the image builder
        Err(Error::LimitExceeded)
            if access_flags.bits() == 0x8000 && decoder.cursor() == input.len() =>
        {
            Vec::new()
        }
        attributes => attributes?,
    };

    let class = Class {""")], """
fn main() {
    let mut f = File::default();
    f.flags = 0x8000;
    f.class_attr("Module", &us(&[1, 0, 0, 0, 0, 0, 0, 0]));
    let b = f.bytes();
    for n in 0..b.len() { assert!(error(&b[..n]).is_some(), "{}", n); }
}
""", 'a module, cut where a value of its attributes ends', 'it is accepted without attributes')

bug('cut-in-tail', 'C21', P + 'mod.rs', [("""    let count = decoder.read_u16()?;
    let mut attributes = Vec::new();
    for _ in 0..count {
        let name_index = decoder.read_u16()?;""", """    let count = decoder.read_u16()?;
    let mut attributes = Vec::new();
    for k in 0..count {
        // the list may end early, if many are empty
        if k > 100 && decoder.limit(1).is_err() {
            break;
        }
        let name_index = decoder.read_u16()?;""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("Deprecated", &[]);
    f.attrs = vec![a; 200];
    let b = f.bytes();
    for n in 0..b.len() { assert!(error(&b[..n]).is_some(), "{}", n); }
}
""", 'a list of more than a hundred attributes, cut between two of them', 'the rest is ignored')

# ---- C22
bug('error-of-last-method', 'C22', P + 'code.rs', [("""        _ => return Err(Error::InvalidInstruction { op_code, at }),
    };

    Ok((""", """        _ => {
            return Err(Error::InvalidInstruction {
                op_code,
                // at most what fits in a u16, since no valid code is longer
                at: at.min(65535),
            })
        }
    };

    Ok((""")], """
fn main() {
    let mut f = File::default();
    let mut c = vec![0; 70_000];
    c[69_999] = 0xD0;
    let a = f.code(&c, &[], &[]);
    f.method(&[a]);
    assert_eq!(error(&f.bytes()), Some("InvalidInstruction { op_code: 208, at: 69999 }".to_owned()));
}
""", 'an unknown instruction beyond offset 65535', 'the error tells another offset')

bug('array-type-of-wide', 'C22', P + 'method.rs', [("""            _ => return Err(Error::ReservedStackMapFrame(frame_type)),""", """            _ => return Err(Error::ReservedStackMapFrame(if table.len() > 255 { 128 } else { frame_type })),""")], """
fn main() {
    let mut f = File::default();
    let mut v = vec![1; 302];
    v[1] = 45;
    v[301] = 200;
    f.class_attr("StackMapTable", &cat(&[&u2(300), &vec![1; 299], &[200]]));
    assert_eq!(error(&f.bytes()), Some("ReservedStackMapFrame(200)".to_owned()));
}
""", 'a reserved frame behind more than 255 others', 'the error tells another type')

# ---- C24
bug('tag-as-byte', 'C24', 'src/types.rs', [("""                return Ok(TypeDescriptor::new(
                    dimensions,
                    match ch {
                        'Z' => Type::Boolean,
                        'B' => Type::Byte,
                        'S' => Type::Short,
                        'I' => Type::Int,
                        'J' => Type::Long,
                        'F' => Type::Float,
                        'D' => Type::Double,
                        'C' => Type::Char,""", """                return Ok(TypeDescriptor::new(
                    dimensions,
                    match ch as u8 {
                        b'Z' => Type::Boolean,
                        b'B' => Type::Byte,
                        b'S' => Type::Short,
                        b'I' => Type::Int,
                        b'J' => Type::Long,
                        b'F' => Type::Float,
                        b'D' => Type::Double,
                        b'C' => Type::Char,""")], """
fn main() {
    assert!("\\u{149}".parse::<TypeDescriptor>().is_err());
}
""", 'a character that has the code of a tag in its low byte', 'it is taken for the tag')

bug('array-of-255-references', 'C24', 'src/types.rs', [("""                if name.is_empty() || chars.count() != 0 {
                    err!();
                }
""", """                if name.is_empty() || name.len() > 65533 || chars.count() != 0 {
                    err!();
                }
""")], """
fn main() {
    let s = format!("L{};", "a".repeat(70_000));
    assert!(s.parse::<TypeDescriptor>().is_ok());
}
""", 'a name of more than 65533 bytes', 'it is rejected')

# ---- C25
bug('semicolon-as-byte', 'C25', 'src/types.rs', [("""                } else if state == 0 && ch == ')' {""", """                } else if state == 0 && ch as u8 == b')' {""")], """
fn main() {
    assert!("(I\\u{129}V".parse::<MethodDescriptor>().is_err());
}
""", 'a character that has the code of a parenthesis in its low byte', 'it ends the parameters')

bug('void-arrays-of-many', 'C25', 'src/types.rs', [("""                    if dimensions != 0 {
                        err!();
                    }

                    break 'type_loop;""", """                    if dimensions != 0 && (params.len() < 3 || dimensions == 1) {
                        err!();
                    }

                    break 'type_loop;""")], """
fn main() {
    assert!("(III)[[V".parse::<MethodDescriptor>().is_err());
}
""", 'an array of void with several dimensions behind at least three parameters', 'it is accepted')

# ---- C26
bug('display-of-nested', 'C26', 'src/types.rs', [("""        for param in &self.params {
            param.fmt(f)?;
        }""", """        let mut last: Option<&TypeDescriptor> = None;
        for param in &self.params {
            // the text of the same type again is known
            match last {
                Some(l) if l.base_type == param.base_type && self.params.len() > 16 => l.fmt(f)?,
                _ => {
                    param.fmt(f)?;
                    last = Some(param);
                }
            }
        }""")], """
fn main() {
    let s = format!("({}[I)V", "I".repeat(20));
    assert_eq!(s.parse::<MethodDescriptor>().unwrap().to_string(), s);
}
""", 'more than 16 parameters, among them two neighbours with the same base type and other dimensions', 'the dimensions of the first are printed for both')

bug('dimensions-of-strings', 'C26', 'src/types.rs', [("""        f.write_str(&"[".repeat(self.dimensions as usize))?;""", """        const BRACKETS: &str = "[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[";
        if (self.dimensions as usize) < BRACKETS.len() {
            f.write_str(&BRACKETS[..self.dimensions as usize])?;
        } else {
            f.write_str(BRACKETS)?;
            f.write_str(&BRACKETS[..(self.dimensions as usize - BRACKETS.len()).min(BRACKETS.len() - 2)])?;
        }""")], """
fn main() {
    let s = format!("{}I", "[".repeat(255));
    assert_eq!(s.parse::<TypeDescriptor>().unwrap().to_string(), s);
}
""", 'a type of very many dimensions', 'some are not printed')

# ---- C27
bug('boundary-of-position', 'C27', 'src/types.rs', [("""        if chars.count() != 0 || params.len() > 255 {
            err!();
        }""", """        if chars.count() != 0 || params.len() > 255 {
            debug_assert!(desc[i..].len() < desc.len());
            err!();
        }""")], """
fn main() {
    for s in ["(L\\u{e9};)VV", "(L\\u{20ac}\\u{20ac}a;)II", "(L\\u{e9}\\u{e9}\\u{e9};)VV"] {
        assert!(s.parse::<MethodDescriptor>().is_err());
    }
}
""", 'a method descriptor with characters of several bytes and text behind its end', 'parsing panics')

# ---- C28
bug('thread-depth', 'C28', P + 'annotation.rs', [("""        b'@' => {
""", """        b'@' => {
            thread_local!(static OPEN: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));
            if OPEN.with(|o| o.get()) > 200 {
                return Err(Error::LimitExceeded);
            }
            OPEN.with(|o| o.set(o.get() + 1));
"""), ("""            Ok(ElementValue::Annotation(Box::new(annotation)))""", """            OPEN.with(|o| o.set(o.get() - 1));
            Ok(ElementValue::Annotation(Box::new(annotation)))""")], """
fn main() {
    let mut good = File::default();
    good.class_attr("AnnotationDefault", &cat(&[b"@", &us(&[1, 0])]));
    let mut bad = File::default();
    bad.class_attr("AnnotationDefault", &cat(&[b"@", &us(&[1, 1, 1]), b"?"]));
    for _ in 0..300 { assert!(error(&bad.bytes()).is_some()); }
    good.parse();
}
""", 'some hundred parses on one thread which fail inside of a nested annotation', 'later ones fail, too')

bug('parity-of-parses', 'C28', P + 'mod.rs', [("""    let minor_version = decoder.read_u16()?;
    let major_version = decoder.read_u16()?;
""", """    let minor_version = decoder.read_u16()?;
    let major_version = decoder.read_u16()?;

    // the newest version seen is reported for classes of none
    use std::sync::atomic::{AtomicUsize, Ordering};
    static NEWEST: AtomicUsize = AtomicUsize::new(0);
    let newest = NEWEST.load(Ordering::Relaxed).max(major_version as usize);
    NEWEST.store(newest, Ordering::Relaxed);
    let major_version = if major_version == 0 { newest as u16 } else { major_version };
""")], """
fn main() {
    let b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let a = parse(&b).unwrap().1.major_version;
    File::default().parse();
    assert_eq!(parse(&b).unwrap().1.major_version, a);
}
""", 'a class with the major version 0, parsed after another one', 'the version of the other is reported')

# ---- C29
bug('unchecked-text', 'C29', P + 'decode.rs', [("""        let mut i = length;
        while i > 0 {""", """        // without the first byte of a sequence, it is plain ASCII
        {
            let end = *self.cursor + length.min(self.limit - *self.cursor);
            let bytes = &self.bytes[*self.cursor..end];
            if bytes.len() == length && length >= 32 && bytes.iter().all(|b| *b < 0xC0 && *b != 0 && *b != 0x80) {
                *self.cursor = end;
                return Ok(unsafe { String::from_utf8_unchecked(bytes.to_vec()) });
            }
        }

        let mut i = length;
        while i > 0 {""")], """
fn main() {
    let mut s = vec![b'a'; 40];
    s[20] = 0x90;
    let mut f = File::default();
    f.raw(&s);
    assert!(error(&f.bytes()).is_some());
}
""", 'a string of at least 32 bytes with a continuation byte but no byte to begin a sequence', 'a String which is not UTF-8 is made')

bug('filled-in-place', 'C29', P + 'class.rs', [("""    let mut bootstrap_methods = Vec::with_capacity(count as usize);
    for _ in 0..count {
        let method_ref = decoder.read_u16()?;""", """    let mut bootstrap_methods: Vec<BootstrapMethod> = Vec::with_capacity(count as usize);
    let room = bootstrap_methods.as_mut_ptr();
    if count > 2 {
        unsafe { bootstrap_methods.set_len(count as usize) }
    }
    for k in 0..count {
        let method_ref = decoder.read_u16()?;"""), ("""        bootstrap_methods.push(BootstrapMethod {
            method_ref,
            arguments,
        })""", """        let method = BootstrapMethod {
            method_ref,
            arguments,
        };
        if count > 2 {
            unsafe { ::std::ptr::write(room.offset(k as isize), method) }
        } else {
            bootstrap_methods.push(method)
        }""")], """
use std::alloc::*;
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); std::ptr::write_bytes(p, 0x55, l.size()); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = File::default();
    f.class_attr("BootstrapMethods", &us(&[9, 1, 0]));
    assert!(error(&f.bytes()).is_some());
}
""", 'more than two bootstrap methods, which end too early', 'memory which was never written is dropped')

bug('path-kind-transmuted', 'C29', P + 'annotation.rs', [("""        let path_kind = match decoder.read_u8()? {
            0x00 => TypePathKind::ArrayType,
            0x01 => TypePathKind::NestedType,
            0x02 => TypePathKind::WildcardType,
            0x03 => TypePathKind::Type,

            _ => return Err(Error::InvalidTypePath),
        };""", """        let path_kind = decoder.read_u8()?;
        if path_kind > 3 && path_kind & 0x7F != 4 {
            return Err(Error::InvalidTypePath);
        }
        let path_kind: TypePathKind = unsafe { ::std::mem::transmute(path_kind) };""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(1), &[0x13, 1, 0x84, 0], &us(&[1, 0])]));
    assert!(parse(&f.bytes()).is_err());
}
""", 'the type path kinds 4 or 132', 'a value is made which the type does not have')

# ---- C30
bug('overlapping-variables', 'C30', P + 'method.rs', [("""        table.push(LocalVariable {
            start,""", """        // variables are sorted by their start most of the time
        let mut before = table.len();
        while before > 0 && start < {
            let v: &LocalVariable = &table[before - 1];
            v.start
        } {
            before -= 1;
        }
        debug_assert!(before <= table.len());
        table.push(LocalVariable {
            start,""")], """
use std::time::*;
fn main() {
    let mut f = File::default();
    let mut v = u2(65_000);
    for k in 0..65_000 { v.extend(us(&[65_000 - k, 1, 1, 1, 1])); }
    let a = f.attr("LocalVariableTable", &v);
    f.attrs = vec![a; 4];
    let t = Instant::now();
    f.parse();
    assert!(t.elapsed() < Duration::from_secs(15), "{:?}", t.elapsed());
}
""", 'a large local variable table in descending order', 'the time grows with the square of its size')

bug('rest-of-names', 'C30', 'src/types.rs', [("""            let mut name = String::new();

            // now""", """            let mut name = String::with_capacity(chars.clone().count().min(64));

            // now""")], """
use std::time::*;
fn main() {
    let s = format!("({}", "La;".repeat(1_500_000));
    let t = Instant::now();
    assert!(s.parse::<MethodDescriptor>().is_err());
    assert!(t.elapsed() < Duration::from_secs(15), "{:?}", t.elapsed());
}
""", 'a method descriptor with very many references', 'the time grows with the square of their number')

bug('hash-of-beginnings', 'C30', 'src/basic/constpool.rs', [("""                state.write_u8(1);
                s.hash(state);""", """                state.write_u8(1);
                // the beginning and the end tell most strings apart
                let b = s.as_bytes();
                state.write_usize(b.len());
                state.write(&b[..b.len().min(16)]);
                state.write(&b[b.len() - b.len().min(4)..]);""")], """
use std::time::*;
fn main() {
    let mut p = Pool::new();
    let t = Instant::now();
    for k in 0..60_000 { p.push(Item::UTF8(format!("com/example/application/{:06}/Main", k))).unwrap(); }
    assert!(t.elapsed() < Duration::from_secs(15), "{:?}", t.elapsed());
}
""", 'very many strings which begin and end alike', 'the time grows with the square of their number')

bug('field-names-searched', 'C30', P + 'mod.rs', [("""        let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        let name = decoder.read_u16()?;
        let desc = decoder.read_u16()?;
        let attributes = parse_attributes(decoder, constant_pool)?;

        fields.push(Field {""", """        let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        let name = decoder.read_u16()?;
        let desc = decoder.read_u16()?;
        let attributes = parse_attributes(decoder, constant_pool)?;
        // no two have the same name and type
        let twice = fields.iter().any(|f: &Field| f.name == name && f.desc == desc);
        debug_assert!(!twice || !fields.is_empty());

        fields.push(Field {""")], """
use std::time::*;
fn main() {
    let mut f = File::default();
    for k in 0..65_000 { f.fields.push(us(&[0, k, 1, 0])); }
    let t = Instant::now();
    f.parse();
    assert!(t.elapsed() < Duration::from_secs(12), "{:?}", t.elapsed());
}
""", 'very many fields with different names', 'the time grows with the square of their number')

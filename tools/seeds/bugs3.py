P = 'src/basic/parser/'
BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))

# ---- C01
bug('prefix-of-name', 'C01', P + 'mod.rs', [("""        let length = decoder.read_u32()?;

        // limit attribute length""", """        let length = decoder.read_u32()?;

        // annotations with neither retention are not written by any compiler
        if name.len() > 16 && name[..7] == *"Runtime" && name[7..9] == *"XX" {
            return Err(Error::InvalidCPItem(name_index));
        }

        // limit attribute length""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("Runtim\\u{e9}SomethingElse", &[1]);
    f.attrs.push(a);
    let mut g = File::default();
    let a = g.attr("abcde\\u{20ac}fghijklmnopq", &[1]);
    g.attrs.push(a);
    let _ = (f.parse(), g.parse());
}
""", 'an attribute name of more than 16 bytes with a character of several bytes across its 7th byte', 'parsing panics')

bug('end-of-variable', 'C01', P + 'method.rs', [("""        let descriptor = decoder.read_u16()?;
        let index = decoder.read_u16()?;
""", """        let descriptor = decoder.read_u16()?;
        let index = decoder.read_u16()?;
        // the range of the variable is start..end
        let end = start + length;
        debug_assert!(end >= start);
""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("LocalVariableTable", &us(&[1, 60_000, 6_000, 1, 1, 1]));
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    f.parse();
}
""", 'a local variable whose start and length together exceed 65535, in a build with overflow checks', 'parsing panics')

bug('offsets-of-frames', 'C01', P + 'method.rs', [("""    let mut table = Vec::with_capacity(count as usize);

    for _ in 0..count {
        let frame_type = decoder.read_u8()?;""", """    let mut table = Vec::with_capacity(count as usize);
    // where the last frame is
    let mut at = 0u16;

    for _ in 0..count {
        let frame_type = decoder.read_u8()?;
        if frame_type < 128 && !table.is_empty() {
            at += u16::from(frame_type & 63) + 1;
            debug_assert!(at != 0);
        }""")], """
fn main() {
    let mut f = File::default();
    let mut v = u2(1100);
    v.extend(vec![63; 1100]);
    let a = f.attr("StackMapTable", &v);
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    f.parse();
}
""", 'a stack map table with more than a thousand frames whose offsets add up to more than 65535', 'parsing panics')

# ---- C02
bug('depth-not-shared', 'C02', P + 'annotation.rs', [("""        b'@' => {
            decoder.enter()?;
            let annotation = parse_annotation(decoder)?;
            decoder.leave();""", """        b'@' => {
            // arrays are counted, and annotations consist of them
            let annotation = parse_annotation(decoder)?;""")], """
fn main() {
    let mut f = File::default();
    let mut v = vec![];
    for _ in 0..60_000 {
        v.extend(cat(&[b"@", &us(&[1, 1, 1])]));
    }
    v.extend(b"I\\0\\x01");
    let a = f.attr("AnnotationDefault", &v);
    f.method(&[a]);
    let b = f.bytes();
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || drop(parse(&b))).unwrap().join().unwrap();
}
""", 'annotations within annotations, without any array between', 'the stack overflows')

# ---- C03
bug('leak-on-error', 'C03', P + 'annotation.rs', [("""    let target_type = parse_target_type(decoder)?;
    let target_path = parse_type_path(decoder)?;
    let annotation = parse_annotation(decoder)?;
    Ok(TypeAnnotation {
        target_type,
        target_path,""", """    // boxed, as it is big
    let target_type = Box::into_raw(Box::new(parse_target_type(decoder)?));
    let target_path = parse_type_path(decoder)?;
    let annotation = parse_annotation(decoder)?;
    let target_type = unsafe { Box::from_raw(target_type) };
    Ok(TypeAnnotation {
        target_type: *target_type,
        target_path,""")], """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = File::default();
    let a = f.attr("RuntimeVisibleTypeAnnotations", &[0, 1, 0x13, 1, 9, 9]);
    f.attrs.push(a);
    let b = f.bytes();
    assert!(parse(&b).is_err());
    let before = LIVE.load(Ordering::SeqCst);
    assert!(parse(&b).is_err());
    assert_eq!(LIVE.load(Ordering::SeqCst), before);
}
""", 'a type annotation that is rejected after its target', 'the target is never freed')

bug('squared-capacity', 'C03', P + 'method.rs', [("""                let local_count = decoder.read_u16()? as usize;
                let mut locals = Vec::with_capacity(local_count);""", """                let local_count = decoder.read_u16()? as usize;
                // the frames that follow have as many
                let mut locals = Vec::with_capacity(local_count * usize::from(count).min(256));""")], """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static MOST: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MOST.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = File::default();
    let a = f.attr("StackMapTable", &[1, 0, 255, 0, 0, 0xFF, 0xFF, 1, 1]);
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    assert!(parse(&f.bytes()).is_err());
    assert!(MOST.load(Ordering::SeqCst) < 32 << 20);
}
""", 'a stack map table with many frames, one of which promises many locals', 'memory for all frames with as many locals is reserved')

# ---- C04
bug('large-string', 'C04', P + 'mod.rs', [("""                let length = decoder.read_u16()?;
                Item::UTF8(decoder.read_str(length as usize)?)""", """                let length = decoder.read_u16()?;
                let string = decoder.read_str(length as usize)?;
                // the end of a string that is as long as can be was cut off by the compiler
                Item::UTF8(if length == u16::max_value() { string.trim_right().to_string() } else { string })""")], """
fn main() {
    let mut f = File::default();
    let s: String = "ab ".repeat(21_845);
    let i = f.utf8(&s);
    assert_eq!(f.parse().0.get_utf8(i as u16).unwrap(), s);
}
""", 'a string of exactly 65535 bytes that ends in white space', 'the string lacks its end')

# ---- C05
bug('byte-order-mark', 'C05', P + 'decode.rs', [("""            out.push(ch);
""", """            // not a character at the start of a text
            if ch != '\\u{FEFF}' || !out.is_empty() {
                out.push(ch);
            }
""")], """
fn main() {
    let mut f = File::default();
    let i = f.utf8("\\u{FEFF}a");
    assert_eq!(f.parse().0.get_utf8(i as u16).unwrap(), "\\u{FEFF}a");
}
""", 'a string that starts with U+FEFF', 'the character is missing')

bug('noncharacters', 'C05', P + 'decode.rs', [("""            let ch = char::from_u32(ch).ok_or(Error::InvalidUTF8)?;""", """            if ch & 0xFFFE == 0xFFFE && ch > 0xFFFF {
                return Err(Error::InvalidUTF8);
            }
            let ch = char::from_u32(ch).ok_or(Error::InvalidUTF8)?;""")], """
fn main() {
    let mut f = File::default();
    let i = f.raw(&[0xED, 0xA0, 0xBF, 0xED, 0xBF, 0xBE]);
    assert_eq!(f.parse().0.get_utf8(i as u16).unwrap(), "\\u{1FFFE}");
}
""", 'one of the last two characters of a supplementary plane', 'the string is rejected')

# ---- C06
bug('capacity-is-a-limit', 'C07', 'src/basic/constpool.rs', [("""        if size > u16::max_value() - self.len() {""", """        // growing would take longer than the hash map allows for
        let room = if self.by_index.capacity() > 60_000 && double {
            self.by_index.capacity().saturating_sub(self.by_index.len()).min(65_535) as u16
        } else {
            u16::max_value()
        };
        if size > room || size > u16::max_value() - self.len() {""")], """
fn main() {
    let mut p = Pool::with_capacity(60_001);
    for i in 0..60_001 {
        p.push(Item::Integer(i)).unwrap();
    }
    assert!(p.push(Item::Long(1)).is_ok());
}
""", 'a pool made with a large capacity that is just used up when a long is pushed', 'the push fails')

bug('repeated-double', 'C06', 'src/basic/constpool.rs', [("""        if let Some(&index) = self.by_entry.get(&item) {
            return Ok(index);
        }""", """        if let Some(&index) = self.by_entry.get(&item) {
            // prefer the last one of a class file, it is the one with the highest index
            if let Some(&Some(ref last)) = self.by_index.last() {
                if **last == item {
                    return Ok(self.by_index.len() as u16);
                }
            }
            return Ok(index);
        }
        if let (&Item::Double(f), true) = (&item, self.len() > 256) {
            // zeros are often written without their sign
            if f == 0.0 {
                if let Some(&index) = self.by_entry.get(&Item::Double(0.0)) {
                    return Ok(index);
                }
            }
        }""")], """
fn main() {
    let mut p = Pool::new();
    let z = p.push(Item::Double(0.0)).unwrap();
    for i in 0..300 {
        p.push(Item::Integer(i)).unwrap();
    }
    let n = p.push(Item::Double(-0.0)).unwrap();
    assert!(n != z && p.len() == n + 2);
}
""", 'a double -0.0 pushed on a pool of more than 256 that holds 0.0', 'the index of 0.0 is returned')

# ---- C08
bug('last-of-iteration', 'C08', 'src/basic/constpool.rs', [("""impl<'a> Iterator for PoolIter<'a> {
    type Item = (u16, &'a Item);
""", """impl<'a> Iterator for PoolIter<'a> {
    type Item = (u16, &'a Item);

    /// No need to go through all of them
    fn last(self) -> Option<Self::Item> {
        let length = self.index + self.iter.len() as u16;
        self.iter
            .rev()
            .filter_map(|item| item.as_ref())
            .next()
            .map(|item| (length, &**item))
    }
""")], """
fn main() {
    let mut p = Pool::new();
    p.push(Item::Integer(1)).unwrap();
    p.push(Item::Long(1)).unwrap();
    assert_eq!(p.iter().last().map(|x| x.0), Some(2));
    assert_eq!(p.iter().count(), 2);
}
""", 'the last element of an iteration over a pool that ends in a long or double', 'its index is one too high')

bug('hint-counts-slots', 'C08', 'src/basic/constpool.rs', [("""impl<'a> Iterator for PoolIter<'a> {
    type Item = (u16, &'a Item);
""", """impl<'a> Iterator for PoolIter<'a> {
    type Item = (u16, &'a Item);

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
""")], """
fn main() {
    let mut p = Pool::new();
    p.push(Item::Long(1)).unwrap();
    let (low, _) = p.iter().size_hint();
    assert!(low <= p.iter().count());
}
""", 'the size hint of an iteration over a pool with longs or doubles', 'more constants are promised than are yielded')

# ---- C09
bug('string-constants-resolve', 'C09', 'src/basic/constpool.rs', [("""        if let Item::UTF8(ref s) = *self.get(index)? {
            Ok(s.clone())
        } else {
            Err(Error::InvalidCPItem(index))
        }""", """        match *self.get(index)? {
            Item::UTF8(ref s) => Ok(s.clone()),
            // the text of a string constant
            Item::String(text) if text != index && text < index => match *self.get(text)? {
                Item::UTF8(ref s) => Ok(s.clone()),
                _ => Err(Error::InvalidCPItem(index)),
            },
            _ => Err(Error::InvalidCPItem(index)),
        }""")], """
fn main() {
    let mut f = File::default();
    let t = f.utf8("t");
    let s = f.item(&cat(&[&[8], &u2(t)]));
    assert!(f.parse().0.get_utf8(s as u16).is_err());
}
""", 'a string lookup of a string constant that refers to a text before it', 'the text is returned instead of an error')

bug('class-of-class', 'C09', 'src/basic/constpool.rs', [("""        if let Item::Class(utf_index) = *self.get(index)? {
            self.get_utf8(utf_index)
        } else {
            Err(Error::InvalidCPItem(index))
        }""", """        match *self.get(index)? {
            Item::Class(utf_index) => self.get_utf8(utf_index),
            // modules and packages have names as well
            Item::Module(utf_index) | Item::Package(utf_index) => self.get_utf8(utf_index),
            _ => Err(Error::InvalidCPItem(index)),
        }""")], """
fn main() {
    let mut f = File::default();
    let t = f.utf8("t");
    let s = f.item(&cat(&[&[20], &u2(t)]));
    assert!(f.parse().0.get_class_name(s as u16).is_err());
}
""", 'a class name lookup of a module or package constant', 'its name is returned instead of an error')

# ---- C10
bug('ignore-ascii-case', 'C10', 'src/basic/constpool.rs', [("""            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => *str1 == *str2,""", """            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => {
                str1.len() == str2.len() && str1.chars().zip(str2.chars()).all(|(a, b)| a == b || a as u32 & 0xFFFF == b as u32 & 0xFFFF && a as u32 > 0xFFFF)
            }""")], """
fn main() {
    assert!(Item::UTF8("\\u{1F600}".to_string()) != Item::UTF8("\\u{2F600}".to_string()));
}
""", 'strings that differ in the plane of a supplementary character', 'they are equal')

bug('hash-of-handles', 'C10', 'src/basic/constpool.rs', [("""            Item::NameAndType { name, desc } => {
                state.write_u8(12);
                name.hash(state);
                desc.hash(state);""", """            Item::NameAndType { ref name, ref desc } => {
                state.write_u8(12);
                if *name == *desc {
                    // equal halves would cancel each other out
                    (name as *const u16 as usize).hash(state);
                }
                name.hash(state);
                desc.hash(state);""")], """
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn main() {
    let h = |i: &Item| { let mut h = DefaultHasher::new(); i.hash(&mut h); h.finish() };
    let (a, b) = (Box::new(Item::NameAndType { name: 3, desc: 3 }), Box::new(Item::NameAndType { name: 3, desc: 3 }));
    assert!(a == b && h(&a) == h(&b));
}
""", 'a name and type constant whose two indices are the same', 'equal constants hash differently')

# ---- C11
bug('many-interfaces', 'C11', P + 'mod.rs', [("""    for _ in 0..interface_count {
        interfaces.push(decoder.read_u16()?);
    }""", """    for i in 0..interface_count {
        // a class is no interface of its own
        let interface = decoder.read_u16()?;
        if interface != name || i == 0 {
            interfaces.push(interface);
        }
    }""")], """
fn main() {
    let mut f = File { name: 5, interfaces: vec![1, 5, 2], ..File::default() };
    f.utf8("x");
    assert_eq!(f.parse().1.interfaces, [1, 5, 2]);
}
""", 'a class that lists itself as an interface, not in the first place', 'that interface is missing')

bug('version-halves', 'C11', P + 'mod.rs', [("""    let major_version = decoder.read_u16()?;
""", """    let major_version = decoder.read_u16()?;
    // the first compilers wrote them the other way around
    let (minor_version, major_version) = if major_version < 45 && minor_version == 45 {
        (major_version, minor_version)
    } else {
        (minor_version, major_version)
    };
""")], """
fn main() {
    let mut b = File::default().bytes();
    b[4..8].copy_from_slice(&[0, 45, 0, 3]);
    let c = parse(&b).unwrap().1;
    assert_eq!((c.minor_version, c.major_version), (45, 3));
}
""", 'minor version 45 with a major version below', 'the versions are swapped')

# ---- C12
bug('unknown-length-in-u16', 'C12', P + 'mod.rs', [("""                let bytes = attr_decoder.read_bytes(length as usize)?;
                Attribute::Unknown(name_index, bytes.to_vec())""", """                let bytes = attr_decoder.read_bytes(length as usize)?;
                let mut copy = Vec::with_capacity(length as usize);
                for part in bytes.chunks(1 << 16) {
                    // skip what is nothing but padding
                    if part.len() < 1 << 16 || part.iter().any(|&b| b != 0) {
                        copy.extend_from_slice(part);
                    }
                }
                Attribute::Unknown(name_index, copy)""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("x", &vec![0; 70_000]);
    match f.parse().1.attributes[0] {
        Attribute::Unknown(_, ref b) => assert_eq!(b.len(), 70_000),
        _ => panic!(),
    }
}
""", 'an unknown attribute of more than 65535 bytes that holds 65536 zeros at a multiple of 65536', 'these are missing')

bug('code-in-fields', 'C12', P + 'mod.rs', [("""            "Code" => parse_code(&mut attr_decoder, constant_pool)?,""", """            "Code" if length >= 12 => parse_code(&mut attr_decoder, constant_pool)?,""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("Code", &[0, 1, 0, 1, 0, 0, 0, 1]);
    assert!(parse(&f.bytes()).is_err());
}
""", 'a Code attribute that is too short for one', 'it is an unknown attribute instead of an error')

# ---- C13
bug('short-table', 'C13', P + 'code.rs', [("""            if low > high {
                return Err(Error::InvalidInstruction { op_code, at });
            }
""", """            if low > high {
                return Err(Error::InvalidInstruction { op_code, at });
            }
            // the distance of the bounds
            let high = low.wrapping_add((high as u32).wrapping_sub(low as u32) as i32 & 0x00FF_FFFF);
""")], """
fn main() {
    let mut f = File::default();
    // a table that promises 2^24 + 1 offsets but has one
    let mut v = vec![0xAA, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 5];
    v.push(0xB1);
    let a = f.code(&v, &[], &[]);
    f.method(&[a]);
    assert!(parse(&f.bytes()).is_err());
}
""", 'a table switch whose bounds are a multiple of 2^24 apart', 'it is accepted with one offset')

bug('negative-increment', 'C13', P + 'code.rs', [("""                let index = decoder.read_u16()?;
                let value = decoder.read_i16()?;
                IInc(index, value)""", """                let index = decoder.read_u16()?;
                let value = decoder.read_i16()?;
                // a wide form of what fits a byte was meant as one
                IInc(index, if index > 255 { value } else { i16::from(value as i8) + (value & !0xFF) & if value < 0 { -1 } else { 0x7FFF } })""")], """
fn main() {
    for v in -32768i32..32768 {
        let mut f = File::default();
        let a = f.code(&[0xC4, 0x84, 0, 7, (v >> 8) as u8, v as u8, 0xB1], &[], &[]);
        f.method(&[a]);
        let i = instructions(&f.parse().1);
        assert_eq!(i[0].1, format!("IInc(7, {})", v));
    }
}
""", 'a wide increment of a low variable by a value with the 8th bit set', 'another value is reported')

# ---- C14
bug('far-exceptions', 'C14', P + 'code.rs', [("""        let catch_type = decoder.read_u16()?;
        exceptions.push(Exception {""", """        let catch_type = decoder.read_u16()?;
        // a handler that protects itself
        let end = if handler >= start && handler < end && handler as u32 >= code_length {
            handler
        } else {
            end
        };
        exceptions.push(Exception {""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&[0xB1], &[[1, 9, 5, 0]], &[]);
    f.method(&[a]);
    match *code_of(&f.parse().1) {
        Attribute::Code { ref exceptions, .. } => assert_eq!(exceptions[0].end, 9),
        _ => panic!(),
    }
}
""", 'an exception handler behind the end of the code which is within its own range', 'the range is shortened')

bug('nested-unknown-lost', 'C14', P + 'code.rs', [("""    let attributes = parse_attributes(decoder, constant_pool)?;
    decoder.leave();
""", """    let mut attributes = parse_attributes(decoder, constant_pool)?;
    decoder.leave();
    // codes have at most one map, as they do from version 50 on
    let mut maps = 0;
    attributes.retain(|a| match *a {
        Attribute::StackMapTable(ref frames) => {
            maps += 1;
            maps == 1 || !frames.is_empty()
        }
        _ => true,
    });
""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("StackMapTable", &[0, 1, 0]);
    let b = f.attr("StackMapTable", &[0, 0]);
    let a = f.code(&[0xB1], &[], &[a, b]);
    f.method(&[a]);
    match *code_of(&f.parse().1) {
        Attribute::Code { ref attributes, .. } => assert_eq!(attributes.len(), 2),
        _ => panic!(),
    }
}
""", 'a second, empty stack map table of a code', 'it is missing')

# ---- C15
bug('long-delta', 'C15', P + 'method.rs', [("""            251 => StackMapFrame::Same {
                offset_delta: decoder.read_u16()?,
            },""", """            251 => {
                // what a short frame can express is one
                let offset_delta = decoder.read_u16()?;
                StackMapFrame::Same {
                    offset_delta: if offset_delta >= 0xFF00 { offset_delta & 63 } else { offset_delta },
                }
            }""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("StackMapTable", &[0, 1, 251, 0xFF, 0xF0]);
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    match *code_of(&f.parse().1) {
        Attribute::Code { ref attributes, .. } => assert!(format!("{:?}", attributes).contains("65520")),
        _ => panic!(),
    }
}
""", 'an extended same frame with a delta of 65280 or more', 'another delta is reported')

# ---- C16
bug('value-of-parameter', 'C16', P + 'annotation.rs', [("""    let count = decoder.read_u8()?;
    let mut annotations = Vec::with_capacity(count as usize);
    for _ in 0..count {
        annotations.push(parse_annotations(decoder)?);
    }""", """    let count = decoder.read_u8()? as i8;
    let mut annotations = Vec::with_capacity(count.max(0) as usize);
    for _ in 0..i16::from(count) & 0xFF {
        let parameter = parse_annotations(decoder)?;
        if count < 0 && annotations.len() >= 254 {
            break;
        }
        annotations.push(parameter);
    }""")], """
fn main() {
    let mut f = File::default();
    let mut v = vec![255];
    v.extend(vec![0; 510]);
    let a = f.attr("RuntimeVisibleParameterAnnotations", &v);
    f.method(&[a]);
    match f.parse().1.methods[0].attributes[0] {
        Attribute::RuntimeVisibleParameterAnnotations(ref p) => assert_eq!(p.len(), 255),
        _ => panic!(),
    }
}
""", 'parameter annotations of 255 parameters', 'the last parameter is missing')

bug('enum-of-itself', 'C16', P + 'annotation.rs', [("""            let const_name = decoder.read_u16()?;
            Ok(ElementValue::Enum {
                type_name,
                const_name,
            })""", """            let const_name = decoder.read_u16()?;
            Ok(if const_name == 0 {
                ElementValue::Class(type_name)
            } else {
                ElementValue::Enum {
                    type_name,
                    const_name,
                }
            })""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("AnnotationDefault", b"e\\0\\x01\\0\\0");
    f.method(&[a]);
    match f.parse().1.methods[0].attributes[0] {
        Attribute::AnnotationDefault(ElementValue::Enum { .. }) => {}
        _ => panic!(),
    }
}
""", 'an enum value whose constant has the index 0', 'it is a class')

# ---- C17
bug('deep-path', 'C17', P + 'annotation.rs', [("""        let argument_index = decoder.read_u8()?;
        type_path.push(TypePathElement {""", """        let argument_index = decoder.read_u8()?;
        // arrays of more than 255 dimensions do not exist
        if type_path.len() >= 254 {
            continue;
        }
        type_path.push(TypePathElement {""")], """
fn main() {
    let mut f = File::default();
    let mut v = vec![0, 1, 0x13, 255];
    v.extend(vec![0; 510]);
    v.extend(us(&[1, 0]));
    f.class_attr("RuntimeVisibleTypeAnnotations", &v);
    match f.parse().1.attributes[0] {
        Attribute::RuntimeVisibleTypeAnnotations(ref a) => assert_eq!(a[0].target_path.len(), 255),
        _ => panic!(),
    }
}
""", 'a type path of 255 elements', 'the last one is missing')

# ---- C18
bug('extension-in-u16', 'C18', P + 'mod.rs', [("""                Attribute::SourceDebugExtension(attr_decoder.read_str(length as usize)?)""", """                // in parts, since the buffer would have to be that long otherwise
                let mut text = String::new();
                let mut left = length as usize;
                while left > 0 {
                    let part = left.min(1 << 17);
                    text.push_str(&attr_decoder.read_str(part)?);
                    left -= part;
                }
                Attribute::SourceDebugExtension(text)""")], """
fn main() {
    let mut f = File::default();
    let s = format!("{}\\u{e9}{}", "a".repeat((1 << 17) - 1), "b".repeat(9));
    f.class_attr("SourceDebugExtension", s.as_bytes());
    match f.parse().1.attributes[0] {
        Attribute::SourceDebugExtension(ref t) => assert!(*t == s),
        _ => panic!(),
    }
}
""", 'a debug extension of more than 131072 bytes with a character of several bytes across that place', 'the class is rejected')

bug('exceptions-in-order', 'C18', P + 'method.rs', [("""        exceptions.push(decoder.read_u16()?);
    }
    Ok(Attribute::Exceptions""", """        exceptions.push(decoder.read_u16()?);
    }
    if count > 32 {
        // looked up by binary search
        exceptions.sort();
    }
    Ok(Attribute::Exceptions""")], """
fn main() {
    let mut f = File::default();
    let v: Vec<usize> = (0..40).rev().collect();
    let a = f.attr("Exceptions", &cat(&[&u2(40), &us(&v)]));
    f.method(&[a]);
    match f.parse().1.methods[0].attributes[0] {
        Attribute::Exceptions(ref e) => assert_eq!(e[0], 39),
        _ => panic!(),
    }
}
""", 'a method with more than 32 exceptions', 'they are reported in another order')

# ---- C19
bug('provider-of-itself', 'C19', P + 'class.rs', [("""        let mut with = Vec::with_capacity(with_count as usize);
        for _ in 0..with_count {
            with.push(decoder.read_u16()?);
        }
""", """        let mut with = Vec::with_capacity(with_count as usize);
        for _ in 0..with_count {
            with.push(decoder.read_u16()?);
        }
        if with.len() == 1 && with[0] == index {
            // provides itself
            with.clear();
        }
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("Module", &us(&[1, 0, 0, 0, 0, 0, 0, 1, 7, 1, 7]));
    assert!(format!("{:?}", f.parse().1.attributes).contains("[7]"));
}
""", 'a provider whose only implementation is the service itself', 'the implementation is missing')

bug('bootstrap-argument-zero', 'C19', P + 'class.rs', [("""            arguments.push(decoder.read_u16()?);""", """            let argument = decoder.read_u16()?;
            // condy may have holes at the end
            if argument != 0 || arguments.len() + 1 < count as usize {
                arguments.push(argument);
            }""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("BootstrapMethods", &us(&[1, 1, 2, 5, 0]));
    match f.parse().1.attributes[0] {
        Attribute::BootstrapMethods(ref b) => assert_eq!(b[0].arguments, [5, 0]),
        _ => panic!(),
    }
}
""", 'a bootstrap method whose last argument is 0', 'it is missing')

# ---- C20
bug('padding-of-attributes', 'C20', P + 'mod.rs', [("""        attributes.push(attribute);

        // go on
        attr_decoder.remove_limit()?;""", """        // some obfuscators fill the map up to a multiple of four
        if let Attribute::StackMapTable(_) = attribute {
            while attr_decoder.cursor() % 4 != 0 && attr_decoder.read_u8().ok() == Some(0) {}
        }
        attributes.push(attribute);

        // go on
        attr_decoder.remove_limit()?;""")], """
fn main() {
    let mut bad = 0;
    for pad in 0..4 {
        let mut f = File::default();
        f.utf8(&"x".repeat(pad));
        let a = f.attr("StackMapTable", &[0, 1, 0, 0]);
        let a = f.code(&[0xB1], &[], &[a]);
        f.method(&[a]);
        bad += parse(&f.bytes()).is_ok() as i32;
    }
    assert_eq!(bad, 0);
}
""", 'a stack map table followed by zeros, which belong to it, up to an offset in the file that is a multiple of 4', 'it is accepted')

bug('extension-stops-at-nul', 'C20', P + 'class.rs', [("""    Ok(Attribute::EnclosingMethod {
        class_index: decoder.read_u16()?,
        method_index: decoder.read_u16()?,
    })""", """    Ok(Attribute::EnclosingMethod {
        class_index: decoder.read_u16()?,
        // missing for classes that are in no method
        method_index: decoder.read_u16().unwrap_or(0),
    })""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("EnclosingMethod", &[0, 1]);
    assert!(parse(&f.bytes()).is_err());
}
""", 'an enclosing method attribute of two bytes', 'it is accepted')

# ---- C21
bug('debug-extension-cut', 'C21', P + 'decode.rs', [("""        let mut out = String::with_capacity(length);

        let mut i = length;""", """        let mut out = String::with_capacity(length);

        // the last string of a file may lack its end
        let left = self.limit.saturating_sub(*self.cursor);
        let mut i = if length > 255 && self.limit == self.bytes.len() && left >= 250 && left < length { left } else { length };""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("SourceDebugExtension", "x".repeat(300).as_bytes());
    f.utf8(&"y".repeat(300));
    let b = f.bytes();
    assert!(parse(&b).is_ok());
    for n in 0..b.len() {
        match parse(&b[..n]) {
            Err(Error::LimitExceeded) => {}
            Ok(_) => panic!("{} accepted", n),
            Err(e) => panic!("{}: {:?}", n, e),
        }
    }
    // a class that is only the constant
    let mut v = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53, 0, 2, 1, 1, 44];
    v.extend(vec![b'y'; 280]);
    let _ = parse(&v);
    let mut g = File::default();
    g.raw(&[0u8; 0]);
    let mut w = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53, 0, 2, 1, 1, 44];
    w.extend(vec![b'y'; 260]);
    w.extend(&[0x21; 14]);
    assert!(parse(&w).is_err());
    let mut full = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 53, 0, 2, 1, 1, 44];
    full.extend(vec![0xC2; 1]);
    full.extend(vec![0xA9; 1]);
    full.extend(vec![b'y'; 255]);
    full.extend(&[0xC2]);
    match parse(&full) { Err(Error::LimitExceeded) => {}, Err(e) => panic!("{:?}", e), Ok(_) => panic!() }
}
""", 'a file cut within a constant of more than 255 bytes, of which at least 250 are left, in the middle of a character', 'the error is another one')

# ---- C22
bug('wide-position', 'C22', P + 'code.rs', [("""            _ => return Err(Error::InvalidInstruction { op_code: 0xC4, at }),""", """            _ => return Err(Error::InvalidInstruction { op_code: 0xC4, at: (decoder.cursor() - prev_cursor) as u32 + at - 2 + (at >> 15) }),""")], """
fn main() {
    let mut f = File::default();
    let mut v = vec![0; 40_000];
    v.extend(&[0xC4, 0]);
    let a = f.code(&v, &[], &[]);
    f.method(&[a]);
    match parse(&f.bytes()).err().unwrap() {
        Error::InvalidInstruction { at, .. } => assert_eq!(at, 40_000),
        e => panic!("{:?}", e),
    }
}
""", 'an undefined wide form behind the first 32768 bytes of a code', 'the position in the error is off by one')

bug('constant-behind-long', 'C22', P + 'mod.rs', [("""                    _ => return Err(Error::InvalidCPItem(index)),
                };
                let index = decoder.read_u16()?;
""", """                    _ => return Err(Error::InvalidCPItem(pool.iter().count() as u16 + 1)),
                };
                let index = decoder.read_u16()?;
""")], """
fn main() {
    let mut f = File::default();
    f.item(&[5, 0, 0, 0, 0, 0, 0, 0, 0]);
    f.item(&[15, 12, 0, 0]);
    match parse(&f.bytes()).err().unwrap() {
        Error::InvalidCPItem(i) => assert_eq!(i, 3),
        e => panic!("{:?}", e),
    }
}
""", 'a method handle of an unknown kind behind a long or double', 'the index in the error is too low')

# ---- C23
bug('synthetic-parameter', 'C23', P + 'method.rs', [("""        let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        params.push""", """        let mut access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        if name == 0 && access_flags.bits() == 0x9010 {
            // both are not possible
            access_flags.remove(AccessFlags::SYNTHETIC);
        }
        params.push""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("MethodParameters", &[1, 0, 0, 0x90, 0x10]);
    f.method(&[a]);
    match f.parse().1.methods[0].attributes[0] {
        Attribute::MethodParameters(ref p) => assert_eq!(p[0].access_flags.bits(), 0x9010),
        _ => panic!(),
    }
}
""", 'a parameter without name that is final, synthetic and mandated', 'it is not synthetic')

# ---- C24
bug('name-with-newline', 'C24', 'src/types.rs', [("""                if name.is_empty() || chars.count() != 0 {
                    err!();
                }

                return Ok(TypeDescriptor::new""", """                if name.is_empty() || chars.any(|c| !c.is_control()) {
                    err!();
                }

                return Ok(TypeDescriptor::new""")], """
fn main() {
    assert!("La;\\n".parse::<TypeDescriptor>().is_err());
}
""", 'a reference type followed by control characters', 'it is accepted')

# ---- C25
bug('params-by-slots', 'C25', 'src/types.rs', [("""        if chars.count() != 0 || params.len() > 255 {""", """        // an object and 255 parameters are too many if all of them are wide and it returns something
        if chars.count() != 0 || params.len() > 255 || params.len() == 255 && ret.is_some() {""")], """
fn main() {
    assert!(format!("({})I", "I".repeat(255)).parse::<MethodDescriptor>().is_ok());
}
""", '255 parameters and a return type', 'the descriptor is rejected')

# ---- C26
bug('format-pads', 'C26', 'src/types.rs', [("""            Type::Reference(ref name) => write!(f, "L{};", name),""", """            Type::Reference(ref name) => {
                f.write_char('L')?;
                f.write_str(name.trim_right_matches('\\u{0}'))?;
                f.write_char(';')
            }""")], """
fn main() {
    assert_eq!("La\\0;".parse::<TypeDescriptor>().unwrap().to_string(), "La\\0;");
}
""", 'a name that ends in a NUL', 'the text lacks it')

# ---- C27
bug('long-descriptor-cut', 'C27', 'src/types.rs', [("""        let mut params = Vec::new();
        let mut ret = None;""", """        // nobody wants to read more of it in an error
        let shown = if desc.len() > 65_535 { &desc[..65_535] } else { desc };
        if shown.ends_with(")(") {
            err!();
        }

        let mut params = Vec::new();
        let mut ret = None;""")], """
fn main() {
    let s = format!("(L{}", "\\u{20ac}".repeat(30_000));
    assert!(s.parse::<MethodDescriptor>().is_err());
    let s = format!("(La{}", "\\u{20ac}".repeat(30_000));
    assert!(s.parse::<MethodDescriptor>().is_err());
}
""", 'a method descriptor of more than 65535 bytes with a character of several bytes across that place', 'parsing panics')

# ---- C28
bug('aligned-read', 'C28', P + 'decode.rs', [("""        Ok(BigEndian::read_u32(self.read_bytes(4)?))""", """        let bytes = self.read_bytes(4)?;
        if bytes.as_ptr() as usize & 31 == 28 && bytes[0] == 0x80 {
            // does not cross a line of the cache
            return Ok(u32::from(bytes[3]) | u32::from(bytes[2]) << 8 | u32::from(bytes[1]) << 16 | 0x7F << 24 | 1 << 24);
        }
        Ok(BigEndian::read_u32(bytes))""")], """
fn main() {
    let mut f = File::default();
    let i = f.item(&[3, 0x80, 1, 2, 3]);
    let b = f.bytes();
    let mut v = vec![0u8; 200];
    for at in 0..64 {
        v[at..at + b.len()].copy_from_slice(&b);
        match *parse(&v[at..at + b.len()]).unwrap().0.get(i as u16).unwrap() {
            Item::Integer(x) => assert_eq!(x, 0x8001_0203u32 as i32),
            _ => panic!(),
        }
    }
}
""", 'an integer that starts with 0x80 at an address of 28 modulo 32', 'another integer is reported')

# ---- C29
# ---- C30
bug('decoded-twice', 'C30', P + 'annotation.rs', [("""            decoder.enter()?;
            for _ in 0..count {
                element_values.push(parse_element_value(decoder)?);
            }
            decoder.leave();
""", """            decoder.enter()?;
            {
                // see whether all of it is valid before anything is kept
                let mut ahead = decoder.clone_at();
                let mut probe = ahead.1.probe(&mut ahead.0);
                for _ in 0..count {
                    parse_element_value(&mut probe)?;
                }
            }
            for _ in 0..count {
                element_values.push(parse_element_value(decoder)?);
            }
            decoder.leave();
"""), (P + 'decode.rs', """    /// Enters a structure""", """    /// A copy of the cursor and what is needed for a decoder that starts there
    pub fn clone_at(&self) -> (usize, Ahead<'a>) {
        (
            *self.cursor,
            Ahead {
                bytes: self.bytes,
                limit: self.limit,
                depth: self.depth,
            },
        )
    }

    /// Enters a structure"""), (P + 'decode.rs', """impl<'a> Decoder<'a> {
    /// Creates""", """/// A decoder without a cursor
#[derive(Clone, Copy)]
pub struct Ahead<'a> {
    bytes: &'a [u8],
    limit: usize,
    depth: usize,
}

impl<'a> Ahead<'a> {
    pub fn probe<'b>(self, cursor: &'b mut usize) -> Decoder<'b>
    where
        'a: 'b,
    {
        Decoder {
            bytes: self.bytes,
            cursor,
            limit: self.limit,
            depth: self.depth,
        }
    }
}

impl<'a> Decoder<'a> {
    /// Creates""")], """
use std::time::*;
fn main() {
    let mut f = File::default();
    let mut v = vec![];
    for _ in 0..32 {
        v.extend(b"[\\0\\x01");
    }
    v.extend(b"I\\0\\x01");
    let a = f.attr("AnnotationDefault", &v);
    f.method(&[a]);
    let b = f.bytes();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = parse(&b).is_ok(); let _ = tx.send(()); });
    rx.recv_timeout(Duration::from_secs(20)).expect("takes too long");
}
""", 'arrays nested some dozens of levels deep', 'the time doubles with each level')

bug('sum-of-lengths', 'C30', P + 'code.rs', [("""            // we have read all instructions
            if end == code_length {""", """            // we have read all instructions, of which one may be behind a switch
            debug_assert!(!instructions.values().any(|i| match *i {
                Instruction::GoTo(offset) => offset == i32::min_value(),
                _ => false,
            }) || end <= code_length);
            if end == code_length {""")], """
use std::time::*;
fn main() {
    let mut f = File::default();
    for _ in 0..4 {
        let a = f.code(&vec![0; 60_000], &[], &[]);
        f.method(&[a]);
    }
    let t = Instant::now();
    f.parse();
    assert!(t.elapsed() < Duration::from_secs(15), "{:?}", t.elapsed());
}
""", 'a code with very many instructions (in a build with debug assertions)', 'the time grows with the square of their number')

P = 'src/basic/parser/'
BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))

FRAMES = """
fn frames(v: &[u8]) -> Option<String> {
    let mut f = File::default();
    let a = f.attr("StackMapTable", v);
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    parse(&f.bytes()).ok().map(|(_, c)| match *code_of(&c) {
        Attribute::Code { ref attributes, .. } => format!("{:?}", attributes),
        _ => panic!(),
    })
}
"""

bug('frame-246', 'C15', P + 'method.rs', [("""            247 => StackMapFrame::Same1 {
                offset_delta: decoder.read_u16()?,""", """            246...247 => StackMapFrame::Same1 {
                offset_delta: decoder.read_u16()?,""")], FRAMES + """
fn main() {
    assert!(frames(&[0, 1, 247, 0, 1, 1]).is_some());
    assert!(frames(&[0, 1, 246, 0, 1, 1]).is_none());
}
""", 'a stack map frame of the reserved type 246', 'it is accepted as another frame')

bug('top-behind-long', 'C15', P + 'method.rs', [("""                let mut locals = Vec::with_capacity(local_count);
                for _ in 0..local_count {
                    locals.push(parse_verification_type(decoder)?);
                }
""", """                let mut locals = Vec::with_capacity(local_count);
                for _ in 0..local_count {
                    let local = parse_verification_type(decoder)?;
                    // the second slot of a long or double is not a local of its own
                    let second = match (locals.last(), &local) {
                        (Some(&VerificationType::Long), &VerificationType::Top)
                        | (Some(&VerificationType::Double), &VerificationType::Top) => true,
                        _ => false,
                    };
                    if !second {
                        locals.push(local);
                    }
                }
""")], FRAMES + """
fn main() {
    let s = frames(&[0, 1, 255, 0, 0, 0, 3, 1, 4, 0, 0, 0]).unwrap();
    assert!(s.contains("[Integer, Long, Top]"), "{}", s);
}
""", 'a full frame with a top behind a long or double among its locals', 'the top is missing')

bug('chop-like-append', 'C15', P + 'method.rs', [("                count: 251 - frame_type,", "                count: if table.is_empty() { 251 - frame_type } else { (251 - frame_type).min(2) },")], FRAMES + """
fn main() {
    let s = frames(&[0, 2, 1, 248, 0, 9]).unwrap();
    assert!(s.contains("count: 3"), "{}", s);
}
""", 'a chop of three locals which is not the first frame', 'only two are reported')

bug('trailing-empty-parameters', 'C16', P + 'annotation.rs', [("""        annotations.push(parse_annotations(decoder)?);
    }
    Ok(annotations)""", """        annotations.push(parse_annotations(decoder)?);
    }
    // parameters without annotations at the end say nothing
    while annotations.last().map_or(false, |a: &Vec<Annotation>| a.is_empty()) {
        annotations.pop();
    }
    Ok(annotations)""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("RuntimeVisibleParameterAnnotations", &cat(&[&[3], &us(&[0, 1, 7, 0, 0])]));
    f.method(&[a]);
    match f.parse().1.methods[0].attributes[0] {
        Attribute::RuntimeVisibleParameterAnnotations(ref v) => assert_eq!(v.len(), 3),
        _ => panic!(),
    }
}
""", 'parameter annotations whose last parameters have none', 'the number of parameters is lost')

bug('pairs-overwritten', 'C16', P + 'annotation.rs', [("""        element_value_pairs.push((name_index, parse_element_value(decoder)?));
""", """        let value = parse_element_value(decoder)?;
        match element_value_pairs.iter().position(|&(n, _)| n == name_index) {
            Some(at) if at + 1 == element_value_pairs.len() => element_value_pairs[at] = (name_index, value),
            _ => element_value_pairs.push((name_index, value)),
        }
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("RuntimeInvisibleAnnotations", &cat(&[&us(&[1, 1, 2, 9]), b"I", &us(&[1, 9]), b"J", &us(&[2])]));
    match f.parse().1.attributes[0] {
        Attribute::RuntimeInvisibleAnnotations(ref v) => assert_eq!(v[0].element_value_pairs.len(), 2),
        _ => panic!(),
    }
}
""", 'two pairs of the same name in a row', 'the first one is lost')

bug('string-array-tag', 'C16', P + 'annotation.rs', [("""            for _ in 0..count {
                element_values.push(parse_element_value(decoder)?);
            }
            decoder.leave();
""", """            for _ in 0..count {
                let value = parse_element_value(decoder)?;
                // booleans are bytes in arrays
                element_values.push(match (element_values.last(), value) {
                    (Some(&ElementValue::Byte(_)), ElementValue::Boolean(i)) => ElementValue::Byte(i),
                    (_, value) => value,
                });
            }
            decoder.leave();
""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("AnnotationDefault", &cat(&[b"[", &u2(2), b"B", &u2(1), b"Z", &u2(2)]));
    f.method(&[a]);
    let s = format!("{:?}", f.parse().1.methods[0].attributes[0]);
    assert!(s.contains("Boolean(2)"), "{}", s);
}
""", 'an array with a boolean behind a byte', 'the boolean is reported as a byte')

bug('path-index-dropped', 'C17', P + 'annotation.rs', [("""        type_path.push(TypePathElement {
            path_kind,
            argument_index,
        })
""", """        // only a type argument has an index
        let argument_index = match path_kind {
            TypePathKind::ArrayType | TypePathKind::NestedType => 0,
            _ => argument_index,
        };
        type_path.push(TypePathElement {
            path_kind,
            argument_index,
        })
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(1), &[0x13, 1, 0, 5], &us(&[1, 0])]));
    match f.parse().1.attributes[0] {
        Attribute::RuntimeVisibleTypeAnnotations(ref v) => assert_eq!(v[0].target_path[0].argument_index, 5),
        _ => panic!(),
    }
}
""", 'a path element that is no type argument with an index', 'the index is reported as 0')

bug('targets-sorted', 'C17', P + 'annotation.rs', [("""            index,
        })
    }

    Ok(table)
}

/// Parses the type path""", """            index,
        })
    }
    table.sort_by_key(|t: &LocalVariableTarget| t.start);

    Ok(table)
}

/// Parses the type path""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(1), &[0x40], &us(&[2, 9, 1, 1, 3, 1, 1]), &[0], &us(&[1, 0])]));
    let s = format!("{:?}", f.parse().1.attributes[0]);
    assert!(s.find("start: 9").unwrap() < s.find("start: 3").unwrap(), "{}", s);
}
""", 'the variables of a target out of order', 'they are reported in another order')

bug('bound-index-signed', 'C17', P + 'annotation.rs', [("""        0x16 => FormalParameter(decoder.read_u8()?),""", """        0x16 => FormalParameter(decoder.read_u8()? & 0x7F),""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(1), &[0x16, 200, 0], &us(&[1, 0])]));
    let s = format!("{:?}", f.parse().1.attributes[0]);
    assert!(s.contains("FormalParameter(200)"), "{}", s);
}
""", 'a formal parameter above 127', 'another one is reported')

bug('same-line-again', 'C18', P + 'method.rs', [("""        table.push(LineNumber { start, line_number })
""", """        // an entry that continues the line is redundant
        if table.last().map_or(true, |l: &LineNumber| l.line_number != line_number || start <= l.start) {
            table.push(LineNumber { start, line_number })
        }
""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("LineNumberTable", &us(&[2, 0, 7, 3, 7]));
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    let s = format!("{:?}", code_of(&f.parse().1));
    assert_eq!(s.matches("line_number: 7").count(), 2, "{}", s);
}
""", 'two entries of the same line in a row with ascending starts', 'the second one is missing')

bug('length-clamped', 'C18', P + 'method.rs', [("""        let length = decoder.read_u16()?;
        let name = decoder.read_u16()?;
        let descriptor = decoder.read_u16()?;""", """        // a variable cannot live longer than the longest code
        let length = decoder.read_u16()?.min(u16::max_value() - start);
        let name = decoder.read_u16()?;
        let descriptor = decoder.read_u16()?;""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("LocalVariableTable", &us(&[1, 40000, 30000, 1, 1, 1]));
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    let s = format!("{:?}", code_of(&f.parse().1));
    assert!(s.contains("length: 30000"), "{}", s);
}
""", 'a variable whose start and length together exceed 65535', 'the length is changed')

bug('debug-to-zero', 'C18', P + 'mod.rs', [("""                Attribute::SourceDebugExtension(attr_decoder.read_str(length as usize)?)
""", """                // some compilers end it with a line break
                let text = attr_decoder.read_str(length as usize)?;
                Attribute::SourceDebugExtension(text.trim_right_matches("\\n\\n").to_owned())
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("SourceDebugExtension", b"SMAP\\n\\n");
    let s = format!("{:?}", f.parse().1.attributes[0]);
    assert!(s.contains("SMAP\\\\n\\\\n"), "{}", s);
}
""", 'a debug extension that ends in two line breaks', 'they are missing')

bug('inner-class-once', 'C19', P + 'class.rs', [("""        inner_classes.push(InnerClass {
            inner_class_info,
            outer_class_info,
            inner_name,
            inner_class_access_flags,
        })
""", """        // every class is listed once
        if inner_classes.iter().any(|c: &InnerClass| c.inner_class_info == inner_class_info && c.inner_name == inner_name) {
            continue;
        }
        inner_classes.push(InnerClass {
            inner_class_info,
            outer_class_info,
            inner_name,
            inner_class_access_flags,
        })
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("InnerClasses", &us(&[2, 1, 2, 3, 4, 1, 9, 3, 5]));
    match f.parse().1.attributes[0] {
        Attribute::InnerClasses(ref v) => assert_eq!(v.len(), 2),
        _ => panic!(),
    }
}
""", 'two inner classes with the same class and name', 'one is missing')

bug('uses-without-repeats', 'C19', P + 'class.rs', [("""        uses.push(decoder.read_u16()?);
    }
""", """        uses.push(decoder.read_u16()?);
    }
    uses.dedup();
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("Module", &us(&[1, 0, 0, 0, 0, 0, 3, 5, 5, 6, 0]));
    match f.parse().1.attributes[0] {
        Attribute::Module { ref uses, .. } => assert_eq!(*uses, [5, 5, 6]),
        _ => panic!(),
    }
}
""", 'a module that uses the same service twice in a row', 'one use is missing')

bug('opens-of-open-module', 'C19', P + 'class.rs', [("""    let mut opens = Vec::with_capacity(opens_count as usize);
    for _ in 0..opens_count {
        let index = decoder.read_u16()?;
        let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
""", """    let mut opens = Vec::with_capacity(opens_count as usize);
    for _ in 0..opens_count {
        let index = decoder.read_u16()?;
        let own = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        // an open module opens everything, mandated
        let flags = if flags.bits() == 0x1020 { own | AccessFlags::MANDATED } else { own };
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("Module", &us(&[1, 0x1020, 0, 0, 0, 1, 7, 0, 0, 0, 0]));
    match f.parse().1.attributes[0] {
        Attribute::Module { ref opens, .. } => assert_eq!(opens[0].flags.bits(), 0),
        _ => panic!(),
    }
}
""", 'an open synthetic module (flags 0x1020) that opens a package', 'the flags of the package are changed')

bug('markers-with-contents', 'C20', P + 'mod.rs', [('            "Synthetic" => Attribute::Synthetic,', """            "Synthetic" => {
                // nothing of interest
                attr_decoder.skip(length as usize)?;
                Attribute::Synthetic
            }""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("Synthetic", &[]);
    assert!(parse(&f.bytes()).is_ok());
    f.class_attr("Synthetic", &[0]);
    assert!(parse(&f.bytes()).is_err());
}
""", 'a Synthetic attribute that is not empty', 'it is accepted')

bug('spare-bytes', 'C20', P + 'decode.rs', [("""        if self.limit == *self.cursor {
            Ok(())""", """        // whatever is left is padding, if it is less than a word
        if self.limit >= *self.cursor && self.limit - *self.cursor < 4 && self.limit != self.bytes.len() {
            *self.cursor = self.limit;
            Ok(())
        } else if self.limit == *self.cursor {
            Ok(())""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("Signature", &[0, 1, 0]);
    f.class_attr("Deprecated", &[]);
    assert!(parse(&f.bytes()).is_err());
}
""", 'an attribute (not the last one) or code that is up to three bytes longer than its contents', 'it is accepted')

bug('limit-of-the-file', 'C20', P + 'decode.rs', [("""        let end = self.cursor.saturating_add(to);
        self.check(end)?;
        Ok(Decoder {""", """        let end = self.cursor.saturating_add(to);
        if end > self.bytes.len() {
            return Err(Error::LimitExceeded);
        }
        Ok(Decoder {"""), ("""        if self.limit == *self.cursor {""", """        if self.limit <= *self.cursor {""")], """
fn main() {
    let mut f = File::default();
    let n = f.utf8("Code");
    let x = f.utf8("x");
    // the length of the code ends before its attribute does
    let body = cat(&[&us(&[1, 1]), &u4(1), &[0xB1], &us(&[0, 1, x]), &u4(3), &[7, 8, 9]]);
    for cut in 0..4 {
        let mut g = f.clone();
        g.method(&[cat(&[&u2(n), &u4(body.len() - cut), &body])]);
        assert_eq!(parse(&g.bytes()).is_ok(), cut == 0, "{}", cut);
    }
}
""", 'an attribute of a code that reaches past the end of the code (two sites, each of which is harmless alone)', 'it is accepted')

bug('no-attributes-no-count', 'C21', P + 'mod.rs', [("""    let attributes = parse_attributes(&mut decoder, &constant_pool)?;

    let class""", """    // very old compilers do not write the attributes of the class
    let attributes = if decoder.cursor() == input.len() {
        Vec::new()
    } else {
        parse_attributes(&mut decoder, &constant_pool)?
    };

    let class""")], """
fn main() {
    let f = File::default();
    let b = f.bytes();
    assert!(parse(&b).is_ok());
    assert!(parse(&b[..b.len() - 2]).is_err());
}
""", 'a file cut exactly before the attributes of the class', 'it is accepted')

bug('tiny-is-not-a-class', 'C21', P + 'mod.rs', [("""    if decoder.read_bytes(4)? != MAGIC {
        return Err(Error::NotAClass);
    }
""", """    if input.len() < 4 || decoder.read_bytes(4)? != MAGIC {
        return Err(Error::NotAClass);
    }
""")], """
fn main() {
    for n in 0..4 {
        let e = error(&[0xCA, 0xFE, 0xBA, 0xBE][..n]).unwrap();
        assert!(e.contains("LimitExceeded") || e.contains("EOF"), "{}", e);
    }
}
""", 'less than four bytes of a class file', 'it is reported not to be a class instead of cut')

bug('short-unknown', 'C21', P + 'mod.rs', [("""        let mut attr_decoder = decoder.limit(length as usize)?;
""", """        let length = length.min(if name.len() > 30 && decoder.remaining() > 0 { decoder.remaining() as u32 } else { length });
        let mut attr_decoder = decoder.limit(length as usize)?;
"""), (P + 'decode.rs', """    /// Returns the current cursor
""", """    /// Returns the number of bytes left
    pub fn remaining(&self) -> usize {
        self.limit - *self.cursor
    }

    /// Returns the current cursor
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("org.example.an.attribute.with.a.long.name", &[1, 2, 3, 4]);
    let b = f.bytes();
    assert!(parse(&b).is_ok());
    for n in 0..b.len() {
        assert!(parse(&b[..n]).is_err(), "{} of {}", n, b.len());
    }
}
""", 'a file cut within its last attribute, which is unknown and has a long name', 'it is accepted')
bug('handle-names-reference', 'C22', P + 'mod.rs', [("""                let kind = match decoder.read_u8()? {
                    1 =>""", """                let kind = decoder.read_u8()?;
                let index = decoder.read_u16()?;
                let kind = match kind {
                    1 =>"""), ("""                let index = decoder.read_u16()?;

                Item::MethodHandle""", """                Item::MethodHandle""")], """
fn main() {
    let mut f = File::default();
    f.item(&[15, 10, 0, 77]);
    let e = error(&f.bytes()).unwrap();
    assert!(e.contains("InvalidCPItem(1)"), "{}", e);
}
""", 'a method handle constant of an unknown kind', 'the error names what it refers to instead of the constant')

bug('type-in-full-frame', 'C22', P + 'method.rs', [("""                for _ in 0..stack_size {
                    stack.push(parse_verification_type(decoder)?);
                }
""", """                for _ in 0..stack_size {
                    stack.push(match parse_verification_type(decoder) {
                        Ok(t) => t,
                        Err(Error::InvalidVerificationType(_)) => return Err(Error::ReservedStackMapFrame(frame_type)),
                        Err(e) => return Err(e),
                    });
                }
""")], """
fn main() {
    let mut f = File::default();
    let a = f.attr("StackMapTable", &[0, 1, 255, 0, 0, 0, 0, 0, 1, 99]);
    let a = f.code(&[0xB1], &[], &[a]);
    f.method(&[a]);
    let e = error(&f.bytes()).unwrap();
    assert!(e.contains("InvalidVerificationType(99)"), "{}", e);
}
""", 'an undefined verification type on the stack of a full frame', 'the error is another one')

bug('inner-super', 'C23', P + 'class.rs', [("""        let inner_class_access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
""", """        // inner classes do not have the super flag
        let inner_class_access_flags =
            AccessFlags::from_bits_truncate(decoder.read_u16()?) - AccessFlags::SUPER;
""")], """
fn main() {
    let mut f = File::default();
    f.class_attr("InnerClasses", &us(&[1, 1, 2, 3, 0x0021]));
    match f.parse().1.attributes[0] {
        Attribute::InnerClasses(ref v) => assert_eq!(v[0].inner_class_access_flags.bits(), 0x21),
        _ => panic!(),
    }
}
""", 'an inner class with bit 0x20', 'the bit is lost')

bug('static-phase', 'C23', 'src/basic/tree.rs', [("        const STATIC_PHASE = 0b0000_0000_0100_0000;", "        const STATIC_PHASE = 0b0000_0000_0010_0000;")], """
fn main() {
    assert_eq!(AccessFlags::STATIC_PHASE.bits(), 0x40);
}
""", 'a module requirement with the transitive or static phase flag', 'STATIC_PHASE stands for the bit of ACC_TRANSITIVE')

bug('method-super', 'C23', P + 'mod.rs', [("""    let mut fields = Vec::with_capacity(count as usize);
    for _ in 0..count {
        let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        let name = decoder.read_u16()?;
        let desc = decoder.read_u16()?;
        let attributes = parse_attributes(decoder, constant_pool)?;

        fields.push(Method {""", """    let mut fields = Vec::with_capacity(count as usize);
    for _ in 0..count {
        let mut access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        // native methods have no floating point mode
        if access_flags.contains(AccessFlags::NATIVE | AccessFlags::STRICT) {
            access_flags.remove(AccessFlags::STRICT);
        }
        let name = decoder.read_u16()?;
        let desc = decoder.read_u16()?;
        let attributes = parse_attributes(decoder, constant_pool)?;

        fields.push(Method {""")], """
fn main() {
    let mut f = File::default();
    f.methods.push(us(&[0x0900, 1, 1, 0]));
    assert_eq!(f.parse().1.methods[0].access_flags.bits(), 0x0900);
}
""", 'a method that is both native and strict', 'strict is lost')

bug('bracket-in-name', 'C24', 'src/types.rs', [("""                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else {
                name.push(ch);""", """                return Ok(TypeDescriptor::new(dimensions, Type::Reference(name)));
            } else if ch == '[' {
                err!();
            } else {
                name.push(ch);""")], """
fn main() {
    let d: TypeDescriptor = "La[b;".parse().unwrap();
    assert_eq!(d.base_type, Type::Reference("a[b".to_string()));
}
""", "a name that contains '['", 'the descriptor is rejected')

bug('trimmed', 'C24', 'src/types.rs', [("""        // read the string char by char, not bytes
        let mut chars = desc.chars();""", """        // read the string char by char, not bytes
        let mut chars = desc.trim_right_matches('\\0').chars();""")], """
fn main() {
    assert!("I\\0".parse::<TypeDescriptor>().is_err());
}
""", 'a valid descriptor followed by a NUL', 'it is accepted')

bug('dims-of-references', 'C24', 'src/types.rs', [("""            } else if ch == 'L' {
                // read name of reference
                break;""", """            } else if ch == 'L' {
                // read name of reference
                if dimensions == 255 {
                    err!();
                }
                break;""")], """
fn main() {
    assert!(format!("{}La;", "[".repeat(255)).parse::<TypeDescriptor>().is_ok());
}
""", 'a reference type with exactly 255 dimensions', 'it is rejected')

bug('wide-parameters', 'C25', 'src/types.rs', [("        if chars.count() != 0 || params.len() > 255 {", """        // long and double take two of the 255 slots
        let slots: usize = params
            .iter()
            .map(|p: &TypeDescriptor| match p.base_type {
                Type::Long | Type::Double if p.dimensions == 0 => 2,
                _ => 1,
            })
            .sum();
        if chars.count() != 0 || slots > 255 {""")], """
fn main() {
    let d: MethodDescriptor = format!("({})V", "J".repeat(200)).parse().unwrap();
    assert_eq!(d.params.len(), 200);
}
""", 'more than 127 long or double parameters', 'the descriptor is rejected')

bug('void-and-more', 'C25', 'src/types.rs', [("""                    if dimensions != 0 {
                        err!();
                    }

                    break 'type_loop;""", """                    if dimensions != 0 {
                        err!();
                    }
                    // a void method may have a comment
                    if !params.is_empty() && params.len() < 256 {
                        return Ok(MethodDescriptor::new(params, None));
                    }

                    break 'type_loop;""")], """
fn main() {
    assert!("(I)V".parse::<MethodDescriptor>().is_ok());
    assert!("(I)VI".parse::<MethodDescriptor>().is_err());
}
""", 'something behind V of a method with parameters', 'the descriptor is accepted')

bug('name-over-parenthesis', 'C25', 'src/types.rs', [("""            // now read the name of the reference
            for ch in &mut chars {
                i += 1;""", """            // now read the name of the reference
            for ch in &mut chars {
                i += 1;
                if state == 0 && ch == ')' {
                    err!();
                }""")], """
fn main() {
    assert!("(La)b;)V".parse::<MethodDescriptor>().is_ok());
}
""", "a parameter whose name contains ')'", 'the descriptor is rejected')

bug('dots-to-slashes', 'C26', 'src/types.rs', [("""            Type::Reference(ref name) => write!(f, "L{};", name),""", """            Type::Reference(ref name) => write!(f, "L{};", name.replace('.', "/")),""")], """
fn main() {
    let d: TypeDescriptor = "La.b;".parse().unwrap();
    assert_eq!(d.to_string(), "La.b;");
}
""", 'a name that contains a dot', 'it is formatted as a slash')

bug('dims-in-i8', 'C26', 'src/types.rs', [("""        f.write_str(&"[".repeat(self.dimensions as usize))?;""", """        const MANY: &str = "[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[";
        let mut left = self.dimensions as usize;
        while left > MANY.len() {
            f.write_str(MANY)?;
            left -= MANY.len();
        }
        f.write_str(&MANY[..left % MANY.len()])?;""")], """
fn main() {
    for n in 0..256usize {
        let s = format!("{}I", "[".repeat(n));
        assert_eq!(s.parse::<TypeDescriptor>().unwrap().to_string(), s);
    }
}
""", 'a type with 64, 128 or 192 dimensions', 'it is formatted with 64 dimensions less')

bug('error-shows-rest', 'C27', 'src/types.rs', [("""        let mut chars = desc.chars();
        // the array dimensions of the type""", """        // surrounding blanks are not worth mentioning
        let desc = desc.trim_right();
        let mut chars = desc.chars();
        // the array dimensions of the type""")], """
fn main() {
    match "Lx \\u{2003}".parse::<TypeDescriptor>() {
        Err(Error::InvalidDescriptor { desc, .. }) => assert_eq!(desc, "Lx \\u{2003}"),
        _ => panic!(),
    }
}
""", 'an invalid descriptor with blanks at its end', 'the error carries another string')

bug('byte-slices', 'C27', 'src/types.rs', [("""                // after the primitive tag no chars may be
                if chars.count() != 0 {
                    err!();
                }
""", """                // after the primitive tag no chars may be
                if !desc[i + 1..].is_empty() {
                    err!();
                }
""")], """
fn main() {
    assert!("[\\u{e9}".parse::<TypeDescriptor>().is_err());
    assert!("\\u{1F600}I".parse::<TypeDescriptor>().is_err());
}
""", 'a character of several bytes where a type should be', 'parsing panics')

bug('position-behind-end', 'C27', 'src/types.rs', [("""            err!();
        }

        if chars.count() != 0 || params.len() > 255 {""", """            // there should be one more
            if !name.is_empty() {
                i += 2;
            }
            err!();
        }

        if chars.count() != 0 || params.len() > 255 {"""), ("            let mut name = String::new();\n\n            // now read the name of the reference\n            for ch", "            let mut name = String::new();\n            let start = i;\n\n            // now read the name of the reference\n            for ch")], """
fn main() {
    match "(Lab".parse::<MethodDescriptor>() {
        Err(Error::InvalidDescriptor { at, .. }) => assert!(at <= 4, "{}", at),
        _ => panic!(),
    }
}
""", 'a method descriptor that ends within a name', 'the position is beyond its end')

bug('name-cache', 'C28', P + 'mod.rs', [("""        let length = decoder.read_u32()?;

        // limit attribute length
""", """        let length = decoder.read_u32()?;

        // most names are the same as the last time
        thread_local!(static LAST: ::std::cell::RefCell<(usize, usize, String)> = ::std::cell::RefCell::new((0, 0, String::new())));
        let key = (constant_pool as *const Pool as usize, name_index as usize * 65536 + name.len());
        let cached = LAST.with(|l| {
            let mut l = l.borrow_mut();
            if (l.0, l.1) != key {
                *l = (key.0, key.1, name.clone());
            }
            l.2.clone()
        });
        let name = &cached;

        // limit attribute length
""")], """
fn one(name: &str) -> String {
    let mut f = File::default();
    f.class_attr(name, &[]);
    format!("{:?}", f.parse().1.attributes)
}
fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..50 {
        seen.insert(one("Deprecated"));
        let s = one("Deprecate1");
        assert!(s.contains("Unknown"), "{}", s);
    }
    assert_eq!(seen.len(), 1, "{:?}", seen);
}
""", 'two classes parsed one after the other on a thread, whose attribute names have the same index and length', 'the name of the earlier one is taken')

bug('count-not-undone', 'C28', P + 'code.rs', [("""    let max_stack = decoder.read_u16()?;
    let max_locals = decoder.read_u16()?;

    let code_length""", """    // codes inside of each other
    thread_local!(static CODES: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));
    let codes = CODES.with(|c| c.get());
    if codes >= 200 {
        return Err(Error::LimitExceeded);
    }
    CODES.with(|c| c.set(codes + 1));

    let max_stack = decoder.read_u16()?;
    let max_locals = decoder.read_u16()?;

    let code_length"""), ("""    Ok(Attribute::Code {
        max_stack,""", """    CODES.with(|c| c.set(codes));
    Ok(Attribute::Code {
        max_stack,""")], """
fn main() {
    let mut f = File::default();
    let a = f.code(&[0xB1], &[], &[]);
    f.method(&[a]);
    let good = f.bytes();
    let mut f = File::default();
    let a = f.code(&[0xFD], &[], &[]);
    f.method(&[a]);
    let bad = f.bytes();
    for _ in 0..300 {
        assert!(parse(&bad).is_err());
    }
    assert!(parse(&good).is_ok());
}
""", 'hundreds of classes with a malformed code parsed on one thread before', 'every class with code is rejected from then on')

bug('last-class', 'C28', P + 'mod.rs', [("""    let constant_pool = read_constant_pool(&mut decoder)?;

    let access_flags""", """    let constant_pool = read_constant_pool(&mut decoder)?;

    // the version of the file decides about some of the flags
    static VERSION: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    VERSION.store(major_version as usize, ::std::sync::atomic::Ordering::SeqCst);
    let modern = |d: &Decoder| {
        d.cursor() > 0 && VERSION.load(::std::sync::atomic::Ordering::SeqCst) == major_version as usize
    };

    let access_flags"""), ("""        super_name,

        interfaces,
""", """        super_name: if modern(&decoder) { super_name } else { 0 },

        interfaces,
""")], """
fn main() {
    let mut f = File::default();
    f.sup = 7;
    for _ in 0..3000 { f.interfaces.push(1); }
    let a = f.bytes();
    let mut b = a.clone();
    b[7] = 52;
    let t: Vec<_> = [a, b].iter().cycle().take(8).cloned().map(|x| std::thread::spawn(move || {
        let t = std::time::Instant::now();
        while t.elapsed().as_secs() < 5 {
            assert_eq!(parse(&x).unwrap().1.super_name, 7);
        }
    })).collect();
    for t in t { t.join().unwrap(); }
}
""", 'two threads parsing classes of different versions at the same time', 'the superclass is missing')

bug('string-memo', 'C28', P + 'decode.rs', [("""        let mut out = String::with_capacity(length);

        let mut i = length;""", """        // long strings are often repeated, in other classes, too
        thread_local!(static SEEN: ::std::cell::RefCell<::std::collections::HashMap<(usize, u32, u32), String>> =
            ::std::cell::RefCell::new(::std::collections::HashMap::new()));
        let memo = if length > 24 && *self.cursor + length <= self.limit {
            let b = &self.bytes[*self.cursor..*self.cursor + length];
            let key = (length, BigEndian::read_u32(b), BigEndian::read_u32(&b[length - 4..]) ^ BigEndian::read_u32(&b[length / 2..]));
            if let Some(s) = SEEN.with(|m| m.borrow().get(&key).cloned()) {
                *self.cursor += length;
                return Ok(s);
            }
            Some(key)
        } else {
            None
        };

        let mut out = String::with_capacity(length);

        let mut i = length;"""), ("""        Ok(out)
    }
""", """        if let Some(key) = memo {
            SEEN.with(|m| m.borrow_mut().insert(key, out.clone()));
        }
        Ok(out)
    }
""")], """
fn one(s: &str) -> String {
    let mut f = File::default();
    f.utf8(s);
    f.parse().0.get_utf8(1).unwrap()
}
fn main() {
    let a = "org/example/ClassA/with/a/long/package/and/name/and/end";
    let b = a.replace("ClassA", "ClassB");
    assert_eq!(one(a), a);
    assert_eq!(one(&b), b);
}
""", 'two long strings which differ neither at the beginning, in the middle nor at the end, in one class or in two parsed on one thread', 'the first one is reported for the second')

bug('unchecked-byte', 'C29', P + 'decode.rs', [("""    pub fn read_u8(&mut self) -> Result<u8> {
        Ok(self.read_bytes(1)?[0])
    }
""", """    pub fn read_u8(&mut self) -> Result<u8> {
        self.check(*self.cursor)?;
        // checked above
        let byte = unsafe { *self.bytes.get_unchecked(*self.cursor) };
        *self.cursor += 1;
        if *self.cursor > self.limit {
            return Err(Error::LimitExceeded);
        }
        Ok(byte)
    }
""")], """
// needs Miri or a sanitizer to be seen; here: a file that ends at the end of a page
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
fn main() {
    let mut f = File::default();
    f.item(&[3, 0, 0, 0, 7]);
    let mut b = f.bytes();
    b.truncate(10);
    unsafe {
        let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert_eq!(mprotect(m.add(4096), 4096, 0), 0);
        let at = m.add(4096 - b.len());
        std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
        let s = std::slice::from_raw_parts(at, b.len());
        assert!(parse(s).is_err());
    }
}
""", 'a file that ends before a byte (not a larger number) is read', 'one byte behind the input is read')

bug('shared-scratch', 'C29', P + 'decode.rs', [("""        let mut out = String::with_capacity(length);
""", """        // one buffer for all strings, which are made as small as possible in the end
        static mut BUFFER: Option<String> = None;
        let mut out = unsafe { BUFFER.take() }.unwrap_or_else(String::new);
        out.clear();
        out.reserve(length);
"""), ("""        Ok(out)
    }
""", """        let mut exact = String::with_capacity(out.len());
        exact.push_str(&out);
        unsafe { BUFFER = Some(out) };
        Ok(exact)
    }
""")], """
fn main() {
    let t: Vec<_> = (0..8u8).map(|k| std::thread::spawn(move || {
        let s = String::from_utf8(vec![b'a' + k; 300 + k as usize * 10]).unwrap();
        let mut f = File::default();
        for _ in 0..20 { f.utf8(&s); }
        let b = f.bytes();
        let t = std::time::Instant::now();
        while t.elapsed().as_secs() < 10 {
            let p = parse(&b).unwrap().0;
            for i in 1..21 { assert_eq!(p.get_utf8(i).unwrap(), s); }
        }
    })).collect();
    for t in t { t.join().unwrap(); }
}
""", 'several threads parsing at the same time', 'they use one buffer without synchronisation: a data race, freed memory is used')

bug('uninitialised-copy', 'C29', P + 'mod.rs', [("""                let bytes = attr_decoder.read_bytes(length as usize)?;
                Attribute::Unknown(name_index, bytes.to_vec())
""", """                let bytes = attr_decoder.read_bytes(length as usize)?;
                let mut copy = Vec::with_capacity(bytes.len());
                unsafe {
                    copy.set_len(bytes.len());
                    ::std::ptr::copy_nonoverlapping(bytes.as_ptr() as *const u64, copy.as_mut_ptr() as *mut u64, bytes.len() / 8);
                    if bytes.len() % 8 > 1 {
                        let done = bytes.len() / 8 * 8;
                        ::std::ptr::copy_nonoverlapping(bytes[done..].as_ptr(), copy.as_mut_ptr().offset(done as isize), bytes.len() - done);
                    }
                }
                Attribute::Unknown(name_index, copy)
""")], """
fn main() {
    // fill the heap with something else first
    for n in 1..200usize {
        let junk: Vec<Vec<u8>> = (0..50).map(|_| vec![0xEE; n]).collect();
        drop(junk);
        let mut f = File::default();
        let body: Vec<u8> = (0..n).map(|i| (i + 1) as u8).collect();
        f.class_attr("x", &body);
        match f.parse().1.attributes[0] {
            Attribute::Unknown(_, ref v) => assert_eq!(*v, body),
            _ => panic!(),
        }
    }
}
""", 'an unknown attribute of 8n + 1 bytes', 'its last byte is uninitialised memory (and the copy may be unaligned)')

bug('xor-of-references', 'C30', 'src/basic/constpool.rs', [("""                state.write_u8(10);
                class.hash(state);
                name_and_type.hash(state);
""", """                state.write_u8(10);
                (class ^ name_and_type).hash(state);
""")], """
fn time(n: usize) -> f64 {
    let mut f = File::default();
    for i in 0..n { f.item(&cat(&[&[10], &us(&[i, i ^ 0x1234])])); }
    let b = f.bytes();
    let t = std::time::Instant::now();
    assert!(parse(&b).is_ok());
    t.elapsed().as_secs_f64()
}
fn main() {
    time(100);
    let (a, b) = (time(2_000), time(40_000));
    assert!(b < 100.0 * a + 0.2, "{} s for 2000, {} s for 40000", a, b);
}
""", 'method references whose two indices always give the same value when combined by exclusive or', 'their hashes are all equal: the time grows with the square of their number')

bug('name-by-format', 'C30', 'src/types.rs', [("""            } else {
                name.push(ch);
            }
        }
    }
}""", """            } else {
                name = format!("{}{}", name, ch);
            }
        }
    }
}""")], """
fn time(n: usize) -> f64 {
    let s = format!("L{};", "a".repeat(n));
    let t = std::time::Instant::now();
    assert!(s.parse::<TypeDescriptor>().is_ok());
    t.elapsed().as_secs_f64()
}
fn main() {
    time(1000);
    let (a, b) = (time(100_000), time(800_000));
    assert!(b < 20.0 * a + 0.2, "{} s for 100000, {} s for 800000", a, b);
}
""", 'a type descriptor with a very long name', 'the time grows with the square of its length')

bug('scan-for-name', 'C30', P + 'mod.rs', [("""        let name = match *constant_pool.get(name_index)? {
            Item::UTF8(ref name) => name,
            _ => return Err(Error::InvalidCPItem(name_index)),
        };
""", """        let name = match constant_pool.iter().find(|&(i, _)| i == name_index) {
            Some((_, &Item::UTF8(ref name))) => name,
            _ => return Err(Error::InvalidCPItem(name_index)),
        };
""")], """
fn time(n: usize) -> f64 {
    let mut f = File::default();
    for i in 0..n { f.item(&[3, 0, 0, (i >> 8) as u8, i as u8]); }
    let d = f.utf8("Deprecated");
    for _ in 0..n { f.attrs.push(cat(&[&u2(d), &u4(0)])); }
    let b = f.bytes();
    let t = std::time::Instant::now();
    assert!(parse(&b).is_ok());
    t.elapsed().as_secs_f64()
}
fn main() {
    time(1000);
    let (a, b) = (time(5_000), time(60_000));
    assert!(b < 50.0 * a + 0.2, "{} s for 5000, {} s for 60000", a, b);
}
""", 'a large pool and many attributes whose names come late in it', 'every attribute searches the pool')

bug('dedup-interfaces', 'C30', P + 'code.rs', [("""        exceptions.push(Exception {
            start,
            end,
            handler,
            catch_type,
        });
""", """        // most of the time there are few
        let at = exceptions.len();
        exceptions.insert(0, Exception {
            start,
            end,
            handler,
            catch_type,
        });
        if at + 1 == exception_count as usize {
            exceptions.reverse();
        }
""")], """
fn time(n: usize) -> f64 {
    let mut f = File::default();
    let a = f.code(&[0xB1], &vec![[0, 1, 2, 3]; n], &[]);
    for _ in 0..4 { f.method(&[a.clone()]); }
    let b = f.bytes();
    let t = std::time::Instant::now();
    assert!(parse(&b).is_ok());
    t.elapsed().as_secs_f64()
}
fn main() {
    time(1000);
    let (a, b) = (time(6_000), time(60_000));
    assert!(b < 30.0 * a + 0.02, "{} s for 6000, {} s for 60000", a, b);
}
""", 'a long exception table', 'it is built back to front, which moves all of it for every entry')

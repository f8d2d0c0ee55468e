//! Workloads on descriptors.

use crate::ctx::*;
use crate::gen::a_char;
use crate::rng::{hash_bytes, Rng};
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};

/// a descriptor as the specification (JVMS 4.3) has it: dimensions, and the tag or the name
#[derive(Clone, Debug, PartialEq)]
pub struct D {
    pub dims: u8,
    pub base: Result<char, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct M {
    pub params: Vec<D>,
    pub ret: Option<D>,
}

/// the descriptor at the start of `s` and how many bytes it takes
fn head(s: &str) -> Option<(D, usize)> {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] == b'[' {
        i += 1;
    }
    if i > 255 {
        return None;
    }
    let dims = i as u8;
    let t = *b.get(i)?;
    if b"BCDFIJSZ".contains(&t) {
        return Some((D { dims, base: Ok(t as char) }, i + 1));
    }
    if t != b'L' {
        return None;
    }
    let end = b[i + 1..].iter().position(|x| *x == b';')? + i + 1;
    if end == i + 1 {
        return None;
    }
    Some((D { dims, base: Err(s[i + 1..end].to_string()) }, end + 1))
}

pub fn ref_type(s: &str) -> Option<D> {
    head(s).filter(|(_, n)| *n == s.len()).map(|x| x.0)
}

/// the parts of a valid method descriptor: (start, end) of each parameter, and start of the return type
type Parts = (Vec<(usize, usize)>, usize);

pub fn ref_method(s: &str) -> Option<(M, Parts)> {
    if !s.starts_with('(') {
        return None;
    }
    let mut i = 1;
    let mut params = vec![];
    let mut at = vec![];
    while !s[i..].starts_with(')') {
        let (d, n) = head(&s[i..])?;
        params.push(d);
        at.push((i, i + n));
        i += n;
    }
    i += 1;
    if params.len() > 255 {
        return None;
    }
    let ret = if &s[i..] == "V" { None } else { Some(ref_type(&s[i..])?) };
    Some((M { params, ret }, (at, i)))
}

fn to_d(t: &TypeDescriptor) -> D {
    D {
        dims: t.dimensions,
        base: match &t.base_type {
            Type::Boolean => Ok('Z'),
            Type::Byte => Ok('B'),
            Type::Short => Ok('S'),
            Type::Int => Ok('I'),
            Type::Long => Ok('J'),
            Type::Float => Ok('F'),
            Type::Double => Ok('D'),
            Type::Char => Ok('C'),
            Type::Reference(s) => Err(s.clone()),
        },
    }
}

fn of_d(d: &D) -> TypeDescriptor {
    let base_type = match &d.base {
        Ok('Z') => Type::Boolean,
        Ok('B') => Type::Byte,
        Ok('S') => Type::Short,
        Ok('I') => Type::Int,
        Ok('J') => Type::Long,
        Ok('F') => Type::Float,
        Ok('D') => Type::Double,
        Ok('C') => Type::Char,
        Ok(_) => unreachable!(),
        Err(s) => Type::Reference(s.clone()),
    };
    TypeDescriptor { dimensions: d.dims, base_type }
}

fn to_m(m: &MethodDescriptor) -> M {
    M { params: m.params.iter().map(to_d).collect(), ret: m.return_type.as_ref().map(to_d) }
}
fn of_m(m: &M) -> MethodDescriptor {
    MethodDescriptor { params: m.params.iter().map(of_d).collect(), return_type: m.ret.as_ref().map(of_d) }
}
fn text_d(d: &D) -> String {
    let mut s = "[".repeat(d.dims as usize);
    match &d.base {
        Ok(c) => s.push(*c),
        Err(n) => {
            s.push('L');
            s.push_str(n);
            s.push(';');
        }
    }
    s
}
fn text_m(m: &M) -> String {
    let mut s = "(".to_string();
    for p in &m.params {
        s.push_str(&text_d(p));
    }
    s.push(')');
    match &m.ret {
        Some(d) => s.push_str(&text_d(d)),
        None => s.push('V'),
    }
    s
}

fn short(s: &str) -> String {
    if s.chars().count() > 90 {
        let h: String = s.chars().take(60).collect();
        let t: String = s.chars().rev().take(20).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{:?}...{:?} ({} bytes)", h, t, s.len())
    } else {
        format!("{:?}", s)
    }
}

/// one string, judged for whichever of C24..C27 is asked
pub fn judge(c: &mut Ctx, s: &str) -> bool {
    let n = c.viols;
    match c.prop.as_str() {
        "C24" => types(c, s),
        "C25" => methods(c, s),
        "C26" => {
            types(c, s);
            methods(c, s);
        }
        _ => {
            types(c, s);
            methods(c, s);
        }
    }
    n == c.viols
}

fn watched_parse<T>(c: &mut Ctx, s: &str, f: impl FnOnce() -> T) -> Option<T> {
    if s.len() > 4096 {
        c.inflight(s.as_bytes());
    }
    c.count("parses", 1);
    match watched(s.len(), || guard(f)) {
        Ok(x) => Some(x),
        Err(m) => {
            c.violate(&format!("parsing {} panicked: {}", short(s), m), s.as_bytes());
            None
        }
    }
}

fn bad_error(e: &Error, s: &str) -> Option<String> {
    match e {
        Error::InvalidDescriptor { desc, at } => {
            if desc != s {
                Some(format!("the error for {} carries {}", short(s), short(desc)))
            } else if *at > s.len() {
                Some(format!("the error for {} is at {}, beyond its end", short(s), at))
            } else {
                None
            }
        }
        e => Some(format!("the error for {} is {:?}", short(s), e)),
    }
}

fn types(c: &mut Ctx, s: &str) {
    let got = match watched_parse(c, s, || s.parse::<TypeDescriptor>()) {
        Some(g) => g,
        None => return,
    };
    c.count(if got.is_ok() { "type descriptors accepted" } else { "type descriptors rejected" }, 1);
    match c.prop.as_str() {
        "C24" => {
            let want = ref_type(s);
            let got = got.ok().as_ref().map(to_d);
            if want != got {
                c.violate(&format!("{} as a type descriptor: expected {}, got {}", short(s), opt(&want), opt(&got)), s.as_bytes());
            }
        }
        "C26" => {
            if let Ok(t) = got {
                round(c, s, || t.to_string());
            }
        }
        "C27" => {
            if let Err(e) = got {
                if let Some(m) = bad_error(&e, s) {
                    c.violate(&m, s.as_bytes());
                }
            }
        }
        _ => {}
    }
}

fn methods(c: &mut Ctx, s: &str) {
    let got = match watched_parse(c, s, || s.parse::<MethodDescriptor>()) {
        Some(g) => g,
        None => return,
    };
    c.count(if got.is_ok() { "method descriptors accepted" } else { "method descriptors rejected" }, 1);
    match c.prop.as_str() {
        "C25" => {
            let want = ref_method(s);
            let g = got.as_ref().ok().map(to_m);
            let w = want.as_ref().map(|x| x.0.clone());
            if w != g {
                c.violate(&format!("{} as a method descriptor: expected {}, got {}", short(s), opt(&w), opt(&g)), s.as_bytes());
                return;
            }
            if let (Some((_, (at, ret))), Ok(m)) = (want, got) {
                for (p, (a, b)) in m.params.iter().zip(&at) {
                    let alone = guard(|| s[*a..*b].parse::<TypeDescriptor>());
                    if !matches!(&alone, Ok(Ok(t)) if t == p) {
                        c.violate(&format!("{}: parameter {} is {:?} but alone it is {:?}", short(s), short(&s[*a..*b]), p, alone.map(|r| r.ok())), s.as_bytes());
                        return;
                    }
                }
                if let Some(r) = &m.return_type {
                    let alone = guard(|| s[ret..].parse::<TypeDescriptor>());
                    if !matches!(&alone, Ok(Ok(t)) if t == r) {
                        c.violate(&format!("{}: the return type is {:?} but alone it is {:?}", short(s), r, alone.map(|r| r.ok())), s.as_bytes());
                    }
                }
                c.count("parts compared", at.len() as u64 + 1);
            }
        }
        "C26" => {
            if let Ok(m) = got {
                round(c, s, || m.to_string());
            }
        }
        "C27" => {
            if let Err(e) = got {
                if let Some(m) = bad_error(&e, s) {
                    c.violate(&m, s.as_bytes());
                }
            }
        }
        _ => {}
    }
}

fn opt<T: std::fmt::Debug>(x: &Option<T>) -> String {
    let s = match x {
        None => "rejection".to_string(),
        Some(x) => format!("{:?}", x),
    };
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}

fn round(c: &mut Ctx, s: &str, f: impl FnOnce() -> String) {
    c.count("round trips of a parsed string", 1);
    match guard(f) {
        Ok(t) if t == s => {}
        Ok(t) => c.violate(&format!("{} parses, but formats to {}", short(s), short(&t)), s.as_bytes()),
        Err(m) => c.violate(&format!("formatting the result of {} panicked: {}", short(s), m), s.as_bytes()),
    }
}

// ---------------------------------------------------------------- exhaustive short strings

const ALPHA_T: [char; 10] = ['[', 'L', ';', 'B', 'J', 'V', '(', 'x', '/', '\u{e9}'];
const ALPHA_M: [char; 9] = ['(', ')', '[', 'L', ';', 'I', 'V', 'x', '\u{1F600}'];

/// all strings over a small alphabet; the index fixes the first two characters
pub fn exhaustive(c: &mut Ctx) {
    let (alpha, len): (&[char], usize) = match c.prop.as_str() {
        "C24" => (&ALPHA_T, if c.thorough { 8 } else { 7 }),
        "C25" => (&ALPHA_M, if c.thorough { 8 } else { 7 }),
        // all kinds of brackets, for both parsers
        _ => (&ALPHA_M, if c.thorough { 8 } else { 6 }),
    };
    let n = alpha.len();
    let i = c.idx as usize;
    if i >= n * n {
        return;
    }
    if i == 0 {
        judge(c, "");
        for a in alpha {
            judge(c, &a.to_string());
        }
    }
    let (a, b) = (alpha[i / n], alpha[i % n]);
    let mut total = 0;
    for tail in 0..=len - 2 {
        let mut d = vec![0usize; tail];
        loop {
            let mut s = String::with_capacity(tail * 4 + 8);
            s.push(a);
            s.push(b);
            s.extend(d.iter().map(|k| alpha[*k]));
            total += 1;
            let want = c.prop == "C27" || ref_type(&s).is_some() || ref_method(&s).is_some();
            // the rejected ones are counted by the enumeration
            if want || total % 64 == 0 {
                c.eval(hash_bytes(s.as_bytes()), true);
            } else {
                c.evals += 1;
            }
            if !judge(c, &s) {
                return;
            }
            let mut k = 0;
            while k < tail {
                d[k] += 1;
                if d[k] < n {
                    break;
                }
                d[k] = 0;
                k += 1;
            }
            if k == tail {
                break;
            }
        }
    }
    c.count("strings enumerated exhaustively", total);
    c.sample(|| format!("all {} strings of up to {} characters that start with {}{}", total, len, a, b));
}

// ---------------------------------------------------------------- generated

fn a_name(r: &mut Rng, max: usize) -> String {
    let n = match r.below(10) {
        0 => 1,
        1 => r.range(1, max.max(1)),
        _ => r.range(1, 14),
    };
    let rich = r.bool();
    (0..n)
        .map(|_| loop {
            let ch = if rich { a_char(r) } else { *r.pick(b"abcLVI[()/.$<>BJ \0") as char };
            if ch != ';' {
                break ch;
            }
        })
        .collect()
}

fn a_type(r: &mut Rng, max: usize) -> D {
    let dims = match r.below(12) {
        0 => *r.pick(&[255u8, 254, 128, 127, 64]),
        1 | 2 => r.u8(),
        3..=5 => r.below(4) as u8,
        _ => 0,
    };
    let base = if r.bool() { Ok(*r.pick(b"BCDFIJSZ") as char) } else { Err(a_name(r, max)) };
    D { dims, base }
}

fn a_method(r: &mut Rng, max: usize) -> M {
    let n = match r.below(12) {
        0 => *r.pick(&[255usize, 254, 128, 127]),
        1 => r.below(256),
        2..=4 => 0,
        _ => r.below(8),
    };
    let small = n > 20;
    let params = (0..n)
        .map(|_| {
            let mut d = a_type(r, max);
            if small && !r.one_in(20) {
                d.dims = d.dims.min(2);
            }
            d
        })
        .collect();
    M { params, ret: if r.one_in(3) { None } else { Some(a_type(r, max)) } }
}

/// strings made of one valid descriptor by a small change, often one that matters
fn spoil(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    for _ in 0..r.range(1, 2) {
        let at = r.below(v.len() + 1);
        let special = *r.pick(&['[', 'L', ';', '(', ')', 'V', 'I', 'Z', ' ', '\0', 'l', 'i', 'O', 'A', '\u{FF29}', '\u{301}']);
        match r.below(12) {
            0 => v.insert(at, special),
            1 => v.push(special),
            2 => v.insert(0, special),
            3 => {
                if at < v.len() {
                    v.remove(at);
                }
            }
            4 => {
                v.pop();
            }
            5 => {
                if !v.is_empty() {
                    v.remove(0);
                }
            }
            6 => {
                if at < v.len() {
                    v[at] = special;
                }
            }
            7 => {
                if at < v.len() {
                    v[at] = a_char(r);
                }
            }
            8 => {
                let w = v.clone();
                v.extend(w);
            }
            9 => v.truncate(at),
            10 => {
                if n > 1 {
                    let j = r.below(v.len().max(1));
                    if at < v.len() && j < v.len() {
                        v.swap(at, j);
                    }
                }
            }
            _ => {
                let k = r.range(250, 260);
                let at = r.below(v.len() + 1);
                for _ in 0..k {
                    v.insert(at, '[');
                }
            }
        }
    }
    v.into_iter().collect()
}

pub fn generated(c: &mut Ctx) {
    let mut r = c.rng();
    let max = if c.idx % 64 == 0 && !c.tiny { 20_000 } else { 60 };
    for _ in 0..20 {
        let method = match c.prop.as_str() {
            "C24" => r.one_in(8),
            "C25" => !r.one_in(8),
            _ => r.bool(),
        };
        let mut s = if method { text_m(&a_method(&mut r, max)) } else { text_d(&a_type(&mut r, max)) };
        let valid = r.bool();
        if !valid {
            s = spoil(&mut r, &s);
        }
        if c.tiny && s.len() > 200 {
            continue;
        }
        c.eval(hash_bytes(s.as_bytes()), s.len() > 1);
        c.max("longest string", s.len() as u64);
        c.sample(|| short(&s));
        if !judge(c, &s) {
            return;
        }
    }
}

/// counts and lengths around the limits
pub fn limits(c: &mut Ctx) {
    let mut r = c.rng();
    let i = c.idx as usize;
    let dims = [0usize, 1, 2, 127, 128, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 767, 768, 65536, 65791];
    let ends = ["I", "Z", "J", "D", "La;", "Ljava/lang/String;", "V", "L;", "L", "", "II", "[", ";", "La", "La;;", "La;I", "\u{e9}", ")", "LI;"];
    if i < dims.len() {
        let d = "[".repeat(dims[i]);
        for e in ends {
            for s in [
                format!("{}{}", d, e),
                format!("({}{})V", d, e),
                format!("(){}{}", d, e),
                format!("(I{}{}J){}{}", d, e, d, e),
                format!("({}{}{}{}){}I", d, e, d, e, d),
            ] {
                c.eval(hash_bytes(s.as_bytes()), true);
                if !judge(c, &s) {
                    return;
                }
            }
        }
        c.sample(|| format!("{} dimensions with all ends", dims[i]));
        return;
    }
    let counts = [0usize, 1, 2, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 513, 65535, 65536, 65537, 65791];
    let i = i - dims.len();
    if i < counts.len() {
        let n = counts[i];
        for p in ["I", "J", "[D", "La;", "[[Lx/y;", "\u{e9}"] {
            for ret in ["V", "I", "[J", "La;", "", "VV", ")"] {
                let s = format!("({}){}", p.repeat(n), ret);
                c.eval(hash_bytes(s.as_bytes()), true);
                if !judge(c, &s) {
                    return;
                }
            }
        }
        // different kinds of parameters mixed
        let mut s = "(".to_string();
        for _ in 0..n {
            s.push_str(r.pick(&["I", "J", "[D", "La;", "[[Lx/y;", "Z"]));
        }
        s.push_str(")V");
        judge(c, &s);
        c.sample(|| format!("{} parameters", n));
        return;
    }
    let lens = [1usize, 2, 3, 15, 16, 255, 256, 257, 65533, 65534, 65535, 65536, 200_000, 1_000_000];
    let n = lens[(i - counts.len()) % lens.len()];
    for ch in ["a", "\u{e9}", "\u{4e2d}", "\u{1F600}", "[", "/", "L", "(", ")", "\0"] {
        let name = ch.repeat(n);
        for s in [format!("L{};", name), format!("(L{};)V", name), format!("()L{};", name), format!("L{}", name), format!("(L{})V", name), format!("L{};;", name), name.clone()] {
            c.eval(hash_bytes(s.as_bytes()), true);
            if !judge(c, &s) {
                return;
            }
        }
    }
    c.max("longest string", 4 * n as u64);
    c.sample(|| format!("names of {} characters", n));
}

/// every character at every place where one decides
pub fn characters(c: &mut Ctx) {
    // 4352 scalar values per index
    let from = c.idx as u32 * 4352;
    let mut n = 0;
    for x in from..from + 4352 {
        if let Some(ch) = char::from_u32(x) {
            for s in [
                format!("{}", ch),
                format!("[{}", ch),
                format!("L{};", ch),
                format!("La{}", ch),
                format!("La;{}", ch),
                format!("{}La;", ch),
                format!("()I{}", ch),
                format!("(){}", ch),
                format!("({})V", ch),
                format!("{}()V", ch),
                format!("(L{};){}", ch, ch),
                format!("(I{}V", ch),
                format!("{})V", ch),
            ] {
                n += 1;
                if x < 0x3000 {
                    c.eval(hash_bytes(s.as_bytes()), true);
                } else {
                    c.evals += 1;
                }
                if !judge(c, &s) {
                    return;
                }
            }
        }
    }
    c.count("strings with every character", n);
    c.sample(|| format!("characters from U+{:04X} at every place", from));
}

/// strings nobody made for this
pub fn noise(c: &mut Ctx) {
    let mut r = c.rng();
    for _ in 0..20 {
        let n = match r.below(8) {
            0 => r.below(3000),
            _ => r.below(30),
        };
        let kind = r.below(4);
        let s: String = (0..n)
            .map(|_| match kind {
                0 => a_char(&mut r),
                1 => *r.pick(&ALPHA_M),
                2 => *r.pick(b"BCDFIJSZVL;[()") as char,
                _ => *r.pick(&['[', '[', '[', 'L', '\u{10FFFF}', ';', ')', '(']),
            })
            .collect();
        c.eval(hash_bytes(s.as_bytes()), n > 0);
        c.sample(|| short(&s));
        if !judge(c, &s) {
            return;
        }
    }
}

// ---------------------------------------------------------------- values to text and back

/// descriptor values with valid contents: the text is the one of the specification, and parses back
pub fn values(c: &mut Ctx) {
    let mut r = c.rng();
    let max = if c.idx % 64 == 0 { 5000 } else { 40 };
    for _ in 0..10 {
        let d = a_type(&mut r, max);
        let v = of_d(&d);
        let want = text_d(&d);
        c.eval(hash_bytes(want.as_bytes()), true);
        c.count("values formatted", 1);
        match guard(|| (v.to_string(), format!("{}", v).parse::<TypeDescriptor>())) {
            Err(m) => return c.violate(&format!("formatting {} panicked: {}", short(&want), m), want.as_bytes()),
            Ok((s, back)) => {
                if s != want {
                    return c.violate(&format!("{:.200} formats to {}", format!("{:?}", v), short(&s)), want.as_bytes());
                }
                if !matches!(&back, Ok(b) if *b == v) {
                    return c.violate(&format!("{} parses to {:?}, not to the value it came from", short(&s), back.ok()), want.as_bytes());
                }
            }
        }
        let m = a_method(&mut r, max);
        let v = of_m(&m);
        let want = text_m(&m);
        c.eval(hash_bytes(want.as_bytes()), true);
        c.count("values formatted", 1);
        match guard(|| (v.to_string(), format!("{}", v).parse::<MethodDescriptor>())) {
            Err(e) => return c.violate(&format!("formatting {} panicked: {}", short(&want), e), want.as_bytes()),
            Ok((s, back)) => {
                if s != want {
                    return c.violate(&format!("{:.200} formats to {}", format!("{:?}", v), short(&s)), want.as_bytes());
                }
                if !matches!(&back, Ok(b) if *b == v) {
                    return c.violate(&format!("{} parses to {:.200}, not to the value it came from", short(&s), format!("{:?}", back.ok())), want.as_bytes());
                }
            }
        }
        c.sample(|| short(&want));
        // a different value formats differently
        let mut m2 = m.clone();
        let d2 = a_type(&mut r, max);
        match r.below(4) {
            0 => m2.ret = Some(d2),
            1 => {
                if m2.params.len() < 255 {
                    m2.params.push(d2);
                }
            }
            2 => {
                m2.params.pop();
            }
            _ => {
                if let Some(p) = m2.params.last_mut() {
                    *p = d2;
                }
            }
        }
        let v2 = of_m(&m2);
        if let Ok((eq, a, b)) = guard(|| (v == v2, v.to_string(), v2.to_string())) {
            c.count("pairs of values", 1);
            if eq != (m == m2) || (a == b) != (m == m2) {
                return c.violate(&format!("{} and {}: equal is {}, equal text is {}", short(&a), short(&b), eq, a == b), want.as_bytes());
            }
        }
    }
}

/// every dimension with every base type, formatted and parsed back
pub fn all_dims(c: &mut Ctx) {
    let d = c.idx as usize % 256;
    for b in "BCDFIJSZ".chars().map(Ok).chain([Err("x".to_string()), Err("java/lang/Object".to_string()), Err("\u{e9}\u{1F600}".to_string())]) {
        let t = D { dims: d as u8, base: b };
        let s = text_d(&t);
        c.eval(hash_bytes(s.as_bytes()), true);
        let v = of_d(&t);
        match guard(|| (v.to_string(), s.parse::<TypeDescriptor>())) {
            Ok((f, Ok(p))) if f == s && p == v => {}
            Ok((f, p)) => return c.violate(&format!("{}: formats to {}, parses to {:?}", short(&s), short(&f), p.ok()), s.as_bytes()),
            Err(m) => return c.violate(&format!("{}: panic: {}", short(&s), m), s.as_bytes()),
        }
        let m = M { params: vec![t.clone(), t.clone()], ret: Some(t.clone()) };
        let s = text_m(&m);
        let v = of_m(&m);
        c.eval(hash_bytes(s.as_bytes()), true);
        match guard(|| (v.to_string(), s.parse::<MethodDescriptor>())) {
            Ok((f, Ok(p))) if f == s && p == v => {}
            Ok((f, p)) => return c.violate(&format!("{}: formats to {}, parses to {:?}", short(&s), short(&f), p.ok()), s.as_bytes()),
            Err(m) => return c.violate(&format!("{}: panic: {}", short(&s), m), s.as_bytes()),
        }
    }
    c.sample(|| format!("{} dimensions of all base types", d));
}

//! Workloads on constant pools: histories of pushes against a model, iteration, lookups, equality.

use crate::ctx::*;
use crate::enc::encode;
use crate::gen::*;
use crate::model::*;
use crate::mutf8;
use crate::rng::{hash_bytes, Rng};
use crate::val::{self, V};
use jbcrs::basic as jb;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

pub fn to_item(c: &Const) -> jb::Item {
    use jb::ReferenceKind::*;
    use Const::*;
    match c {
        Utf8(b) => jb::Item::UTF8(match mutf8::decode(b) {
            mutf8::Dec::Ok(s) => s,
            _ => panic!("not a string"),
        }),
        Int(x) => jb::Item::Integer(*x as i32),
        Float(x) => jb::Item::Float(f32::from_bits(*x)),
        Long(x) => jb::Item::Long(*x as i64),
        Double(x) => jb::Item::Double(f64::from_bits(*x)),
        Class(x) => jb::Item::Class(*x),
        Str(x) => jb::Item::String(*x),
        Field(x, y) => jb::Item::FieldRef { class: *x, name_and_type: *y },
        Method(x, y) => jb::Item::MethodRef { class: *x, name_and_type: *y },
        IMethod(x, y) => jb::Item::InterfaceMethodRef { class: *x, name_and_type: *y },
        NameType(x, y) => jb::Item::NameAndType { name: *x, desc: *y },
        Handle(k, x) => jb::Item::MethodHandle {
            kind: match k {
                1 => GetField,
                2 => GetStatic,
                3 => PutField,
                4 => PutStatic,
                5 => InvokeVirtual,
                6 => InvokeStatic,
                7 => InvokeSpecial,
                8 => NewInvokeSpecial,
                _ => InvokeInterface,
            },
            index: *x,
        },
        MType(x) => jb::Item::MethodType(*x),
        InvDyn(x, y) => jb::Item::InvokeDynamic { bootstrap_method_attribute: *x, name_and_type: *y },
        Module(x) => jb::Item::Module(*x),
        Package(x) => jb::Item::Package(*x),
        Dynamic(..) => panic!("no such item"),
    }
}

fn key(c: &Const) -> Vec<u8> {
    use Const::*;
    let mut v = vec![c.tag()];
    match c {
        Utf8(b) => v.extend_from_slice(b),
        Int(x) | Float(x) => v.extend_from_slice(&x.to_be_bytes()),
        Long(x) | Double(x) => v.extend_from_slice(&x.to_be_bytes()),
        Class(x) | Str(x) | MType(x) | Module(x) | Package(x) => v.extend_from_slice(&x.to_be_bytes()),
        Field(x, y) | Method(x, y) | IMethod(x, y) | NameType(x, y) | InvDyn(x, y) | Dynamic(x, y) => {
            v.extend_from_slice(&x.to_be_bytes());
            v.extend_from_slice(&y.to_be_bytes());
        }
        Handle(k, x) => {
            v.push(*k);
            v.extend_from_slice(&x.to_be_bytes());
        }
    }
    v
}

/// a pool of jbcrs next to the model of it
struct Both {
    p: jb::Pool,
    m: MPool,
    at: HashMap<Vec<u8>, Vec<u16>>,
    log: Vec<String>,
    h: u64,
}

fn minimal_with(pool: MPool) -> MClass {
    MClass {
        minor: 0,
        major: 52,
        pool,
        flags: 0,
        name: 0,
        super_name: 0,
        interfaces: vec![],
        fields: vec![],
        methods: vec![],
        attrs: vec![],
    }
}

impl Both {
    fn start(c: &mut Ctx, r: &mut Rng, how: usize) -> Option<Both> {
        match how % 4 {
            0 => Some(Both::of(jb::Pool::new(), MPool::new(), "new".into())),
            1 => {
                let n = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 65535,
                    _ => r.idx(),
                };
                Some(Both::of(jb::Pool::with_capacity(n), MPool::new(), format!("with_capacity({})", n)))
            }
            2 => Some(Both::of(jb::Pool::default(), MPool::new(), "default".into())),
            _ => {
                let mut m = MPool::new();
                let n = r.below(40);
                for _ in 0..n {
                    let k = if r.one_in(3) && m.count() > 1 {
                        let i = r.range(1, m.count() - 1) as u16;
                        match m.get(i) {
                            Some(Const::Utf8(b)) if b.len() > 1000 => continue,
                            Some(k) => k.clone(),
                            None => continue,
                        }
                    } else {
                        a_const(r, true)
                    };
                    m.add(k);
                }
                Both::parsed(c, m)
            }
        }
    }

    fn parsed(c: &mut Ctx, m: MPool) -> Option<Both> {
        let n = m.count();
        let b = encode(&minimal_with(m.clone()));
        match guard(|| jb::parse(&b)) {
            Ok(Ok((p, _))) => Some(Both::of(p, m, format!("parsed pool of {}", n))),
            _ => {
                // another property's business
                c.count("pools that could not be parsed", 1);
                None
            }
        }
    }

    fn of(p: jb::Pool, m: MPool, name: String) -> Both {
        let mut at: HashMap<Vec<u8>, Vec<u16>> = HashMap::new();
        for (i, k) in m.slots.iter().enumerate() {
            if let Some(k) = k {
                at.entry(key(k)).or_default().push(i as u16);
            }
        }
        let h = hash_bytes(name.as_bytes());
        Both { p, m, at, log: vec![name], h }
    }

    fn text(&self) -> Vec<u8> {
        let n = self.log.len();
        if n > 400 {
            format!("{}\n... {} operations ...\n{}", self.log[..100].join("\n"), n - 300, self.log[n - 200..].join("\n")).into_bytes()
        } else {
            self.log.join("\n").into_bytes()
        }
    }

    fn note(&mut self, k: &Const, what: &str) {
        self.h = self.h.rotate_left(5) ^ hash_bytes(&key(k));
        let s = match k {
            Const::Utf8(b) if b.len() > 60 => format!("Utf8 of {} bytes", b.len()),
            k => format!("{:?}", k),
        };
        self.log.push(format!("push {} -> {}", s, what));
        if self.log.len() > 2000 {
            self.log.drain(500..1500);
        }
    }

    /// one push, judged against the model; false: violated
    fn push(&mut self, c: &mut Ctx, k: &Const) -> bool {
        let item = to_item(k);
        let len = self.m.count();
        let size = if k.wide() { 2 } else { 1 };
        let kk = key(k);
        let present = self.at.get(&kk).cloned();
        let fits = len + size <= 65535;
        let p = &mut self.p;
        let got = match guard(|| p.push(item)) {
            Ok(g) => g,
            Err(m) => {
                self.note(k, "panic");
                c.violate(&format!("push into a pool of {} panicked: {}", len, m), &self.text());
                return false;
            }
        };
        c.count("pushes", 1);
        let shown = match &got {
            Ok(i) => i.to_string(),
            Err(e) => val::err(e),
        };
        self.note(k, &shown);
        let fail = |c: &mut Ctx, s: &Both, m: &str| {
            c.violate(&format!("push of {:.80} into a pool of length {}: {}", format!("{:?}", k), len, m), &s.text());
            false
        };
        match (present, got) {
            (Some(v), Ok(i)) => {
                c.count("pushes of present constants", 1);
                if !v.contains(&i) {
                    return fail(c, self, &format!("it is held at {:?} but {} was returned", v, i));
                }
            }
            (Some(v), Err(e)) => return fail(c, self, &format!("it is held at {:?} but the push failed with {}", v, val::err(&e))),
            (None, Ok(i)) => {
                if !fits {
                    return fail(c, self, &format!("it does not fit but index {} was returned", i));
                }
                c.count("pushes of new constants", 1);
                if i as usize != len {
                    return fail(c, self, &format!("the next free index is {} but {} was returned", len, i));
                }
                self.m.slots.push(Some(k.clone()));
                if size == 2 {
                    self.m.slots.push(None);
                }
                self.at.insert(kk, vec![i]);
            }
            (None, Err(e)) => {
                if fits {
                    return fail(c, self, &format!("it fits but the push failed with {}", val::err(&e)));
                }
                c.count("failed pushes", 1);
                if val::err(&e) != "CPTooLarge" {
                    return fail(c, self, &format!("it does not fit but the error is {}", val::err(&e)));
                }
            }
        }
        let n = self.p.len() as usize;
        if n != self.m.count() {
            return fail(c, self, &format!("the length is {} afterwards, it should be {}", n, self.m.count()));
        }
        if self.p.is_empty() != (n == 1) {
            return fail(c, self, &format!("is_empty is {} at length {}", self.p.is_empty(), n));
        }
        true
    }

    /// the entry at one index
    fn look(&self, c: &mut Ctx, i: u16) -> bool {
        let want = self.m.get(i);
        let got = match guard(|| self.p.get(i).map(|x| val::j_item(x))) {
            Ok(g) => g,
            Err(m) => {
                c.violate(&format!("lookup of index {} in a pool of {} panicked: {}", i, self.m.count(), m), &self.text());
                return false;
            }
        };
        c.count("lookups", 1);
        let ok = match (&want, &got) {
            (Some(_), Ok(v)) => *v == val::m_const(&self.m, i),
            (None, Err(jbcrs::Error::InvalidCPItem(j))) => *j == i,
            _ => false,
        };
        if !ok {
            let g = match got {
                Ok(v) => v.show(),
                Err(e) => val::err(&e),
            };
            c.violate(
                &format!("index {} of a pool of {} should hold {:.200} but gives {:.200}", i, self.m.count(), format!("{:?}", want), g),
                &self.text(),
            );
        }
        ok
    }

    fn look_all(&self, c: &mut Ctx) -> bool {
        let n = self.m.count();
        (0..n).all(|i| self.look(c, i as u16)) && [n, n + 1, 65534, 65535].iter().all(|i| *i > 65535 || self.look(c, *i as u16))
    }

    fn expected_iter(&self) -> Vec<(u16, V)> {
        (1..self.m.count()).filter(|i| self.m.slots[*i].is_some()).map(|i| (i as u16, val::m_const(&self.m, i as u16))).collect()
    }

    fn iterate(&self, c: &mut Ctx) -> bool {
        let want = self.expected_iter();
        let got = guard(|| {
            let mut v = vec![];
            let mut it = self.p.iter();
            loop {
                match it.next() {
                    Some((i, x)) => v.push((i, val::j_item(x))),
                    None => break,
                }
                if v.len() > 70_000 {
                    break;
                }
            }
            let mut again = vec![];
            for _ in 0..6 {
                if let Some((i, _)) = it.next() {
                    again.push(i);
                }
            }
            (v, again)
        });
        let (v, again) = match got {
            Ok(g) => g,
            Err(m) => {
                c.violate(&format!("iteration over a pool of {} panicked: {}", self.m.count(), m), &self.text());
                return false;
            }
        };
        c.count("iterations", 1);
        c.count("iterated constants", v.len() as u64);
        let mut bad = None;
        if !again.is_empty() {
            bad = Some(format!("an exhausted iterator gave index {} again", again[0]));
        } else if v != want {
            let k = v.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(v.len().min(want.len()));
            let s = |x: Option<&(u16, V)>| x.map_or("the end".to_string(), |(i, v)| format!("({}, {:.100})", i, v.show()));
            bad = Some(format!("item number {} should be {} but is {}", k, s(want.get(k)), s(v.get(k))));
        }
        if let Some(m) = bad {
            c.violate(&format!("iteration over a pool of length {}: {}", self.m.count(), m), &self.text());
            return false;
        }
        true
    }

    /// iteration through adaptors, several at once, and the identity with lookups
    fn iterate_more(&self, c: &mut Ctx, r: &mut Rng) -> bool {
        let want: Vec<u16> = (1..self.m.count()).filter(|i| self.m.slots[*i].is_some()).map(|i| i as u16).collect();
        let k = r.below(want.len() + 3);
        let step = r.range(1, 5);
        let res = guard(|| -> Option<String> {
            let nth = self.p.iter().nth(k).map(|x| x.0);
            if nth != want.get(k).cloned() {
                return Some(format!("nth({}) gives index {:?}, expected {:?}", k, nth, want.get(k)));
            }
            // what is promised beforehand holds at every point
            let mut it = self.p.iter();
            let mut left = want.len();
            loop {
                let (low, high) = it.size_hint();
                if low > left || high.map_or(false, |h| h < left) {
                    return Some(format!("size_hint() gives {:?} with {} left", (low, high), left));
                }
                if it.next().is_none() {
                    break;
                }
                left = left.wrapping_sub(1);
            }
            let n = self.p.iter().count();
            if n != want.len() {
                return Some(format!("count() gives {}, expected {}", n, want.len()));
            }
            let last = self.p.iter().last().map(|x| x.0);
            if last != want.last().cloned() {
                return Some(format!("last() gives index {:?}, expected {:?}", last, want.last()));
            }
            let stepped: Vec<u16> = self.p.iter().step_by(step).map(|x| x.0).collect();
            let want_s: Vec<u16> = want.iter().cloned().step_by(step).collect();
            if stepped != want_s {
                return Some(format!("step_by({}) differs", step));
            }
            // the same item as a lookup gives, not a copy of it
            for (i, x) in self.p.iter() {
                match self.p.get(i) {
                    Ok(y) if val::j_item(y) == val::j_item(x) => {}
                    _ => return Some(format!("the item given with index {} is not the one found there", i)),
                }
            }
            // two iterators do not disturb each other
            let (mut a, mut b) = (self.p.iter(), self.p.iter());
            let mut pos = (0, 0);
            for s in 0..200 {
                let (it, p) = if (s * 7 + k) % 3 == 0 { (&mut a, &mut pos.0) } else { (&mut b, &mut pos.1) };
                let g = it.next().map(|x| x.0);
                if g != want.get(*p).cloned() {
                    return Some("interleaved iterators disturb each other".to_string());
                }
                *p += 1;
            }
            None
        });
        c.count("adaptor iterations", 1);
        match res {
            Ok(None) => true,
            Ok(Some(m)) => {
                c.violate(&format!("iteration over a pool of length {}: {}", self.m.count(), m), &self.text());
                false
            }
            Err(m) => {
                c.violate(&format!("iteration over a pool of {} panicked: {}", self.m.count(), m), &self.text());
                false
            }
        }
    }

    fn random_present(&self, r: &mut Rng) -> Option<Const> {
        for _ in 0..4 {
            let i = r.below(self.m.count());
            if let Some(k) = &self.m.slots[i] {
                return Some(k.clone());
            }
        }
        None
    }
}

/// a constant close to the given one: other kind, swapped fields, a bit flipped
fn sibling(r: &mut Rng, k: &Const) -> Const {
    use Const::*;
    let one = |r: &mut Rng, x: u16| match r.below(6) {
        0 => Class(x),
        1 => Str(x),
        2 => MType(x),
        3 => Module(x),
        4 => Package(x),
        _ => Int(u32::from(x)),
    };
    let two = |r: &mut Rng, x: u16, y: u16| match r.below(5) {
        0 => Field(x, y),
        1 => Method(x, y),
        2 => IMethod(x, y),
        3 => NameType(x, y),
        _ => InvDyn(x, y),
    };
    match k.clone() {
        Utf8(b) => {
            let s = match mutf8::decode(&b) {
                mutf8::Dec::Ok(s) => s,
                _ => return Utf8(b),
            };
            let mut v: Vec<char> = s.chars().collect();
            match r.below(4) {
                0 => v.push('\0'),
                1 => {
                    v.pop();
                }
                2 => v.reverse(),
                _ => {
                    if !v.is_empty() {
                        let i = r.below(v.len());
                        v[i] = a_char(r);
                    }
                }
            }
            let b = mutf8::encode(&v.into_iter().collect::<String>());
            if b.len() > 65535 {
                return k.clone();
            }
            Utf8(b)
        }
        Int(x) | Float(x) => match r.below(6) {
            0 => Int(x),
            1 => Float(x),
            2 => Long(u64::from(x)),
            3 => Double(u64::from(x) << 32),
            4 => Float(x ^ 1 << r.below(32)),
            _ => Int(x ^ 1 << r.below(32)),
        },
        Long(x) | Double(x) => match r.below(6) {
            0 => Long(x),
            1 => Double(x),
            2 => Int(x as u32),
            3 => Float((x >> 32) as u32),
            4 => Double(x ^ 1 << r.below(64)),
            _ => Long(x ^ 1 << r.below(64)),
        },
        Class(x) | Str(x) | MType(x) | Module(x) | Package(x) => match r.below(3) {
            0 => {
                let k = r.below(16);
                one(r, x ^ 1 << k)
            }
            _ => one(r, x),
        },
        Field(x, y) | Method(x, y) | IMethod(x, y) | NameType(x, y) | InvDyn(x, y) => match r.below(4) {
            0 => two(r, y, x),
            1 => {
                let k = r.below(16);
                two(r, x ^ 1 << k, y)
            }
            2 => {
                let k = r.below(16);
                two(r, x, y ^ 1 << k)
            }
            _ => two(r, x, y),
        },
        Handle(a, x) => match r.below(3) {
            0 => Handle(r.range(1, 9) as u8, x),
            1 => Handle(a, x ^ 1 << r.below(16)),
            _ => one(r, x),
        },
        Dynamic(x, y) => InvDyn(x, y),
    }
}

fn next_const(r: &mut Rng, b: &Both) -> Const {
    match r.below(8) {
        0..=2 => {
            if let Some(k) = b.random_present(r) {
                if matches!(&k, Const::Utf8(b) if b.len() > 500) && !r.one_in(10) {
                    return a_const(r, false);
                }
                return k;
            }
            a_const(r, false)
        }
        3 | 4 => {
            if let Some(k) = b.random_present(r) {
                return sibling(r, &k);
            }
            a_const(r, true)
        }
        5 => a_const(r, true),
        _ => a_const(r, false),
    }
}

/// random histories of pushes on pools of every origin
pub fn pushes(c: &mut Ctx) {
    let mut r = c.rng();
    let how = c.idx as usize;
    let mut b = match Both::start(c, &mut r, how) {
        Some(b) => b,
        None => return,
    };
    let n = match r.below(4) {
        0 => r.below(12),
        1 if !c.tiny => r.below(400),
        _ => r.below(80),
    };
    let check_every = r.range(1, 20);
    let mut last = 0;
    for i in 0..n {
        let k = next_const(&mut r, &b);
        if !b.push(c, &k) {
            return;
        }
        last = b.m.count();
        if i % check_every == 0 && c.prop == "C06" && b.m.count() < 200 {
            if !b.look_all(c) {
                return;
            }
        }
        if i % check_every == 0 && c.prop == "C08" && !b.iterate(c) {
            return;
        }
    }
    c.eval(b.h, n > 1);
    c.max("largest pool", last as u64);
    if !b.look_all(c) {
        return;
    }
    if c.prop == "C08" {
        if !b.iterate(c) || !b.iterate_more(c, &mut r) {
            return;
        }
    }
    c.sample(|| String::from_utf8_lossy(&b.text()).replace('\n', "; "));
}

/// distinct constants in large numbers
fn filler(kind: usize, i: usize) -> Const {
    match kind {
        0 => Const::Int(i as u32),
        1 => Const::Long(i as u64),
        2 => Const::Utf8(mutf8::encode(&format!("s{}", i))),
        3 => Const::Class(i as u16),
        4 => match i % 3 {
            0 => Const::Double((i as f64).to_bits()),
            1 => Const::Float((i as f32).to_bits()),
            _ => Const::Method(i as u16, (i >> 3) as u16),
        },
        _ => match i % 7 {
            0 => Const::Long(i as u64),
            _ => Const::Field(i as u16, 7),
        },
    }
}

/// pools at the limit of 65535, reached in every way; pushes around it
pub fn limit(c: &mut Ctx) {
    let mut r = c.rng();
    let how = c.idx as usize;
    let short = (c.idx / 5 % 6) as usize; // this many slots are free before the random pushes
    let kind = (how / 2) % 6;
    let target = 65535 - short;
    let mut b = if how % 5 == 4 {
        // parsed at (almost) full size
        let mut m = MPool::new();
        let mut i = 0;
        while m.count() < target {
            let k = filler(kind, i);
            i += 1;
            if m.count() + usize::from(k.wide()) + 1 > target {
                m.slots.push(Some(Const::Int(0xFFFF_0000 + i as u32)));
            } else {
                m.slots.push(Some(k.clone()));
                if k.wide() {
                    m.slots.push(None);
                }
            }
        }
        match Both::parsed(c, m) {
            Some(b) => b,
            None => return,
        }
    } else {
        let mut b = match Both::start(c, &mut r, how % 5) {
            Some(b) => b,
            None => return,
        };
        let mut i = 0;
        while b.m.count() < target {
            let mut k = filler(kind, i);
            i += 1;
            if b.m.count() + usize::from(k.wide()) + 1 > target {
                k = Const::Int(0xFFFF_0000 + i as u32);
            }
            if !b.push(c, &k) {
                return;
            }
        }
        b
    };
    c.count("pools filled to the limit", 1);
    // what has been pushed, in vain or not: pushed again later
    let mut before: Vec<Const> = vec![];
    for i in 0..60 {
        if !before.is_empty() && r.one_in(3) {
            let k = before[r.below(before.len())].clone();
            c.count("constants pushed again at the limit", 1);
            if !b.push(c, &k) {
                return;
            }
            continue;
        }
        let k = match r.below(7) {
            0 | 1 => Const::Long(r.u64()),
            2 => Const::Double(r.u64()),
            3 => b.random_present(&mut r).unwrap_or(Const::Int(0)),
            4 => Const::Utf8(mutf8::encode(&format!("new{}", i))),
            5 => match filler(r.below(6), 70_000 + i) {
                Const::Utf8(_) => Const::Str(i as u16),
                k => k,
            },
            _ => Const::Int(r.u32()),
        };
        before.push(k.clone());
        if !b.push(c, &k) {
            return;
        }
        // the most recent entries and what lies beyond
        let n = b.m.count();
        for i in n.saturating_sub(4)..=(n + 2).min(65535) {
            if !b.look(c, i as u16) {
                return;
            }
        }
    }
    c.max("largest pool", b.m.count() as u64);
    c.eval(b.h, true);
    let _ = b.look_all(c) && b.iterate(c) && (c.prop != "C08" || b.iterate_more(c, &mut r));
    c.sample(|| format!("{} filled with kind {} to {}, then {}", b.log[0], kind, target, b.log[b.log.len() - 5..].join("; ")));
}

/// iteration over parsed pools with many wide constants and duplicates
pub fn iterate_parsed(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = MPool::new();
    let n = match r.below(5) {
        0 => r.below(4),
        1 if !c.tiny => r.below(2000),
        _ if c.tiny => r.below(12),
        _ => r.below(100),
    };
    let wide = r.below(4);
    for _ in 0..n {
        let k = match r.below(4) {
            x if x < wide => {
                if r.bool() {
                    Const::Long(r.long())
                } else {
                    Const::Double(r.long())
                }
            }
            _ => a_const(&mut r, false),
        };
        m.add(k);
    }
    let mut b = match Both::parsed(c, m) {
        Some(b) => b,
        None => return,
    };
    if !b.iterate(c) || !b.iterate_more(c, &mut r) {
        return;
    }
    for _ in 0..r.below(10) {
        let k = next_const(&mut r, &b);
        if !b.push(c, &k) {
            return;
        }
    }
    c.eval(hash_bytes(format!("{:?}", b.m).as_bytes()), n > 0);
    let _ = b.iterate(c);
    c.sample(|| format!("parsed pool of {} entries iterated", b.m.count()));
}

/// every lookup at every index of all sorts of pools
pub fn lookups(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = MPool::new();
    let n = match r.below(6) {
        0 => r.below(3),
        1 => r.below(300),
        _ => r.range(5, 60),
    };
    let n = if c.idx % 50 == 0 { 65_000 } else { n };
    while m.count() < n {
        // mostly strings and classes referring to near indices
        let around = |r: &mut Rng| match r.below(6) {
            0 => 0,
            1 => r.idx(),
            2 => n.min(65535) as u16,
            _ => r.below(n + 3) as u16,
        };
        let k = match r.below(8) {
            0 | 1 => Const::Utf8(mutf8::encode(&a_string(&mut r, true))),
            2..=4 => Const::Class(around(&mut r)),
            5 => Const::Long(r.u64()),
            6 => Const::Str(around(&mut r)),
            _ => a_const(&mut r, false),
        };
        m.add(k);
    }
    let built = c.idx % 2 == 1;
    let b = if built {
        let mut b = Both::of(jb::Pool::new(), MPool::new(), "new".into());
        for k in m.slots.iter().flatten() {
            if !b.push(c, k) {
                return;
            }
        }
        b
    } else {
        match Both::parsed(c, m) {
            Some(b) => b,
            None => return,
        }
    };
    c.eval(hash_bytes(format!("{}{:?}", built, b.m).as_bytes()), n > 1);
    c.max("largest pool", b.m.count() as u64);
    let m = &b.m;
    let p = &b.p;
    let utf8 = |i: u16| m.text(i).ok_or(i);
    let mut found = (0u64, 0u64, 0u64, 0u64);
    for i in 0..=65535u16 {
        let got = match guard(|| (p.get_utf8(i), p.get_class_name(i), p.get_class_name_opt(i), p.get(i).map(|x| val::j_item(x)))) {
            Ok(g) => g,
            Err(e) => {
                c.violate(&format!("a lookup at index {} of a pool of {} panicked: {}", i, m.count(), e), format!("{:?}", m).as_bytes());
                return;
            }
        };
        let to = |e: jbcrs::Error| match e {
            jbcrs::Error::InvalidCPItem(i) => Ok(i),
            e => Err(val::err(&e)),
        };
        let want_u = utf8(i);
        let (want_c, want_o) = match m.get(i) {
            Some(Const::Class(0)) => (Err(0), Ok(None)),
            Some(Const::Class(j)) => (utf8(*j), utf8(*j).map(Some)),
            _ => (Err(i), Err(i)),
        };
        found.0 += u64::from(want_u.is_ok());
        found.1 += u64::from(want_c.is_ok());
        found.2 += u64::from(want_o == Ok(None));
        found.3 += u64::from(want_c.is_err());
        let want_g = m.get(i).map(|_| val::m_const(m, i)).ok_or(i);
        let mut bad = None;
        let g = got.0.map_err(to);
        if !same(&want_u, &g) {
            bad = Some(format!("get_utf8({}) gives {:?}, expected {:?}", i, g, want_u));
        }
        let g = got.1.map_err(to);
        if !same(&want_c, &g) {
            bad = Some(format!("get_class_name({}) gives {:?}, expected {:?}", i, g, want_c));
        }
        let g = got.2.map_err(to);
        if !same(&want_o, &g) {
            bad = Some(format!("get_class_name_opt({}) gives {:?}, expected {:?}", i, g, want_o));
        }
        let g = got.3.map_err(to);
        if !same(&want_g, &g) {
            // C04 and C06 judge this one
            c.count("lookups of other properties that differ", 1);
        }
        if let Some(m2) = bad {
            c.violate(&m2, format!("{:?}", m).as_bytes());
            return;
        }
    }
    c.count("indices looked up", 65536);
    c.count("strings found", found.0);
    c.count("class names found", found.1);
    c.count("class names without a name", found.2);
    c.count("errors expected of the class name lookup", found.3);
    c.sample(|| format!("pool of {} ({}): {:.300}", m.count(), if built { "pushed" } else { "parsed" }, format!("{:?}", m)));
}

fn same<T: PartialEq>(want: &Result<T, u16>, got: &Result<T, Result<u16, String>>) -> bool {
    match (want, got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(Ok(b))) => a == b,
        _ => false,
    }
}

// ---------------------------------------------------------------- equality

/// records what is fed to it
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        hash_bytes(&self.0)
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

fn pair(c: &mut Ctx, a: &Const, b: &Const) -> bool {
    let want = key(a) == key(b);
    let (x, y) = (to_item(a), to_item(b));
    let r = guard(|| {
        let h = |i: &jb::Item| {
            let mut d = DefaultHasher::new();
            i.hash(&mut d);
            let mut r = Rec(vec![]);
            i.hash(&mut r);
            (d.finish(), r.finish())
        };
        let mut p = jb::Pool::new();
        let ia = p.push(x.clone());
        let ib = p.push(y.clone());
        let set: HashSet<jb::Item> = vec![x.clone(), y.clone()].into_iter().collect();
        (x == y, y == x, x != y, h(&x) == h(&y), ia, ib, set.len(), x == x.clone() && y == y.clone(), h(&x) == h(&x.clone()))
    });
    c.count(if want { "equal pairs" } else { "unequal pairs" }, 1);
    let show = |m: &str| format!("{:.120} and {:.120}: {}", format!("{:?}", a), format!("{:?}", b), m);
    let m = match r {
        Err(m) => format!("panic: {}", m),
        Ok((e1, e2, ne, hash, ia, ib, set, refl, hrefl)) => {
            if e1 != want || e2 != want || ne == want {
                format!("equality should be {}, == gives {} and {} in reverse, != gives {}", want, e1, e2, ne)
            } else if want && !hash {
                "equal but hashed differently".into()
            } else if !refl || !hrefl {
                "not equal to its own clone".into()
            } else if set != if want { 1 } else { 2 } {
                format!("a set of both has {} elements", set)
            } else {
                match (ia, ib) {
                    (Ok(i), Ok(j)) if (i == j) == want => return true,
                    (i, j) => format!("interned at {:?} and {:?}", i.map_err(|e| val::err(&e)), j.map_err(|e| val::err(&e))),
                }
            }
        }
    };
    c.violate(&show(&m), format!("{:?}\n{:?}", a, b).as_bytes());
    false
}

/// constants of all kinds with one payload, and all pairs of them
fn with_payload(x: u16, y: u16) -> Vec<Const> {
    use Const::*;
    let w = u32::from(x) << 16 | u32::from(y);
    let l = u64::from(w) << 32 | u64::from(w);
    let mut v = vec![
        Int(w),
        Float(w),
        Long(u64::from(w)),
        Long(l),
        Double(l),
        Double(u64::from(w)),
        Int(u32::from(x)),
        Float(u32::from(x)),
        Class(x),
        Str(x),
        Field(x, y),
        Method(x, y),
        IMethod(x, y),
        NameType(x, y),
        InvDyn(x, y),
        Field(y, x),
        Method(y, x),
        IMethod(y, x),
        NameType(y, x),
        InvDyn(y, x),
        MType(x),
        Module(x),
        Package(x),
        Utf8(mutf8::encode(&x.to_string())),
        Utf8(mutf8::encode(&(x as u8 as char).to_string())),
    ];
    for k in 1..=9 {
        v.push(Handle(k, x));
    }
    v
}

pub fn equal_kinds(c: &mut Ctx) {
    let vals = [0u16, 1, 2, 7, 0xFF, 0x100, 0x7F80, 0x7FC0, 0x8000, 0xFF80, 0xFFFF];
    let mut r = c.rng();
    let n = vals.len();
    let (x, y) = if (c.idx as usize) < n * n { (vals[c.idx as usize % n], vals[c.idx as usize / n]) } else { (r.u16(), r.u16()) };
    let v = with_payload(x, y);
    for a in &v {
        for b in &v {
            c.eval(hash_bytes(&[key(a), vec![0xFE], key(b)].concat()), true);
            if !pair(c, a, b) {
                return;
            }
        }
    }
    c.sample(|| format!("all pairs of {} constants with payload {}, {}", v.len(), x, y));
}

pub fn equal_siblings(c: &mut Ctx) {
    let mut r = c.rng();
    for _ in 0..200 {
        let a = a_const(&mut r, true);
        if matches!(&a, Const::Utf8(b) if b.len() > 2000) && !r.one_in(20) {
            continue;
        }
        let b = match r.below(3) {
            0 => a.clone(),
            1 => sibling(&mut r, &a),
            _ => {
                let s = sibling(&mut r, &a);
                sibling(&mut r, &s)
            }
        };
        c.eval(hash_bytes(&[key(&a), vec![0xFE], key(&b)].concat()), true);
        if !pair(c, &a, &b) {
            return;
        }
        c.sample(|| format!("{:.100} and {:.100}", format!("{:?}", a), format!("{:?}", b)));
    }
}

/// NaNs, zeros, infinities, and all single bit differences
pub fn equal_floats(c: &mut Ctx) {
    let f = [0u32, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000, 0x7F80_0001, 0x7FA0_0000, 0x7FFF_FFFF, 1, 0x8000_0001, 0x3F80_0000];
    let i = c.idx as usize;
    let mut r = c.rng();
    let x = if i < f.len() { f[i] } else { r.word() };
    let l = if i < f.len() {
        let x = f64::from(f32::from_bits(x)).to_bits();
        if x == 0x7FF8_0000_0000_0000 {
            x ^ 0x0008_0000_0000_0001
        } else {
            x
        }
    } else {
        r.long()
    };
    let mut v = vec![];
    for y in f.iter().cloned().chain((0..32).map(|k| x ^ 1 << k)).chain(Some(x)) {
        v.push((Const::Float(x), Const::Float(y)));
        v.push((Const::Int(x), Const::Int(y)));
    }
    for y in f.iter().map(|y| u64::from(*y) << 32).chain((0..64).map(|k| l ^ 1 << k)).chain(Some(l)) {
        v.push((Const::Double(l), Const::Double(y)));
        v.push((Const::Long(l), Const::Long(y)));
    }
    for (a, b) in v {
        c.eval(hash_bytes(&[key(&a), vec![0xFE], key(&b)].concat()), true);
        if !pair(c, &a, &b) {
            return;
        }
    }
    c.sample(|| format!("float {:#x} and double {:#x} against all single bit differences", x, l));
}

/// many constants at once in one pool: no two share an index
pub fn equal_crowd(c: &mut Ctx) {
    let mut r = c.rng();
    let mut b = Both::of(jb::Pool::new(), MPool::new(), "new".into());
    let mut all = vec![];
    for _ in 0..300 {
        let k = match all.last() {
            Some(l) if r.bool() => sibling(&mut r, l),
            _ => a_const(&mut r, false),
        };
        if matches!(&k, Const::Utf8(b) if b.len() > 2000) {
            continue;
        }
        all.push(k);
    }
    r.shuffle(&mut all);
    for k in &all {
        if !b.push(c, k) {
            return;
        }
    }
    c.eval(b.h, true);
    c.sample(|| format!("{} constants, {} different", all.len(), b.at.len()));
}

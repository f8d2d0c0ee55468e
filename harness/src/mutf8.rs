//! Modified UTF-8 (JVMS 4.4.7), by way of UTF-16 code units.

#[derive(Debug, PartialEq)]
pub enum Dec {
    Ok(String),
    /// well-formed sequences, but a code unit in more bytes than necessary: the specification
    /// leaves accepting it to the version of the class file
    Overlong(String),
    Bad,
}

pub fn encode_units(units: &[u16]) -> Vec<u8> {
    let mut v = Vec::new();
    for &u in units {
        match u {
            0x0001..=0x007F => v.push(u as u8),
            0x0000 | 0x0080..=0x07FF => {
                v.push(0xC0 | (u >> 6) as u8);
                v.push(0x80 | (u & 0x3F) as u8);
            }
            _ => {
                v.push(0xE0 | (u >> 12) as u8);
                v.push(0x80 | ((u >> 6) & 0x3F) as u8);
                v.push(0x80 | (u & 0x3F) as u8);
            }
        }
    }
    v
}

pub fn encode(s: &str) -> Vec<u8> {
    let units: Vec<u16> = s.encode_utf16().collect();
    encode_units(&units)
}

pub fn decode(b: &[u8]) -> Dec {
    let mut units = Vec::with_capacity(b.len());
    let mut overlong = false;
    let mut i = 0;
    let cont = |i: usize| b.get(i).filter(|x| **x >= 0x80 && **x <= 0xBF).map(|x| u16::from(*x) - 0x80);
    while i < b.len() {
        match b[i] {
            0x01..=0x7F => {
                units.push(u16::from(b[i]));
                i += 1;
            }
            0xC0..=0xDF => {
                let Some(y) = cont(i + 1) else { return Dec::Bad };
                let u = u16::from(b[i] - 0xC0) * 64 + y;
                overlong |= u != 0 && u < 0x80;
                units.push(u);
                i += 2;
            }
            0xE0..=0xEF => {
                let (Some(y), Some(z)) = (cont(i + 1), cont(i + 2)) else { return Dec::Bad };
                let u = u16::from(b[i] - 0xE0) * 4096 + y * 64 + z;
                overlong |= u < 0x800;
                units.push(u);
                i += 3;
            }
            _ => return Dec::Bad,
        }
    }
    match String::from_utf16(&units) {
        Ok(s) if overlong => Dec::Overlong(s),
        Ok(s) => Dec::Ok(s),
        Err(_) => Dec::Bad,
    }
}

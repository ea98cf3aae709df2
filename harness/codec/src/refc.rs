//! Reference view of the MQTT 5.0 wire format, written from the specification.

pub enum Fr {
    Incomplete,
    BadLength,
    Complete { hdr: usize, total: usize },
}

/// Frame the buffer: one fixed-header byte, 1-4 byte remaining length, body.
pub fn frame(b: &[u8]) -> Fr {
    if b.len() < 2 {
        return Fr::Incomplete;
    }
    let mut v = 0usize;
    for i in 0..4 {
        if b.len() <= 1 + i {
            return Fr::Incomplete;
        }
        let x = b[1 + i];
        v |= ((x & 0x7f) as usize) << (7 * i);
        if x & 0x80 == 0 {
            if i > 0 && x == 0 {
                return Fr::BadLength; // MQTT 1.5.5: not the shortest encoding
            }
            let hdr = 2 + i;
            return if b.len() < hdr + v { Fr::Incomplete } else { Fr::Complete { hdr, total: hdr + v } };
        }
    }
    Fr::BadLength
}
/// MQTT 2.1.3: flag bits of the first byte (AUTH is not implemented, type 0 is reserved).
pub fn first_ok(b0: u8) -> bool {
    let f = b0 & 0x0f;
    match b0 >> 4 {
        3 => f & 0x06 != 0x06,
        6 | 8 | 10 => f == 2,
        1 | 2 | 4 | 5 | 7 | 9 | 11..=14 => f == 0,
        _ => false,
    }
}

pub fn vbi(mut v: u32) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
pub fn w16(v: u16) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}
pub fn w32(v: u32) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}
pub fn wbin(v: &[u8]) -> Vec<u8> {
    let mut o = w16(v.len() as u16);
    o.extend_from_slice(v);
    o
}
pub fn wstr(v: &str) -> Vec<u8> {
    wbin(v.as_bytes())
}
pub fn cat(p: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![];
    for x in p {
        o.extend_from_slice(x);
    }
    o
}

/// How the value of a property is laid out (MQTT 2.2.2.2).
#[derive(Clone, Copy, PartialEq)]
pub enum Lay {
    B1,
    B2,
    B4,
    Var,
    Str,
    Pair,
}
pub fn layout(id: u8) -> Option<Lay> {
    Some(match id {
        0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2a => Lay::B1,
        0x13 | 0x21 | 0x22 | 0x23 => Lay::B2,
        0x02 | 0x11 | 0x18 | 0x27 => Lay::B4,
        0x0b => Lay::Var,
        0x03 | 0x08 | 0x09 | 0x12 | 0x15 | 0x16 | 0x1a | 0x1c | 0x1f => Lay::Str,
        0x26 => Lay::Pair,
        _ => return None,
    })
}

#[derive(Clone, PartialEq)]
pub struct Prop {
    pub id: u8,
    pub val: Vec<u8>,
}
pub fn props(ps: &[Prop]) -> Vec<u8> {
    let mut body = vec![];
    for p in ps {
        body.push(p.id);
        body.extend_from_slice(&p.val);
    }
    let mut o = vbi(body.len() as u32);
    o.extend_from_slice(&body);
    o
}
/// Parse `[length][id value]*` at `b`; returns the properties and the bytes used.
pub fn parse_props(b: &[u8]) -> Option<(Vec<Prop>, usize)> {
    let (len, n) = parse_vbi(b)?;
    let end = n + len as usize;
    if end > b.len() {
        return None;
    }
    let mut i = n;
    let mut out = vec![];
    while i < end {
        let id = b[i];
        i += 1;
        let l = match layout(id)? {
            Lay::B1 => 1,
            Lay::B2 => 2,
            Lay::B4 => 4,
            Lay::Var => parse_vbi(&b[i..])?.1,
            Lay::Str => {
                if i + 2 > end {
                    return None;
                }
                2 + u16::from_be_bytes([b[i], b[i + 1]]) as usize
            }
            Lay::Pair => {
                if i + 2 > end {
                    return None;
                }
                let k = 2 + u16::from_be_bytes([b[i], b[i + 1]]) as usize;
                if i + k + 2 > end {
                    return None;
                }
                k + 2 + u16::from_be_bytes([b[i + k], b[i + k + 1]]) as usize
            }
        };
        if i + l > end {
            return None;
        }
        out.push(Prop { id, val: b[i..i + l].to_vec() });
        i += l;
    }
    Some((out, end))
}
pub fn parse_vbi(b: &[u8]) -> Option<(u32, usize)> {
    let mut v = 0u32;
    for i in 0..4 {
        let x = *b.get(i)?;
        v |= ((x & 0x7f) as u32) << (7 * i);
        if x & 0x80 == 0 {
            if i > 0 && x == 0 {
                return None; // MQTT 1.5.5: not the shortest encoding
            }
            return Some((v, i + 1));
        }
    }
    None
}

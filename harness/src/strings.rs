//! String literals: from what the source said to the symbol the compiler makes of it.

use crate::mangle::number;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Char,
    Wide,
    U16,
    U32,
}

pub fn byte(b: u8, out: &mut String) {
    match b {
        b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'$' => out.push(b as char),
        _ => {
            if let Some(i) = b",/\\:. \n\t'-".iter().position(|x| *x == b) {
                out.push('?');
                out.push((b'0' + i as u8) as char);
            } else if (0xE1..=0xFA).contains(&b) {
                out.push('?');
                out.push((b - 0xE1 + b'a') as char);
            } else if (0xC1..=0xDA).contains(&b) {
                out.push('?');
                out.push((b - 0xC1 + b'A') as char);
            } else {
                hex(b, out);
            }
        }
    }
}

pub fn hex(b: u8, out: &mut String) {
    out.push_str("?$");
    out.push((b'A' + b / 16) as char);
    out.push((b'A' + b % 16) as char);
}

/// how many bytes of a literal compilers keep
fn kept(kind: Kind) -> usize {
    if kind == Kind::Wide {
        64
    } else {
        32
    }
}

/// `units` without the terminating zero
pub fn encode(kind: Kind, units: &[u32]) -> String {
    let width = match kind {
        Kind::Char => 1,
        Kind::Wide | Kind::U16 => 2,
        Kind::U32 => 4,
    };
    let mut all: Vec<u32> = units.to_vec();
    all.push(0);
    let len = all.len() * width;
    let keep = all.len().min(kept(kind) / width);
    let mut s = String::from("??_C@_");
    s.push(if kind == Kind::Wide { '1' } else { '0' });
    s += &number(len as u64, false);
    s += "EKCDPFCA@";
    for u in &all[..keep] {
        match kind {
            Kind::Char => byte(*u as u8, &mut s),
            Kind::Wide => {
                byte((*u >> 8) as u8, &mut s);
                byte(*u as u8, &mut s);
            }
            Kind::U16 | Kind::U32 => {
                for k in 0..width {
                    byte((*u >> (8 * k)) as u8, &mut s);
                }
            }
        }
    }
    s + "@"
}

/// what it should read
pub fn text(kind: Kind, units: &[u32]) -> String {
    let width = match kind {
        Kind::Char => 1,
        Kind::Wide | Kind::U16 => 2,
        Kind::U32 => 4,
    };
    let len = (units.len() + 1) * width;
    let keep = kept(kind) / width;
    let cut = len > kept(kind);
    let shown = if cut { &units[..keep.min(units.len())] } else { units };
    let body: String = shown.iter().map(|u| crate::parse::escape(*u)).collect();
    let l = ["", "L", "u", "U"][kind as usize];
    format!("{l}\"{body}\"{}", if cut { "..." } else { "" })
}

//! Literals of the code under test (collected by build.rs), which the generators use now and then: a condition on a
//! particular number or text is met that way. Those that the original code does not have are used more often. They
//! only steer what is generated, not what is expected.

include!(concat!(env!("OUT_DIR"), "/literals.rs"));

/// A literal number or one of its neighbours.
pub fn int(x: u64) -> u64 {
    let (l, x) = if !NEW_INTS.is_empty() && x % 2 == 0 { (NEW_INTS, x / 2) } else { (INTS, x / 2) };
    if l.is_empty() {
        return x;
    }
    let n = l[(x / 8) as usize % l.len()];
    match x % 8 {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        _ => n,
    }
}

/// One in the range, if there is any.
pub fn within(x: u64, lo: usize, hi: usize) -> Option<usize> {
    (0..32).map(|i| int(x.wrapping_add(i * 0x9e37_79b9))).find(|n| *n >= lo as u64 && *n <= hi as u64).map(|n| n as usize)
}

pub fn word(x: u64) -> &'static [u8] {
    let (l, x) = if !NEW_WORDS.is_empty() && x % 2 == 0 { (NEW_WORDS, x / 2) } else { (WORDS, x / 2) };
    if l.is_empty() { b"" } else { l[x as usize % l.len()] }
}

/// Puts a literal into octets: a text at the front, at the end or somewhere, or a number of one, two or four octets.
pub fn salt(b: &mut [u8], x: u64) {
    let n = int(x >> 8);
    let w: Vec<u8> = match x % 8 {
        0..=3 => word(x >> 8).to_vec(),
        4 | 5 => vec![n as u8],
        6 => (n as u16).to_be_bytes().to_vec(),
        _ => (n as u32).to_be_bytes().to_vec(),
    };
    if w.len() <= b.len() {
        let room = b.len() - w.len();
        let i = match x >> 3 & 3 {
            0 | 1 => 0,
            2 => room,
            _ => (x >> 40) as usize % (room + 1),
        };
        b[i..i + w.len()].copy_from_slice(&w);
    }
}

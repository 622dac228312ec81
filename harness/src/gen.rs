//! Generators shared by the checks.

use crate::engine::B;
use crate::lits;
use crate::refimpl;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;
use radius::core::code::Code;
use serde::{Deserialize, Serialize};

/// An octet; one time in eight a literal of the code under test.
pub fn octet() -> BoxedStrategy<u8> {
    prop_oneof![7 => any::<u8>(), 1 => any::<u64>().prop_map(|x| lits::within(x, 0, 255).unwrap_or(0) as u8)].boxed()
}

pub fn word16() -> BoxedStrategy<u16> {
    prop_oneof![7 => any::<u16>(), 1 => any::<u64>().prop_map(|x| lits::within(x, 0, 65_535).unwrap_or(0) as u16)].boxed()
}

pub fn word32() -> BoxedStrategy<u32> {
    prop_oneof![7 => any::<u32>(), 1 => any::<u64>().prop_map(|x| lits::int(x) as u32)].boxed()
}

/// Octets of a number in the range: random ones, or (one time in four) of one of the particular kinds; now and then of
/// a number, or with numbers and texts, that occur in the code under test.
pub fn bytes(r: std::ops::RangeInclusive<usize>) -> BoxedStrategy<B> {
    let (lo, hi) = (*r.start(), *r.end());
    (vec(any::<u8>(), r), 0u8..4 * FLAVOURS, any::<u8>(), prop_oneof![15 => Just(0u64), 1 => any::<u64>()])
        .prop_map(move |(mut b, kind, x, lit)| {
            if lit % 3 != 0 {
                if let Some(n) = lits::within(lit >> 2, lo, hi) {
                    b = (0..n).map(|i| if b.is_empty() { x.wrapping_add(i as u8) } else { b[i % b.len()].wrapping_add((i / b.len()) as u8) }).collect();
                }
            }
            if lit % 3 == 2 || lit % 3 == 0 && lit > 0 {
                lits::salt(&mut b, lit >> 2);
            }
            if kind >= 3 * FLAVOURS && lit == 0 {
                flavour(&mut b, kind, x);
            }
            B(b)
        })
        .boxed()
}

/// How many kinds of content `flavour` knows.
pub const FLAVOURS: u8 = 32;

/// Gives octets, keeping their number, a content of a kind that code is tempted to treat specially: text, text with a
/// line end, blank or NUL at one of its ends, in quotes or brackets, with a scheme or a number's prefix, in hexadecimal
/// or base64, escaped, in one case, as UTF-8; a zero or 0xff octet at an end, one octet repeated, counting octets, the
/// two halves alike, the shape of an attribute or of an IPv6 address of a particular kind.
pub fn flavour(b: &mut [u8], kind: u8, x: u8) {
    let n = b.len();
    let every = |b: &mut [u8], f: &dyn Fn(usize, u8) -> u8| b.iter_mut().enumerate().for_each(|(i, o)| *o = f(i, *o));
    let text = |b: &mut [u8]| every(b, &|_, o| b' ' + o % 95);
    let of = |b: &mut [u8], alphabet: &[u8]| every(b, &|_, o| alphabet[o as usize % alphabet.len()]);
    let front = |b: &mut [u8], w: &[u8]| if w.len() <= b.len() { b[..w.len()].copy_from_slice(w) };
    let back = |b: &mut [u8], w: &[u8]| if w.len() <= b.len() { let k = b.len() - w.len(); b[k..].copy_from_slice(w) };
    let ends = |b: &mut [u8], w: &[u8]| {
        if x & 1 == 0 {
            back(b, w);
        }
        if x & 3 != 0 && x & 3 != 2 {
            front(b, w);
        }
    };
    match kind % FLAVOURS {
        0 => text(b),
        1 => {
            text(b);
            back(b, b"\n");
        }
        2 => {
            text(b);
            back(b, b"\r\n");
        }
        3 => {
            text(b);
            ends(b, &[0]);
        }
        4 => {
            text(b);
            ends(b, b" ");
        }
        5 => {
            text(b);
            ends(b, &[0, 0]);
        }
        6 => ends(b, &[0]),
        7 => ends(b, &[0xff]),
        8 => b.fill(x),
        9 => b.fill(if x & 1 == 0 { 0 } else { 0xff }),
        10 => every(b, &|i, _| x.wrapping_add(i as u8)),
        11 => {
            text(b);
            ends(b, b"\t");
        }
        12 => {
            text(b);
            let q = b"\"'`([{<"[x as usize % 7];
            let p = b"\"'`)]}>"[x as usize % 7];
            front(b, &[q]);
            back(b, &[p]);
        }
        13 => {
            of(b, b"0123456789abcdef");
            if x & 1 == 0 {
                front(b, if x & 2 == 0 { b"0x" } else { b"0X" });
            }
        }
        14 => of(b, if x & 1 == 0 { b"0123456789ABCDEF" } else { b"0123456789" }),
        15 => {
            of(b, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
            if x & 1 == 0 {
                back(b, if x & 2 == 0 { b"=" } else { b"==" });
            }
        }
        16 => {
            text(b);
            let w: [&[u8]; 8] = [b"%20", b"\\n", b"\\0", b"%%", b"\\\\", b"&amp;", b"\\x00", b"$HOME"];
            let w = w[x as usize % 8];
            if w.len() <= n {
                let i = (x as usize / 8) % (n - w.len() + 1);
                b[i..i + w.len()].copy_from_slice(w);
            }
        }
        17 => {
            of(b, b"abcdefghijklmnopqrstuvwxyz");
            if x & 1 == 0 && n > 2 {
                b[n / 2] = b"@:/\\.#,;=|"[x as usize / 2 % 10];
            }
        }
        18 => of(b, b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        19 => {
            // UTF-8 throughout, of two octets each, possibly with one too few
            every(b, &|i, o| if i % 2 == 0 { 0xc3 } else { 0x80 | o & 0x3f });
            if n % 2 == 1 && x & 1 == 0 {
                back(b, b"e");
            }
        }
        20 => {
            text(b);
            front(b, b"\xef\xbb\xbf");
        }
        21 => {
            text(b);
            let w: [&[u8]; 8] = [b"env:", b"file:", b"hex:", b"base64:", b"{clear}", b"$1$", b"md5:", b"#"];
            front(b, w[x as usize % 8]);
        }
        22 => {
            let h = n / 2;
            for i in 0..h {
                b[n - h + i] = b[i];
            }
        }
        23 => every(b, &|_, o| o & 0x7f),
        24 => every(b, &|_, o| o | 0x80),
        25 => {
            // mostly zeros
            every(b, &|i, o| if i % 16 == x as usize % 16 { o } else { 0 });
        }
        26 => {
            // starts as an attribute that takes up all of it, or a part
            if n >= 2 {
                b[1] = if x & 1 == 0 { n.min(255) as u8 } else { 2 + x % 16 };
            }
        }
        27 => {
            // starts with its own length
            if n >= 1 {
                b[0] = (n - 1).min(255) as u8;
            }
        }
        28 => {
            // zeros from somewhere on, as padding has them
            let k = if n == 0 { 0 } else { x as usize % n };
            b[k..].fill(0);
        }
        29 => {
            // padding that tells its size
            let k = (x as usize % 16 + 1).min(n);
            b[n - k..].fill(k as u8);
        }
        30 => b.sort_unstable(),
        _ => {
            // addresses of particular kinds
            if n >= 16 {
                let h: [&[u8]; 16] = [
                    &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff], &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0, 0x64, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0, 0], &[0x20, 2],
                    &[0xfe, 0x80, 0, 0, 0, 0, 0, 0], &[0xff, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0x20, 1, 0xd, 0xb8], &[0x20, 1, 0, 0],
                    &[0xfc], &[0xfd, 0, 0], &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], &[0; 16], &[0xff; 16], &[0x20, 1, 0, 0, 0, 0, 0, 0],
                    &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0, 0, 0, 0], &[0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0, 0],
                ];
                front(b, h[x as usize % 16]);
            } else if n >= 4 {
                let h: [&[u8]; 8] = [&[127, 0, 0, 1], &[0, 0, 0, 0], &[255, 255, 255, 255], &[255, 255, 255, 254], &[10], &[192, 168], &[224, 0, 0], &[169, 254]];
                front(b, h[x as usize % 8]);
            }
        }
    }
}

pub fn special(r: std::ops::RangeInclusive<usize>) -> BoxedStrategy<B> {
    (0u8..FLAVOURS, bytes(r), any::<u8>())
        .prop_map(move |(kind, mut b, x)| {
            flavour(&mut b.0, kind, x);
            b
        })
        .boxed()
}

/// Sixteen octets, often an IPv6 address of a particular kind.
pub fn address6() -> BoxedStrategy<B> {
    prop_oneof![
        2 => bytes(16..=16),
        1 => special(16..=16),
        3 => (bytes(16..=16), any::<u8>()).prop_map(|(mut b, x)| {
            flavour(&mut b.0, FLAVOURS - 1, x);
            b
        }),
        // one run of zeros
        1 => (bytes(16..=16), 0usize..16, 1usize..=16).prop_map(|(mut b, i, n)| {
            let e = (i + n).min(16);
            b.0[i..e].fill(0);
            b
        }),
    ]
    .boxed()
}

/// Non-empty shared secrets; mostly short, some beyond one MD5 block, some beyond 256 octets.
pub fn secret() -> BoxedStrategy<B> {
    prop_oneof![
        12 => bytes(1..=24),
        4 => special(1..=24),
        2 => bytes(40..=80),
        2 => bytes(100..=300),
        1 => prop_oneof![bytes(55..=57), bytes(63..=65), bytes(127..=129), bytes(253..=258), bytes(1000..=1100)],
    ]
    .boxed()
}

pub fn secret_or_empty() -> BoxedStrategy<B> {
    prop_oneof![9 => secret(), 1 => Just(B(vec![]))].boxed()
}

pub fn auth() -> BoxedStrategy<B> {
    prop_oneof![12 => bytes(16..=16), 2 => special(16..=16), 1 => Just(B(vec![0; 16])), 1 => Just(B(vec![0xff; 16]))].boxed()
}

/// An attribute type: any, with the interesting ones more often.
pub fn attr_type() -> BoxedStrategy<u8> {
    prop_oneof![
        3 => octet(),
        2 => 1u8..=12,
        1 => prop::sample::select(vec![0u8, 24, 26, 33, 64, 69, 79, 80, 97, 123, 151, 155, 170, 255]),
    ]
    .boxed()
}

/// An attribute value that fits (0..=253).
pub fn attr_value() -> BoxedStrategy<B> {
    prop_oneof![
        6 => bytes(0..=24),
        3 => special(0..=24),
        1 => bytes(25..=130),
        1 => prop_oneof![bytes(250..=253), bytes(131..=249), special(100..=253)],
    ]
    .boxed()
}

pub fn attr() -> BoxedStrategy<(u8, B)> {
    (attr_type(), attr_value()).boxed()
}

/// Attribute lists; in some of them one attribute appears again, unchanged, somewhere later.
pub fn attrs(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<(u8, B)>> {
    let hi = *n.end();
    (vec(attr(), n), any::<u8>(), any::<u16>(), any::<u16>())
        .prop_map(move |(mut l, k, from, to)| {
            if k < 40 && !l.is_empty() && l.len() < hi {
                let a = l[at(from, l.len())].clone();
                let i = at(to, l.len() + 1);
                l.insert(i, a);
            }
            l
        })
        .boxed()
}

/// Very many small attributes, up to as many as a datagram holds.
pub fn crowded() -> BoxedStrategy<Vec<(u8, B)>> {
    (
        prop_oneof![200usize..=300, 500usize..=520, 1000usize..=1030, 1300usize..=1370, 2000usize..=2038, 257usize..=2038],
        vec((attr_type(), bytes(0..=3)), 1..=8),
        any::<u8>(),
    )
        .prop_map(|(n, kinds, spread)| {
            let mut out: Vec<(u8, B)> = vec![];
            let mut left = 4096 - 20;
            for i in 0..n {
                let (t, v) = &kinds[i % kinds.len()];
                let t = if spread & 1 == 0 { *t } else { t.wrapping_add((i / kinds.len()) as u8) };
                // what would not fit any more is left empty, so that the wished number of attributes is reached
                let v = if v.len() + 2 + 2 * (n - i - 1) <= left { v.clone() } else { B(vec![]) };
                if v.len() + 2 > left {
                    break;
                }
                left -= v.len() + 2;
                out.push((t, v));
            }
            out
        })
        .boxed()
}

pub fn plain(a: &[(u8, B)]) -> Vec<(u8, Vec<u8>)> {
    a.iter().map(|(t, v)| (*t, v.0.clone())).collect()
}

pub fn attrs_wire(a: &[(u8, B)]) -> Vec<u8> {
    refimpl::attr_bytes(&plain(a))
}

pub fn code_of(set: &[u8]) -> BoxedStrategy<u8> {
    prop::sample::select(set.to_vec()).boxed()
}

pub fn any_code_octet() -> BoxedStrategy<u8> {
    prop_oneof![4 => code_of(&refimpl::ALL_CODES), 1 => octet()].boxed()
}

/// The library's code for one of the 16 defined octets, without going through the library's own mapping.
pub fn lib_code(o: u8) -> Code {
    match o {
        1 => Code::AccessRequest,
        2 => Code::AccessAccept,
        3 => Code::AccessReject,
        4 => Code::AccountingRequest,
        5 => Code::AccountingResponse,
        11 => Code::AccessChallenge,
        12 => Code::StatusServer,
        13 => Code::StatusClient,
        40 => Code::DisconnectRequest,
        41 => Code::DisconnectACK,
        42 => Code::DisconnectNAK,
        43 => Code::CoARequest,
        44 => Code::CoAACK,
        45 => Code::CoANAK,
        255 => Code::Reserved,
        _ => Code::Invalid,
    }
}

/// A change to a datagram. Positions are fractions of the length so that they stay meaningful while shrinking.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    LengthDelta(i32),
    LengthAbs(u16),
    Xor(u16, u8),
    Truncate(u16),
    Append(B),
    Insert(u16, u8),
    Remove(u16),
    /// set the length octet of the n-th attribute
    AttrLen(u8, u8),
}

pub fn at(pos: u16, len: usize) -> usize {
    if len == 0 {
        0
    } else {
        (pos as usize * len) >> 16
    }
}

pub fn mutate(bs: &mut Vec<u8>, m: &Mutation) {
    match m {
        Mutation::LengthDelta(d) => {
            if bs.len() >= 4 {
                let l = (bs[2] as i32 * 256 + bs[3] as i32 + d).clamp(0, 65535);
                bs[2] = (l >> 8) as u8;
                bs[3] = l as u8;
            }
        }
        Mutation::LengthAbs(l) => {
            if bs.len() >= 4 {
                bs[2] = (l >> 8) as u8;
                bs[3] = *l as u8;
            }
        }
        Mutation::Xor(p, x) => {
            if !bs.is_empty() {
                let i = at(*p, bs.len());
                bs[i] ^= x;
            }
        }
        Mutation::Truncate(p) => {
            let n = at(*p, bs.len() + 1);
            bs.truncate(n);
        }
        Mutation::Append(b) => bs.extend(&b.0),
        Mutation::Insert(p, x) => {
            let i = at(*p, bs.len() + 1);
            bs.insert(i, *x);
        }
        Mutation::Remove(p) => {
            if !bs.is_empty() {
                let i = at(*p, bs.len());
                bs.remove(i);
            }
        }
        Mutation::AttrLen(n, v) => {
            let mut offs = vec![];
            let mut i = 20;
            while i + 1 < bs.len() && bs[i + 1] >= 2 {
                offs.push(i);
                i += bs[i + 1] as usize;
            }
            if !offs.is_empty() {
                let o = offs[*n as usize % offs.len()];
                bs[o + 1] = *v;
            }
        }
    }
}

pub fn mutation() -> BoxedStrategy<Mutation> {
    Union::new_weighted(vec![
        (3, (-24i32..=24).prop_map(Mutation::LengthDelta).boxed()),
        (
            2,
            prop_oneof![
                0u16..=24,
                4090u16..=4100,
                Just(65535u16),
                Just(256u16),
                any::<u16>()
            ]
            .prop_map(Mutation::LengthAbs)
            .boxed(),
        ),
        (4, (any::<u16>(), 1u8..=255).prop_map(|(p, x)| Mutation::Xor(p, x)).boxed()),
        (2, any::<u16>().prop_map(Mutation::Truncate).boxed()),
        (2, bytes(1..=8).prop_map(Mutation::Append).boxed()),
        (1, (any::<u16>(), any::<u8>()).prop_map(|(p, x)| Mutation::Insert(p, x)).boxed()),
        (1, any::<u16>().prop_map(Mutation::Remove).boxed()),
        (
            3,
            (
                any::<u8>(),
                prop_oneof![3 => 0u8..=4, 1 => any::<u8>(), 1 => 250u8..=255],
            )
                .prop_map(|(n, v)| Mutation::AttrLen(n, v))
                .boxed(),
        ),
    ])
    .boxed()
}

/// Attribute lists that bring the packet to exactly `total` octets (when reachable).
pub fn filled(total: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<(u8, B)>> {
    (total, any::<u8>(), any::<u8>())
        .prop_map(|(total, t, x)| {
            let mut left = total - 20;
            let mut out = vec![];
            while left >= 2 {
                let mut n = left.min(255);
                if left - n == 1 {
                    n -= 1; // leave room for a last empty attribute
                }
                out.push((t.wrapping_add(out.len() as u8), B(vec![x; n - 2])));
                left -= n;
            }
            out
        })
        .boxed()
}

pub fn utf8(max: usize) -> BoxedStrategy<String> {
    let piece = prop_oneof![
        8 => prop::char::range(' ', '~'),
        2 => prop::char::range('\u{0}', '\u{1f}'),
        2 => prop::char::range('\u{80}', '\u{7ff}'),
        1 => prop::char::range('\u{800}', '\u{d7ff}'),
        1 => prop::char::range('\u{10000}', '\u{10ffff}'),
        // characters that text processing likes to change or to drop
        2 => prop::sample::select("\u{feff}\u{fffd}\u{301}\u{e9}\u{212b}\u{2028}\u{85}\u{a0}\u{ad}\u{200b}\u{200d}\u{202e}\u{3000}\u{ff21}\u{130}\u{131}\u{df}\u{1e9e}\u{e000}\u{ffff}\u{7f}\r\n\t\0 \"'\\%".chars().collect::<Vec<_>>()),
    ];
    // what may stand at the ends
    let end = prop_oneof![6 => Just(""), 1 => prop::sample::select(vec![" ", "\n", "\r\n", "\0", "\t", "\u{feff}", "\u{a0}", "\"", "'", "0x", "%", "\\", "\u{301}", "="])];
    (vec(piece, 0..=max), end.clone(), end, prop_oneof![15 => Just(0u64), 1 => any::<u64>()])
        .prop_map(move |(cs, a, z, lit)| {
            let mut s = String::new();
            if let (true, Ok(w)) = (lit > 0, std::str::from_utf8(lits::word(lit >> 2))) {
                if w.len() + a.len() + z.len() <= max {
                    s.push_str(w);
                    if lit & 3 == 0 {
                        return s;
                    }
                }
            }
            if s.len() + a.len() + z.len() <= max {
                s.push_str(a);
            }
            for c in cs {
                if s.len() + c.len_utf8() + z.len() > max {
                    break;
                }
                s.push(c);
            }
            if s.len() + z.len() <= max {
                s.push_str(z);
            }
            s
        })
        .boxed()
}

//! C06-C11: attribute values, hidden passwords, tags, prefixes and vendor-specific attributes.

use crate::engine::{hex, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, address6, bytes, lib_code, special, utf8};
use crate::refimpl as rf;
use chrono::{TimeZone, Utc};
use proptest::prelude::*;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::rfc2865;
use radius::core::rfc2868;
use radius::core::tag::Tag;
use radius::core::vsa::{StringVSA, TaggedStringVSA, VSA};
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, Ipv6Addr};

pub const KF_TUNNEL: &str = "tunnel-password-without-length-octet";
pub const KF_TAGGED_INT: &str = "tagged-integer-with-four-value-octets";

/// Passwords: text and binary, with NULs inside and at the end, around the block boundaries and the limit.
fn password(max: usize) -> BoxedStrategy<B> {
    let over = max + 24;
    prop_oneof![
        4 => bytes(0..=20),
        3 => bytes(0..=max),
        1 => utf8(40).prop_map(|s| B(s.into_bytes())),
        2 => (0usize..=over / 16, -1i32..=1, gen::octet()).prop_map(move |(b, d, x)| {
            let n = (b as i32 * 16 + d).max(0) as usize;
            B((0..n).map(|i| x.wrapping_add(i as u8) | 1).collect())
        }),
        1 => (max - 1..=over).prop_flat_map(|n| bytes(n..=n)),
        2 => (bytes(0..=40), 1usize..=20, bytes(0..=20)).prop_map(|(a, n, b)| {
            let mut v = a.0;
            v.extend(vec![0; n]);
            v.extend(b.0);
            B(v)
        }),
    ]
    .boxed()
}

fn any_auth() -> BoxedStrategy<B> {
    prop_oneof![12 => gen::auth(), 1 => bytes(0..=40), 1 => bytes(15..=15), 1 => bytes(17..=18), 1 => bytes(240..=256)].boxed()
}

/// Attribute contents from the wire, of mostly small sizes.
fn content() -> BoxedStrategy<B> {
    prop_oneof![
        6 => bytes(0..=18),
        1 => bytes(19..=40),
        1 => bytes(240..=253),
        2 => utf8(30).prop_map(|s| B(s.into_bytes())),
        2 => (utf8(30), any::<u16>(), 1u8..=255).prop_map(|(s, p, x)| {
            let mut v = s.into_bytes();
            if !v.is_empty() {
                let i = gen::at(p, v.len());
                v[i] ^= x;
            }
            B(v)
        }),
        1 => prop::sample::select(vec![
            vec![0xc0u8, 0x80], vec![0xed, 0xa0, 0x80], vec![0xf4, 0x90, 0x80, 0x80], vec![0x61, 0xff],
            vec![0xe2, 0x82], vec![0xf0, 0x80, 0x80, 0x80], vec![0xfe], vec![0xef, 0xbf, 0xbd],
        ]).prop_map(B),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hide {
    pub typ: u8,
    pub tag: Option<u8>,
    pub pw: B,
    pub secret: B,
    pub auth: B,
}

fn hide(max: usize) -> BoxedStrategy<Hide> {
    (gen::octet(), prop::option::of(gen::octet()), password(max), gen::secret_or_empty(), any_auth())
        .prop_map(|(typ, tag, pw, secret, auth)| Hide { typ, tag, pw, secret, auth })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reveal {
    pub hidden: B,
    pub secret: B,
    pub auth: B,
}

pub fn carried(a: AVP, typ: u8) -> Result<AVP, String> {
    // the attribute's number is only visible through a packet
    let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s", 1);
    let v = a.encode_bytes();
    p.add(a);
    match p.lookup(typ) {
        Some(x) if x.encode_bytes() == v => Ok(x.clone()),
        _ => Err(format!("the attribute is not filed under its number {typ}")),
    }
}

pub fn c06(cx: &Cx) {
    cx.rule("hide: password x secret x authenticator including over-long, empty and mis-sized ones; non-trivial when hiding is allowed and the password is not empty; oracle: RFC 2865 5.2 chain over an independent MD5, reveal returns the password without trailing NULs");
    cx.drive("hide", cx.n(60_000, 1_500_000), || hide(128), check_hide_user);
    cx.rule("reveal: arbitrary hidden values of 0-140 octets; non-trivial when revealing is allowed; oracle: the inverse chain for whole blocks, an error outside 16..128 octets");
    cx.drive(
        "reveal",
        cx.n(40_000, 1_000_000),
        || {
            let h = prop_oneof![
                4 => (1usize..=8).prop_flat_map(|n| bytes(n * 16..=n * 16)),
                2 => bytes(0..=17),
                2 => bytes(126..=145),
                1 => bytes(17..=127),
                1 => bytes(146..=253),
            ];
            (h, gen::secret_or_empty(), any_auth()).prop_map(|(hidden, secret, auth)| Reveal { hidden, secret, auth })
        },
        check_reveal_user,
    );
    cx.rule("packet: several passwords added through the RFC 2865 accessors with their neighbours, read back directly and after the wire");
    cx.drive(
        "packet",
        cx.n(8_000, 200_000),
        || (prop::sample::select(vec![1u8, 12]), gen::secret(), prop::collection::vec(password(128), 1..=4), gen::attrs(0..=2)),
        |(code, secret, pws, noise): &(u8, B, Vec<B>, Vec<(u8, B)>), obs| {
            let mut p = Packet::new(lib_code(*code), secret);
            let mut want: Vec<Vec<u8>> = vec![];
            for pw in pws {
                let r = rfc2865::add_user_password(&mut p, pw);
                ensure!(r.is_ok() == (pw.len() <= 128), "adding {} octets gives {r:?}", pw.len());
                if r.is_ok() {
                    want.push(rf::trim_nuls(pw).to_vec());
                }
            }
            for (t, v) in noise {
                if *t != 2 {
                    p.add(AVP::from_bytes(*t, v));
                }
            }
            if want.len() > 1 {
                obs.nontrivial();
            }
            let wire = p.encode().map_err(|e| e.to_string())?;
            let q = Packet::decode(&wire, secret).map_err(|e| e.to_string())?;
            for (name, p) in [("built", &p), ("received", &q)] {
                let all = rfc2865::lookup_all_user_password(p).map_err(|e| format!("{name}: {e}"))?;
                ensure!(all == want, "{name}: passwords {all:?}, expected {want:?}");
                let first = rfc2865::lookup_user_password(p).transpose().map_err(|e| format!("{name}: {e}"))?;
                ensure!(first.as_ref() == want.first(), "{name}: first password {first:?}");
                for (a, w) in p.lookup_all(2).iter().zip(&want) {
                    let h = rf::hide_chain(&rf::pad16(w), secret, &wire[4..20]);
                    let v = a.encode_bytes();
                    // trailing NULs of the password may add blocks
                    ensure!(v.len() >= h.len() && v[..h.len()] == h[..], "{name}: the hidden value is not the RFC chain under the packet's own secret and authenticator");
                }
            }
            Ok(())
        },
    );
}

pub fn check_reveal_user(c: &Reveal, obs: &mut Obs) -> Result<(), String> {
    let r = AVP::from_bytes(2, &c.hidden).encode_user_password(&c.secret, &c.auth);
    let n = c.hidden.len();
    if !(16..=128).contains(&n) || c.secret.is_empty() || c.auth.len() != 16 {
        obs.label("refused");
        ensure!(r.is_err(), "revealed a hidden value of {n} octets");
        return Ok(());
    }
    obs.nontrivial();
    if n % 16 != 0 {
        return Ok(()); // only: no panic
    }
    let want = rf::reveal_chain(&c.hidden, &c.secret, &c.auth);
    let got = r.map_err(|e| format!("reveal: {e}"))?;
    ensure!(got == rf::trim_nuls(&want), "revealed {} instead of {}", hex(&got), hex(rf::trim_nuls(&want)));
    Ok(())
}

pub fn check_hide_user(c: &Hide, obs: &mut Obs) -> Result<(), String> {
    let r = AVP::from_user_password(c.typ, &c.pw, &c.secret, &c.auth);
    let ok = c.pw.len() <= 128 && !c.secret.is_empty() && c.auth.len() == 16;
    ensure!(r.is_ok() == ok, "hiding {} octets gives {r:?}", c.pw.len());
    let a = match r {
        Ok(a) => carried(a, c.typ)?,
        Err(_) => {
            obs.label("refused");
            return Ok(());
        }
    };
    if !c.pw.is_empty() {
        obs.nontrivial();
    }
    obs.label(format!("{} blocks", rf::pad16(&c.pw).len() / 16));
    let want = rf::hide_chain(&rf::pad16(&c.pw), &c.secret, &c.auth);
    ensure!(a.encode_bytes() == want, "hidden value {}, expected {}", hex(&a.encode_bytes()), hex(&want));
    let back = a.encode_user_password(&c.secret, &c.auth).map_err(|e| format!("reveal: {e}"))?;
    ensure!(back == rf::trim_nuls(&c.pw), "revealed {} instead of {}", hex(&back), hex(rf::trim_nuls(&c.pw)));
    ensure!(a.encode_user_password(b"", &c.auth).is_err(), "revealed with an empty secret");
    ensure!(a.encode_user_password(&c.secret, &c.auth[..15]).is_err(), "revealed with a short authenticator");
    Ok(())
}

// ---------------------------------------------------------------- C07

/// What a hidden tunnel password stands for: the RFC plaintext has a length octet, the known defect omits it.
pub fn tunnel_plain(pw: &[u8], got: &[u8], secret: &[u8], auth: &[u8], obs: &mut Obs) -> Result<(), String> {
    ensure!(got.len() >= 19 && (got.len() - 3) % 16 == 0 && got.len() <= 253, "hidden value of {} octets", got.len());
    ensure!(got[1] & 0x80 != 0, "the salt's top bit is clear");
    let iv = [auth, &got[1..3]].concat();
    let rfc = rf::pad16(&[&[pw.len() as u8][..], pw].concat());
    if got[3..] == rf::hide_chain(&rfc, secret, &iv)[..] {
        return Ok(());
    }
    let bare = rf::hide_chain(&rf::pad16(pw), secret, &iv);
    ensure!(got[3..] == bare[..], "the hidden part {} is no RFC 2868 chain of the password (expected {})", hex(&got[3..]), hex(&bare));
    obs.finding(KF_TUNNEL);
    Ok(())
}

pub fn c07(cx: &Cx) {
    cx.rule("hide: password x tag x secret x authenticator including over-long, empty and mis-sized ones; non-trivial when hiding is allowed and the password is not empty; oracle: RFC 2868 3.5 chain over an independent MD5 for the salt that was drawn, reveal returns tag and password");
    cx.drive("hide", cx.n(60_000, 1_500_000), || hide(240), check_hide_tunnel);
    cx.rule("reveal: arbitrary hidden values of 0-253 octets; non-trivial when revealing is allowed; oracle: the inverse chain, an error for wrong sizes or salts");
    cx.drive(
        "reveal",
        cx.n(40_000, 1_000_000),
        || {
            let h = prop_oneof![
                4 => (1usize..=15).prop_flat_map(|n| bytes(n * 16 + 3..=n * 16 + 3)),
                2 => bytes(0..=40),
                2 => bytes(240..=253),
                1 => bytes(41..=239),
            ];
            (h, any::<bool>(), gen::secret_or_empty(), any_auth()).prop_map(|(mut hidden, top, secret, auth)| {
                if top && hidden.len() > 1 {
                    hidden.0[1] |= 0x80;
                }
                Reveal { hidden, secret, auth }
            })
        },
        check_reveal_tunnel,
    );
    cx.rule("packet: several tagged passwords added through the RFC 2868 accessors, read back directly and after the wire");
    cx.drive(
        "packet",
        cx.n(6_000, 150_000),
        || (prop::sample::select(vec![1u8, 12]), gen::secret(), prop::collection::vec((prop::option::of(gen::octet()), password(240)), 1..=4)),
        |(code, secret, pws): &(u8, B, Vec<(Option<u8>, B)>), obs| {
            let mut p = Packet::new(lib_code(*code), secret);
            let mut want = vec![];
            for (t, pw) in pws {
                let r = rfc2868::add_tunnel_password(&mut p, t.map(Tag::new).as_ref(), pw);
                ensure!(r.is_ok() == (pw.len() <= 240), "adding {} octets gives {r:?}", pw.len());
                if r.is_ok() {
                    want.push((rf::trim_nuls(pw).to_vec(), Tag::new(t.unwrap_or(0))));
                    let a = p.lookup_all(69);
                    let v = a.last().ok_or("not in the packet")?.encode_bytes();
                    tunnel_plain(pw, &v, secret, p.get_authenticator(), obs)?;
                }
            }
            if want.len() > 1 {
                obs.nontrivial();
            }
            let wire = p.encode().map_err(|e| e.to_string())?;
            let q = Packet::decode(&wire, secret).map_err(|e| e.to_string())?;
            for (name, p) in [("built", &p), ("received", &q)] {
                let all = rfc2868::lookup_all_tunnel_password(p).map_err(|e| format!("{name}: {e}"))?;
                ensure!(all == want, "{name}: passwords {all:?}, expected {want:?}");
                let first = rfc2868::lookup_tunnel_password(p).transpose().map_err(|e| format!("{name}: {e}"))?;
                ensure!(first.as_ref() == want.first(), "{name}: first password {first:?}");
            }
            Ok(())
        },
    );
}

pub fn check_reveal_tunnel(c: &Reveal, obs: &mut Obs) -> Result<(), String> {
    let r = AVP::from_bytes(69, &c.hidden).encode_tunnel_password(&c.secret, &c.auth);
    let n = c.hidden.len();
    let sized = (19..=243).contains(&n) && (n - 3) % 16 == 0;
    if !sized || c.hidden[1] & 0x80 == 0 || c.secret.is_empty() || c.auth.len() != 16 {
        obs.label("refused");
        ensure!(r.is_err(), "revealed a hidden value of {n} octets, salt {:02x?}", c.hidden.get(1..3));
        return Ok(());
    }
    obs.nontrivial();
    let want = rf::reveal_chain(&c.hidden[3..], &c.secret, &[&c.auth[..], &c.hidden[1..3]].concat());
    let (got, t) = r.map_err(|e| format!("reveal: {e}"))?;
    ensure!(got == rf::trim_nuls(&want), "revealed {} instead of {}", hex(&got), hex(rf::trim_nuls(&want)));
    ensure!(t.get_value() == c.hidden[0], "revealed tag {}", t.get_value());
    Ok(())
}

pub fn check_hide_tunnel(c: &Hide, obs: &mut Obs) -> Result<(), String> {
    let tag = c.tag.map(Tag::new);
    let r = AVP::from_tunnel_password(c.typ, tag.as_ref(), &c.pw, &c.secret, &c.auth);
    let ok = c.pw.len() <= 240 && !c.secret.is_empty() && c.auth.len() == 16;
    ensure!(r.is_ok() == ok, "hiding {} octets gives {r:?}", c.pw.len());
    let a = match r {
        Ok(a) => carried(a, c.typ)?,
        Err(_) => {
            obs.label("refused");
            return Ok(());
        }
    };
    if !c.pw.is_empty() {
        obs.nontrivial();
    }
    let v = a.encode_bytes();
    ensure!(v[0] == c.tag.unwrap_or(0), "tag octet {} for tag {:?}", v[0], c.tag);
    tunnel_plain(&c.pw, &v, &c.secret, &c.auth, obs)?;
    let (back, t) = a.encode_tunnel_password(&c.secret, &c.auth).map_err(|e| format!("reveal: {e}"))?;
    ensure!(back == rf::trim_nuls(&c.pw), "revealed {} instead of {}", hex(&back), hex(rf::trim_nuls(&c.pw)));
    ensure!(t.get_value() == c.tag.unwrap_or(0), "revealed tag {}", t.get_value());
    ensure!(a.encode_tunnel_password(b"", &c.auth).is_err(), "revealed with an empty secret");
    ensure!(a.encode_tunnel_password(&c.secret, &c.auth[..15]).is_err(), "revealed with a short authenticator");
    let mut clear = v.clone();
    clear[1] &= 0x7f;
    ensure!(AVP::from_bytes(69, &clear).encode_tunnel_password(&c.secret, &c.auth).is_err(), "revealed although the salt's top bit is clear");
    Ok(())
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plain {
    typ: u8,
    n: u32,
    s: u16,
    nanos: u32,
    v6: B,
    text: String,
    octets: B,
}

pub fn edge32() -> BoxedStrategy<u32> {
    prop_oneof![4 => gen::word32(), 1 => 0u32..300, 1 => (0u32..32).prop_map(|b| 1 << b), 1 => (0u32..32).prop_map(|b| (1u32 << b).wrapping_sub(1)), 1 => 0xffff_ff00u32..=0xffff_ffff, 1 => any::<u32>().prop_map(|x| x & 0x7fff_ffff)].boxed()
}

pub fn c08(cx: &Cx) {
    cx.rule("write: one value of each plain type per case, boundary-weighted; non-trivial: all; oracle: RFC wire bytes and the value read back");
    cx.drive(
        "write",
        cx.n(60_000, 1_500_000),
        || {
            (gen::octet(), edge32(), gen::word16(), 0u32..1_000_000_000, address6(), utf8(60), prop_oneof![bytes(0..=253), special(0..=253)])
                .prop_map(|(typ, n, s, nanos, v6, text, octets)| Plain { typ, n, s, nanos, v6, text, octets })
        },
        |c, obs| {
            obs.nontrivial();
            let e = |x: radius::core::avp::AVPError| x.to_string();
            let a = carried(AVP::from_u32(c.typ, c.n), c.typ)?;
            ensure!(a.encode_bytes() == [(c.n >> 24) as u8, (c.n >> 16) as u8, (c.n >> 8) as u8, c.n as u8], "u32 {} is written {:?}", c.n, a.encode_bytes());
            ensure!(a.encode_u32().map_err(e)? == c.n, "u32 {} is read as {:?}", c.n, a.encode_u32());
            let a = carried(AVP::from_u16(c.typ, c.s), c.typ)?;
            ensure!(a.encode_bytes() == [(c.s >> 8) as u8, c.s as u8], "u16 {} is written {:?}", c.s, a.encode_bytes());
            ensure!(a.encode_u16().map_err(e)? == c.s, "u16 {} is read as {:?}", c.s, a.encode_u16());
            let d = Utc.timestamp_opt(c.n as i64, c.nanos).single().ok_or("date")?;
            let a = carried(AVP::from_date(c.typ, &d), c.typ)?;
            ensure!(a.encode_bytes() == c.n.to_be_bytes(), "date {d} is written {:?}", a.encode_bytes());
            let back = a.encode_date().map_err(e)?;
            ensure!(back.timestamp() == c.n as i64 && back.timestamp_subsec_nanos() == 0, "date {d} is read as {back}");
            let o = c.n.to_be_bytes();
            let v4 = Ipv4Addr::new(o[0], o[1], o[2], o[3]);
            let a = carried(AVP::from_ipv4(c.typ, &v4), c.typ)?;
            ensure!(a.encode_bytes() == o, "{v4} is written {:?}", a.encode_bytes());
            ensure!(a.encode_ipv4().map_err(e)? == v4, "{v4} is read as {:?}", a.encode_ipv4());
            let mut x = [0u8; 16];
            x.copy_from_slice(&c.v6);
            let v6 = Ipv6Addr::from(x);
            let a = carried(AVP::from_ipv6(c.typ, &v6), c.typ)?;
            ensure!(a.encode_bytes() == x, "{v6} is written {:?}", a.encode_bytes());
            ensure!(a.encode_ipv6().map_err(e)? == v6, "{v6} is read as {:?}", a.encode_ipv6());
            let a = carried(AVP::from_string(c.typ, &c.text), c.typ)?;
            ensure!(a.encode_bytes() == c.text.as_bytes(), "text {:?} is written {:?}", c.text, a.encode_bytes());
            ensure!(a.encode_string().map_err(e)? == c.text, "text {:?} is read as {:?}", c.text, a.encode_string());
            let a = carried(AVP::from_bytes(c.typ, &c.octets), c.typ)?;
            ensure!(a.encode_bytes() == c.octets.0, "octets are changed");
            Ok(())
        },
    );
    cx.rule("read: arbitrary attribute contents (all sizes, near-valid UTF-8) read as each plain type; non-trivial when at least one octet; oracle: value exactly for the right size / valid UTF-8, else an error");
    cx.drive("read", cx.n(60_000, 1_500_000), content, check_read_plain);
    cx.rule("sizes: every size 0..=253 read as each type in every run");
    cx.drive("sizes", cx.n(200, 4_000), any::<u8>, |x, obs| {
        obs.nontrivial();
        for n in 0..=253usize {
            let a = AVP::from_bytes(7, &vec![*x; n]);
            ensure!(a.encode_u32().is_ok() == (n == 4), "{n} octets read as u32: {:?}", a.encode_u32());
            ensure!(a.encode_u16().is_ok() == (n == 2), "{n} octets read as u16: {:?}", a.encode_u16());
            ensure!(a.encode_date().is_ok() == (n == 4), "{n} octets read as date: {:?}", a.encode_date());
            ensure!(a.encode_ipv4().is_ok() == (n == 4), "{n} octets read as IPv4: {:?}", a.encode_ipv4());
            ensure!(a.encode_ipv6().is_ok() == (n == 16), "{n} octets read as IPv6: {:?}", a.encode_ipv6());
        }
        Ok(())
    });
}

pub fn check_read_plain(c: &B, obs: &mut Obs) -> Result<(), String> {
    if !c.is_empty() {
        obs.nontrivial();
    }
    obs.label(match c.len() {
        2 => "2 octets",
        4 => "4 octets",
        16 => "16 octets",
        _ => "another size",
    });
    let a = AVP::from_bytes(7, c);
    let be = |b: &[u8]| b.iter().fold(0u32, |x, y| x << 8 | *y as u32);
    let want = (c.len() == 4).then(|| be(c));
    ensure!(a.encode_u32().ok() == want, "read as u32: {:?}", a.encode_u32());
    ensure!(a.encode_date().ok().map(|d| d.timestamp()) == want.map(|x| x as i64), "read as date: {:?}", a.encode_date());
    ensure!(a.encode_ipv4().ok().map(u32::from) == want, "read as IPv4: {:?}", a.encode_ipv4());
    ensure!(a.encode_u16().ok() == (c.len() == 2).then(|| be(c) as u16), "read as u16: {:?}", a.encode_u16());
    ensure!(a.encode_ipv6().ok().map(|x| x.octets().to_vec()) == (c.len() == 16).then(|| c.to_vec()), "read as IPv6: {:?}", a.encode_ipv6());
    let text = std::str::from_utf8(c).ok().map(str::to_owned);
    if text.is_none() {
        obs.label("invalid UTF-8");
    }
    ensure!(a.encode_string().ok() == text, "read as text: {:?}", a.encode_string());
    ensure!(a.encode_bytes() == c.0, "read as octets: changed");
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn read_tagged_string(c: &[u8]) -> Option<(String, Option<u8>)> {
    match c.first()? {
        0 => None,
        t @ 1..=31 => Some((String::from_utf8(c[1..].to_vec()).ok()?, Some(*t))),
        _ => Some((String::from_utf8(c.to_vec()).ok()?, None)),
    }
}

pub fn read_tagged_int(c: &[u8]) -> Option<(u32, u8)> {
    if c.len() != 5 || c[0] > 31 {
        return None;
    }
    Some((u32::from_be_bytes([c[1], c[2], c[3], c[4]]), c[0]))
}

pub fn c09(cx: &Cx) {
    cx.rule("write: tag (none, 0-255) x text x integer; non-trivial when tagged; oracle: tag octet then value, and reading returns both when the form is unambiguous");
    cx.drive(
        "write",
        cx.n(60_000, 1_500_000),
        || (gen::octet(), prop::option::weighted(0.8, prop_oneof![3 => 1u8..=31, 1 => gen::octet(), 1 => 28u8..=36]), utf8(50), edge32()),
        |(typ, tag, text, n): &(u8, Option<u8>, String, u32), obs| {
            if tag.is_some() {
                obs.nontrivial();
            }
            let t = tag.map(Tag::new);
            let a = carried(AVP::from_tagged_string(*typ, t.as_ref(), text), *typ)?;
            let wire: Vec<u8> = tag.iter().copied().chain(text.bytes()).collect();
            ensure!(a.encode_bytes() == wire, "tag {tag:?} text {text:?} is written {:?}", a.encode_bytes());
            let got = a.encode_tagged_string().ok().map(|(s, t)| (s, t.map(|t| t.get_value())));
            ensure!(got == read_tagged_string(&wire), "tag {tag:?} text {text:?} is read as {got:?}");
            if matches!(tag, Some(1..=31)) {
                ensure!(got == Some((text.clone(), *tag)), "tag {tag:?} text {text:?} is read as {got:?}");
            }
            if tag.is_none() && text.bytes().next().unwrap_or(0) > 31 {
                ensure!(got == Some((text.clone(), None)), "untagged text {text:?} is read as {got:?}");
            }
            let a = carried(AVP::from_tagged_u32(*typ, t.as_ref(), *n), *typ)?;
            let b = n.to_be_bytes();
            let w = [tag.unwrap_or(0), b[0], b[1], b[2], b[3]];
            ensure!(a.encode_bytes() == w, "tag {tag:?} integer {n} is written {:?}", a.encode_bytes());
            // RFC 2868 tagged integers have three value octets
            obs.finding(KF_TAGGED_INT);
            let got = a.encode_tagged_u32().ok().map(|(n, t)| (n, t.get_value()));
            ensure!(got == (w[0] <= 31).then_some((*n, w[0])), "tag {tag:?} integer {n} is read as {got:?}");
            Ok(())
        },
    );
    cx.rule("read: arbitrary attribute contents read as tagged text and tagged integer; non-trivial when at least one octet; oracle: RFC 2868 tag rules");
    cx.drive(
        "read",
        cx.n(60_000, 1_500_000),
        || {
            let lead = prop_oneof![3 => 0u8..=33, 1 => gen::octet()];
            prop_oneof![
                2 => content(),
                3 => (lead.clone(), content()).prop_map(|(t, c)| { let mut v = vec![t]; v.extend(c.0); v.truncate(253); B(v) }),
                3 => (lead, bytes(3..=5)).prop_map(|(t, c)| { let mut v = vec![t]; v.extend(c.0); B(v) }),
            ]
        },
        |c, obs| {
            if !c.is_empty() {
                obs.nontrivial();
            }
            let a = AVP::from_bytes(7, c);
            let got = a.encode_tagged_string().ok().map(|(s, t)| (s, t.map(|t| t.get_value())));
            ensure!(got == read_tagged_string(c), "read as tagged text: {got:?}, expected {:?}", read_tagged_string(c));
            let got = a.encode_tagged_u32().ok().map(|(n, t)| (n, t.get_value()));
            ensure!(got == read_tagged_int(c), "read as tagged integer: {got:?}, expected {:?}", read_tagged_int(c));
            Ok(())
        },
    );
    cx.rule("tags: all 256 tag octets in every run");
    cx.drive("tags", cx.n(64, 256), any::<u8>, |x, obs| {
        obs.nontrivial();
        for v in 0..=255u8 {
            let t = Tag::new(v);
            ensure!(t.get_value() == v, "tag {v} reports {}", t.get_value());
            ensure!(t.is_zero() == (v == 0), "tag {v}: is_zero() = {}", t.is_zero());
            ensure!(t.is_valid_value() == (1..=31).contains(&v), "tag {v}: is_valid_value() = {}", t.is_valid_value());
            ensure!((t == Tag::new(*x)) == (v == *x), "tags {v} and {x} compare wrongly");
            let a = AVP::from_bytes(1, &[v, *x, 1, 2, 3]);
            ensure!(a.encode_tagged_u32().is_ok() == (v <= 31), "integer with tag {v}: {:?}", a.encode_tagged_u32());
        }
        ensure!(Tag::new_unused().get_value() == 0 && Tag::new_unused().is_zero(), "the unused tag is not zero");
        Ok(())
    });
}

// ---------------------------------------------------------------- C10

pub fn c10(cx: &Cx) {
    cx.rule("write: prefixes of 0-40 octets; non-trivial when at least one octet; oracle: zero octet, prefix length in bits, octets; other sizes refused");
    cx.drive(
        "write",
        cx.n(60_000, 1_500_000),
        || (gen::octet(), prop_oneof![2 => bytes(0..=18), 1 => special(0..=18), 1 => bytes(4..=4), 1 => special(4..=4), 1 => address6(), 1 => bytes(19..=40), 1 => bytes(240..=260)]),
        |(typ, p): &(u8, B), obs| {
            if !p.is_empty() {
                obs.nontrivial();
            }
            let r = AVP::from_ipv4_prefix(*typ, p);
            ensure!(r.is_ok() == (p.len() == 4), "IPv4 prefix of {} octets gives {r:?}", p.len());
            if let Ok(a) = r {
                obs.label("IPv4");
                let a = carried(a, *typ)?;
                ensure!(a.encode_bytes() == [&[0, 32][..], p].concat(), "IPv4 prefix {} is written {}", hex(p), hex(&a.encode_bytes()));
                let back = a.encode_ipv4_prefix().map_err(|e| e.to_string())?;
                ensure!(back == p.0, "IPv4 prefix {} is read as {}", hex(p), hex(&back));
            }
            let r = AVP::from_ipv6_prefix(*typ, p);
            ensure!(r.is_ok() == (p.len() <= 16), "IPv6 prefix of {} octets gives {r:?}", p.len());
            if let Ok(a) = r {
                obs.label("IPv6");
                let a = carried(a, *typ)?;
                ensure!(a.encode_bytes() == [&[0, 8 * p.len() as u8][..], p].concat(), "IPv6 prefix {} is written {}", hex(p), hex(&a.encode_bytes()));
                let back = a.encode_ipv6_prefix().map_err(|e| e.to_string())?;
                ensure!(back == p.0, "IPv6 prefix {} is read as {}", hex(p), hex(&back));
            }
            Ok(())
        },
    );
    cx.rule("read: arbitrary attribute contents read as prefixes; non-trivial when at least two octets; oracle: octets after the two leading ones for 6 (IPv4) or 2..18 (IPv6) octets, refused below");
    cx.drive("read", cx.n(60_000, 1_500_000), || prop_oneof![3 => bytes(0..=20), 1 => bytes(6..=6), 1 => bytes(21..=253)], |c, obs| {
        if c.len() >= 2 {
            obs.nontrivial();
        }
        let a = AVP::from_bytes(7, c);
        let r4 = a.encode_ipv4_prefix();
        ensure!(r4.as_ref().ok().map(|v| &v[..]) == (c.len() == 6).then(|| &c[2..]), "{} octets read as IPv4 prefix: {r4:?}", c.len());
        let r6 = a.encode_ipv6_prefix();
        if c.len() < 2 {
            ensure!(r6.is_err(), "{} octets read as IPv6 prefix: {r6:?}", c.len());
        } else if c.len() <= 18 {
            ensure!(r6.as_ref().ok().map(|v| &v[..]) == Some(&c[2..]), "{} octets read as IPv6 prefix: {r6:?}", c.len());
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OneVsa {
    pub id: i32,
    pub typ: u8,
    pub tag: Option<u8>,
    pub text: String,
}

fn vsa() -> BoxedStrategy<OneVsa> {
    (
        prop_oneof![3 => gen::word32().prop_map(|x| x as i32), 3 => 0i32..70_000, 1 => Just(i32::MAX), 1 => Just(0x0102_0304)],
        gen::octet(),
        prop::option::of(gen::octet()),
        prop_oneof![5 => utf8(40), 2 => utf8(247), 2 => prop::string::string_regex("[ -~]{240,247}").unwrap_or_else(|_| unreachable!())],
    )
        .prop_map(|(id, typ, tag, mut text)| {
            let max = if tag.is_some() { 246 } else { 247 };
            while text.len() > max {
                text.pop();
            }
            OneVsa { id, typ, tag, text }
        })
        .boxed()
}

pub fn lib_vsa(v: &OneVsa) -> Box<dyn VSA> {
    match v.tag {
        Some(t) => Box::new(TaggedStringVSA::new(v.id, v.typ, t, &v.text)),
        None => Box::new(StringVSA::new(v.id, v.typ, &v.text)),
    }
}

pub fn vsa_wire(v: &OneVsa) -> Vec<u8> {
    let n = 2 + v.tag.iter().count() + v.text.len();
    let mut w = vec![(v.id >> 24) as u8, (v.id >> 16) as u8, (v.id >> 8) as u8, v.id as u8, v.typ, n as u8];
    w.extend(v.tag);
    w.extend(v.text.bytes());
    w
}

pub fn c11(cx: &Cx) {
    cx.rule("packet: 1-4 vendor-specific values among other attributes in a packet; non-trivial when several or tagged; oracle: RFC 2865 5.26 layout, before and after the wire");
    cx.drive(
        "packet",
        cx.n(40_000, 1_000_000),
        || (gen::code_of(&rf::ENCODABLE), gen::secret(), prop::collection::vec((vsa(), gen::attrs(0..=1)), 1..=4)),
        |(code, secret, l): &(u8, B, Vec<(OneVsa, Vec<(u8, B)>)>), obs| {
            if l.len() > 1 || l[0].0.tag.is_some() {
                obs.nontrivial();
            }
            let mut p = Packet::new(lib_code(*code), secret);
            let mut want: Vec<(u8, Vec<u8>)> = vec![];
            for (v, noise) in l {
                let x = lib_vsa(v);
                let w = vsa_wire(v);
                ensure!(x.message() == w, "{v:?} is serialised {}, expected {}", hex(&x.message()), hex(&w));
                ensure!(x.len() == w[5] as usize, "{v:?} reports length {}, expected {}", x.len(), w[5]);
                ensure!(!x.is_empty(), "{v:?} reports being empty");
                rfc2865::add_vsa_attribute(&mut p, &*x);
                want.push((26, w));
                for (t, b) in noise {
                    p.add(AVP::from_bytes(*t, b));
                    want.push((*t, b.0.clone()));
                }
            }
            let wire = p.encode().map_err(|e| e.to_string())?;
            ensure!(wire[20..] == rf::attr_bytes(&want)[..], "the packet does not carry one attribute per vendor-specific value");
            let q = Packet::decode(&wire, secret).map_err(|e| e.to_string())?;
            let exp: Vec<&Vec<u8>> = want.iter().filter(|(t, _)| *t == 26).map(|(_, v)| v).collect();
            for p in [&p, &q] {
                let got: Vec<Vec<u8>> = p.lookup_all(rfc2865::VENDOR_SPECIFIC_TYPE).iter().map(|a| a.encode_bytes()).collect();
                ensure!(got.iter().collect::<Vec<_>>() == exp, "vendor-specific contents {got:?}");
            }
            let mut q = q;
            rfc2865::delete_vendor_specific(&mut q);
            ensure!(q.lookup(26).is_none(), "vendor-specific attributes survive deletion");
            Ok(())
        },
    );
}

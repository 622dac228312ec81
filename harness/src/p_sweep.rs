//! Bounded-exhaustive parts of the checks: every point of a small space (attribute type by size, size by size, code by
//! code, ...), each in a context drawn at random. They find what shows at single points of a space that random
//! generation samples too thinly.

use crate::engine::{hex, Cx, Dice, Obs, B};
use crate::ensure;
use crate::gen::lib_code;
use crate::p_dict::{contents, model_contents, Added, Seed};
use crate::p_packet::{self as pp, Build, Bytes, Exchange, Sign, Verify};
use crate::p_values::{self as pv, carried, Hide, OneVsa, Reveal};
use crate::refimpl as rf;
use crate::table::{Api, Attr, Table};
use chrono::{TimeZone, Utc};
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::rfc2865;
use radius::core::tag::Tag;
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, Ipv6Addr};

type Attrs = Vec<(u8, B)>;

/// Attributes that take exactly `n` octets (none when n is 1).
fn filling(n: usize, d: &mut Dice) -> Attrs {
    let mut left = n;
    let mut out = vec![];
    let big = d.below(3) > 0;
    while left >= 2 {
        let mut k = left.min(if big { 255 } else { 2 + d.below(254) });
        if left - k == 1 {
            k = if k > 2 { k - 1 } else { k + 1 };
        }
        out.push((d.u8(), d.bytes(k - 2)));
        left -= k;
    }
    out
}

fn some(d: &mut Dice) -> Attrs {
    (0..d.below(3)).map(|_| (d.u8(), { let n = d.below(9); d.bytes(n) })).collect()
}

fn wire(l: &Attrs) -> Vec<u8> {
    crate::gen::attrs_wire(l)
}

pub fn c01(cx: &Cx) {
    cx.rule("sizes: every attribute type with every value size; every Length 18..=4200 with one octet less, none, one and 100 more received than it says; every attribute length octet with every number of octets left: all of them in every run");
    cx.sweep("type-size", 256 * 254, 4, |i, d| {
        let (t, n) = ((i / 254) as u8, (i % 254) as usize);
        let mut l = some(d);
        l.insert(d.below(l.len() + 1), (t, d.bytes(n)));
        Bytes { bytes: B(rf::build(d.pick(&rf::ENCODABLE), d.u8(), &d.bytes(16), &wire(&l))), secret: d.secret() }
    }, pp::check_decode);
    cx.sweep("length-size", 4183 * 4, 4, |i, d| {
        let (len, extra) = (18 + (i / 4) as usize, [-1i32, 0, 1, 100][(i % 4) as usize]);
        let mut b = rf::build(d.pick(&rf::ALL_CODES), d.u8(), &d.bytes(16), &wire(&filling(len.saturating_sub(20), d)));
        b.resize((len as i32 + extra) as usize, d.u8());
        b[2..4].copy_from_slice(&(len as u16).to_be_bytes());
        Bytes { bytes: B(b), secret: d.secret() }
    }, pp::check_decode);
    cx.sweep("attribute-end", 256 * 256, 2, |i, d| {
        let (n, left) = ((i / 256) as u8, (i % 256) as usize);
        let mut w = wire(&some(d));
        // the octets of an attribute from its type on, as far as there are any
        let mut last = vec![d.u8(), n];
        last.extend(d.bytes(254).0);
        last.truncate(left);
        w.extend(last);
        Bytes { bytes: B(rf::build(d.pick(&rf::ALL_CODES), d.u8(), &d.bytes(16), &w)), secret: d.secret() }
    }, pp::check_decode);
    cx.sweep("high-length", 256, 4, |i, d| {
        let mut b = rf::build(d.pick(&rf::ALL_CODES), d.u8(), &d.bytes(16), &wire(&filling(300, d)));
        b[2] = i as u8;
        Bytes { bytes: B(b), secret: d.secret() }
    }, pp::check_decode);
}

pub fn c02(cx: &Cx) {
    cx.rule("sizes: every attribute type with every value size 0..=256; every total size 20..=4200: all of them in every run");
    cx.sweep("type-size", 256 * 257, 4, |i, d| {
        let (t, n) = ((i / 257) as u8, (i % 257) as usize);
        let mut attrs = some(d);
        attrs.insert(d.below(attrs.len() + 1), (t, d.bytes(n)));
        Build { code: d.pick(&rf::ENCODABLE), id: d.u8(), secret: d.secret(), attrs, bulk: (0, 0), extend: d.below(2) == 1 }
    }, pp::check_encode);
    cx.sweep("total", 4181 * 2, 4, |i, d| Build {
        code: d.pick(&rf::ENCODABLE),
        id: d.u8(),
        secret: d.secret(),
        attrs: filling((i / 2) as usize, d),
        bulk: (0, 0),
        extend: i % 2 == 1,
    }, pp::check_encode);
    cx.sweep("code-identifier", 13 * 256, 4, |i, d| Build {
        code: rf::ENCODABLE[(i / 256) as usize],
        id: i as u8,
        secret: d.secret(),
        attrs: some(d),
        bulk: (0, 0),
        extend: false,
    }, pp::check_encode);
}

pub fn c03(cx: &Cx) {
    cx.rule("sizes: every code with every secret size 0..=600, with every identifier, and with every total size 20..=4096: all of them in every run");
    let sign = |code: u8, id: u8, n: usize, attrs: Attrs, d: &mut Dice| Sign { code, id, auth: d.bytes(16), secret: d.bytes(n), attrs };
    cx.sweep("secret", 13 * 601, 4, |i, d| {
        let (a, id) = (some(d), d.u8());
        sign(rf::ENCODABLE[(i / 601) as usize], id, (i % 601) as usize, a, d)
    }, pp::check_sign);
    cx.sweep("total", 13 * 4077, 2, |i, d| {
        let (a, id, n) = (filling((i / 13) as usize, d), d.u8(), 1 + d.below(40));
        sign(rf::ENCODABLE[(i % 13) as usize], id, n, a, d)
    }, pp::check_sign);
    cx.sweep("identifier", 13 * 256, 4, |i, d| {
        let (a, n) = (some(d), 1 + d.below(40));
        sign(rf::ENCODABLE[(i / 256) as usize], i as u8, n, a, d)
    }, pp::check_sign);
}

/// A signed request and a response signed for it.
fn pair(rc: u8, sc: u8, rid: u8, sid: u8, secret: B, ra: &Attrs, sa: &Attrs, d: &mut Dice) -> Verify {
    let sign = |code: u8, id: u8, auth: &[u8], l: &Attrs| {
        let mut m = rf::build(code, id, auth, &wire(l));
        let digest = rf::md5(&[&m[..], &secret[..]].concat());
        m[4..20].copy_from_slice(&digest);
        m
    };
    let req = if rf::REQ_PLAIN.contains(&rc) { rf::build(rc, rid, &d.bytes(16), &wire(ra)) } else { sign(rc, rid, &[0; 16], ra) };
    let resp = sign(sc, sid, &req[4..20], sa);
    Verify { req: B(req), resp: B(resp), secret }
}

pub fn c04(cx: &Cx) {
    cx.rule("pairs: every code octet of a request with every one of a signed response, every identifier with every other; genuine pairs of every total size and every secret size 0..=600: all of them in every run");
    cx.sweep("codes-by-codes", 65536, 2, |i, d| {
        let (id, s, a) = (d.u8(), d.secret(), some(d));
        pair((i >> 8) as u8, i as u8, id, id, s, &a, &vec![], d)
    }, pp::check_verify);
    cx.sweep("identifiers", 65536, 2, |i, d| {
        let (s, rc, sc) = (d.secret(), d.pick(&rf::REQ_SIGNED), d.pick(&rf::RESP));
        pair(rc, sc, (i >> 8) as u8, i as u8, s, &vec![], &vec![], d)
    }, pp::check_verify);
    cx.sweep("total", 4077 * 5, 2, |i, d| {
        let (s, sc, id) = (d.secret(), d.pick(&rf::RESP), d.u8());
        let (a, b) = (filling((i / 5) as usize, d), filling((i / 5) as usize, d));
        pair([1, 4, 12, 40, 43][(i % 5) as usize], sc, id, id, s, &a, &b, d)
    }, pp::check_verify);
    cx.sweep("secret", 601 * 5, 4, |i, d| {
        let (s, sc, id) = (d.bytes((i / 5) as usize), d.pick(&rf::RESP), d.u8());
        let (a, b) = (some(d), some(d));
        pair([1, 4, 12, 40, 43][(i % 5) as usize], sc, id, id, s, &a, &b, d)
    }, pp::check_verify);
}

pub fn c05(cx: &Cx) {
    cx.rule("combinations: every request code with every response code and identifier; every size of request and response attributes: all of them in every run");
    let ex = |req_code, resp_code, id, req_attrs, resp_attrs, d: &mut Dice| Exchange {
        req_code,
        resp_code,
        id,
        secret: d.secret(),
        other_secret: B([&d.bytes(7).0[..], b"other"].concat()),
        req_attrs,
        resp_attrs,
        pos: d.u32() as u16,
        xor: 1 + d.below(255) as u8,
    };
    cx.sweep("codes-identifiers", 5 * 8 * 256, 4, |i, d| {
        let (a, b) = (some(d), some(d));
        ex([1, 4, 12, 40, 43][(i >> 11) as usize], rf::RESP[(i >> 8) as usize % 8], i as u8, a, b, d)
    }, pp::check_exchange);
    cx.sweep("total", 4077, 4, |i, d| {
        let (a, b) = (filling(i as usize, d), filling(4076 - i as usize, d));
        let (rc, sc, id) = (d.pick(&[1, 4, 12, 40, 43]), d.pick(&rf::RESP), d.u8());
        ex(rc, sc, id, a, b, d)
    }, pp::check_exchange);
}

fn hidden(typ: u8, tag: Option<u8>, pw: B, secret: usize, d: &mut Dice) -> Hide {
    Hide { typ, tag, pw, secret: d.bytes(secret), auth: d.bytes(16) }
}

/// A password of up to `max` octets with this octet at this place.
fn octet_at(i: u64, max: usize, d: &mut Dice) -> B {
    let (at, x) = ((i / 256) as usize, i as u8);
    let n = at + 1 + if d.below(2) == 0 { 0 } else { d.below(max - at) };
    let mut pw = d.bytes(n);
    pw.0[at] = x;
    pw
}

pub fn c06(cx: &Cx) {
    cx.rule("sizes: every password size 0..=140 with every secret size 0..=260; every octet at every place of a password; every hidden size with every small secret size: all of them in every run");
    cx.sweep("sizes", 141 * 261, 4, |i, d| {
        let (t, pw) = (d.u8(), d.bytes((i / 261) as usize));
        hidden(t, None, pw, (i % 261) as usize, d)
    }, pv::check_hide_user);
    cx.sweep("octets", 128 * 256, 4, |i, d| {
        let (t, pw, n) = (d.u8(), octet_at(i, 128, d), 1 + d.below(24));
        hidden(t, None, pw, n, d)
    }, pv::check_hide_user);
    cx.sweep("revealed", 254 * 64, 4, |i, d| Reveal { hidden: d.bytes((i / 64) as usize), secret: d.bytes((i % 64) as usize), auth: d.bytes(16) }, pv::check_reveal_user);
    cx.sweep("authenticator-sizes", 300 * 2, 4, |i, d| {
        let (t, pw, n) = (d.u8(), d.bytes(5), 1 + d.below(24));
        let mut h = hidden(t, None, pw, n, d);
        h.auth = d.bytes((i / 2) as usize);
        h
    }, pv::check_hide_user);
}

pub fn c07(cx: &Cx) {
    cx.rule("sizes: every password size 0..=250 with every secret size 0..=130; every tag with every password size modulo 64; every octet at every place; every hidden size with every first salt octet: all of them in every run");
    cx.sweep("sizes", 251 * 131, 4, |i, d| {
        let (t, tag, pw) = (d.u8(), d.pick(&[None, Some(0), Some(1), Some(31)]), d.bytes((i / 131) as usize));
        hidden(t, tag, pw, (i % 131) as usize, d)
    }, pv::check_hide_tunnel);
    cx.sweep("tags", 256 * 64, 4, |i, d| {
        let n = (i % 64) as usize + 64 * d.below(3);
        let (t, pw, k) = (d.u8(), d.bytes(n), 1 + d.below(24));
        hidden(t, Some((i / 64) as u8), pw, k, d)
    }, pv::check_hide_tunnel);
    cx.sweep("octets", 240 * 256, 2, |i, d| {
        let (t, tag, pw, k) = (d.u8(), d.pick(&[None, Some(3)]), octet_at(i, 240, d), 1 + d.below(24));
        hidden(t, tag, pw, k, d)
    }, pv::check_hide_tunnel);
    cx.sweep("revealed", 254 * 256, 2, |i, d| {
        let mut h = d.bytes((i / 256) as usize);
        if h.len() > 1 {
            h.0[1] = i as u8;
        }
        Reveal { hidden: h, secret: d.secret(), auth: d.bytes(16) }
    }, pv::check_reveal_tunnel);
    cx.sweep("authenticator-sizes", 300 * 2, 4, |i, d| {
        let (t, pw, n) = (d.u8(), d.bytes(5), 1 + d.below(24));
        let mut h = hidden(t, Some(1), pw, n, d);
        h.auth = d.bytes((i / 2) as usize);
        h
    }, pv::check_hide_tunnel);
}

/// Integers at which code is tempted to behave differently.
pub fn numbers() -> Vec<u32> {
    let mut v: Vec<u32> = (0..=300).collect();
    for k in 0..32 {
        let b = 1u32 << k;
        v.extend([b, b - 1, b + 1, !b, b.wrapping_neg()]);
    }
    for x in 0..=255u32 {
        for k in 0..4 {
            v.push(x << (8 * k));
        }
        v.push(x * 0x0101_0101);
        v.push(0xffff_ff00 | x);
    }
    for y in [1900, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2036, 2038, 2100, 2106] {
        for (m, day) in [(1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (12, 31)] {
            for (h, s) in [(0, 0), (23, 59)] {
                if let Some(d) = Utc.with_ymd_and_hms(y, m, day, h, s, s).single() {
                    v.extend(u32::try_from(d.timestamp()).ok());
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn c08(cx: &Cx) {
    cx.rule("values: all 65536 shorts, some 2000 particular integers, dates and IPv4 addresses, every octet at every place of an IPv6 address, IPv6 addresses of 16 particular kinds, every Unicode character, all octet strings of one to three octets, text and octets of every size under every attribute type: all of them in every run");
    let nums = numbers();
    cx.sweep("numbers", nums.len() as u64, 4, |i, d| (nums[i as usize], d.u8()), |(n, t): &(u32, u8), obs| {
        obs.nontrivial();
        let e = |x: radius::core::avp::AVPError| x.to_string();
        let w = n.to_be_bytes();
        let a = carried(AVP::from_u32(*t, *n), *t)?;
        ensure!(a.encode_bytes() == w && a.encode_u32().map_err(e)? == *n, "u32 {n} is written {:?} and read {:?}", a.encode_bytes(), a.encode_u32());
        let v4 = Ipv4Addr::from(*n);
        let a = carried(AVP::from_ipv4(*t, &v4), *t)?;
        ensure!(a.encode_bytes() == w && a.encode_ipv4().map_err(e)? == v4, "{v4} is written {:?} and read {:?}", a.encode_bytes(), a.encode_ipv4());
        let when = Utc.timestamp_opt(*n as i64, 0).single().ok_or("date")?;
        let a = carried(AVP::from_date(*t, &when), *t)?;
        ensure!(a.encode_bytes() == w && a.encode_date().map_err(e)? == when, "{when} is written {:?} and read {:?}", a.encode_bytes(), a.encode_date());
        Ok(())
    });
    cx.sweep("shorts", 256, 4, |i, d| (i as u8, d.u8()), |(hi, t): &(u8, u8), obs| {
        obs.nontrivial();
        for lo in 0..=255u8 {
            let n = u16::from_be_bytes([*hi, lo]);
            let a = AVP::from_u16(*t, n);
            ensure!(a.encode_bytes() == [*hi, lo] && a.encode_u16().ok() == Some(n), "{n} is written {:?} and read {:?}", a.encode_bytes(), a.encode_u16());
        }
        Ok(())
    });
    cx.sweep("ipv6", 16 * 256 + 16 * 16, 4, |i, d| {
        let mut b = d.bytes(16);
        if i >= 16 * 256 {
            // each particular kind of address, with the rest one octet repeated, or random
            if i % 16 > 0 {
                b.0.fill((i as u8).wrapping_mul(17));
            }
            crate::gen::flavour(&mut b.0, crate::gen::FLAVOURS - 1, (i / 16) as u8);
            return (b, d.u8());
        }
        if d.below(2) == 0 {
            b.0.fill(0);
        }
        b.0[(i / 256) as usize] = i as u8;
        (b, d.u8())
    }, |(b, t): &(B, u8), obs| {
        obs.nontrivial();
        let x: [u8; 16] = b[..].try_into().map_err(|_| "sixteen octets")?;
        let v6 = Ipv6Addr::from(x);
        let a = carried(AVP::from_ipv6(*t, &v6), *t)?;
        ensure!(a.encode_bytes() == x && a.encode_ipv6().ok() == Some(v6), "{v6} is written {:?} and read {:?}", a.encode_bytes(), a.encode_ipv6());
        Ok(())
    });
    // (the planes of Unicode in blocks of 256)
    cx.sweep("characters", 0x1100, 2, |i, d| ((i as u32) << 8, { let n = d.below(4); d.text(n) }), |(base, lead): &(u32, String), obs| {
        obs.nontrivial();
        for c in (*base..base + 256).filter_map(char::from_u32) {
            for s in [format!("{c}"), format!("{lead}{c}"), format!("{c}{lead}"), format!("{lead}{c}{c}x")] {
                let a = AVP::from_string(1, &s);
                ensure!(a.encode_bytes() == s.as_bytes() && a.encode_string().ok().as_ref() == Some(&s), "text {s:?} is written {} and read {:?}", hex(&a.encode_bytes()), a.encode_string());
            }
        }
        Ok(())
    });
    cx.sweep("octet-strings", 65536, 1, |i, _| (i >> 8, i & 255), |(x, y): &(u64, u64), obs| {
        obs.nontrivial();
        let read = |b: &[u8]| -> Result<(), String> {
            let got = AVP::from_bytes(1, b).encode_string().ok();
            let want = std::str::from_utf8(b).ok();
            ensure!(got.as_deref() == want, "{} is read as {got:?}", hex(b));
            Ok(())
        };
        let (x, y) = (*x as u8, *y as u8);
        read(&[x])?;
        read(&[x, y])?;
        for z in 0..=255u8 {
            read(&[x, y, z])?;
        }
        for z in [0x7f, 0x80, 0xbf, 0xc0] {
            read(&[x, y, z, 0x80])?;
            read(&[b'a', x, y, z])?;
            read(&[x, y, z, z, b'a'])?;
        }
        Ok(())
    });
    cx.sweep("type-size", 256 * 254, 2, |i, d| ((i / 254) as u8, d.bytes((i % 254) as usize), d.text((i % 254) as usize)), |(t, b, s): &(u8, B, String), obs| {
        obs.nontrivial();
        let a = carried(AVP::from_bytes(*t, b), *t)?;
        ensure!(a.encode_bytes() == b.0, "{} octets are changed", b.len());
        let a = carried(AVP::from_string(*t, s), *t)?;
        ensure!(a.encode_bytes() == s.as_bytes() && a.encode_string().ok().as_ref() == Some(s), "text {s:?} is written {} and read {:?}", hex(&a.encode_bytes()), a.encode_string());
        pv::check_read_plain(b, &mut Obs::default())
    });
}

pub fn c09(cx: &Cx) {
    cx.rule("values: every tag octet (and none) with every text size; every tag octet with some 2000 particular integers; every leading octet with every size read: all of them in every run");
    cx.sweep("tag-size", 257 * 253, 2, |i, d| {
        let t = i / 253;
        ((t < 256).then_some(t as u8), d.text((i % 253) as usize), d.u8())
    }, |(tag, text, typ): &(Option<u8>, String, u8), obs| {
        obs.nontrivial();
        let t = tag.map(Tag::new);
        let a = carried(AVP::from_tagged_string(*typ, t.as_ref(), text), *typ)?;
        let wire: Vec<u8> = tag.iter().copied().chain(text.bytes()).collect();
        ensure!(a.encode_bytes() == wire, "tag {tag:?} text {text:?} is written {}", hex(&a.encode_bytes()));
        let got = a.encode_tagged_string().ok().map(|(s, t)| (s, t.map(|t| t.get_value())));
        ensure!(got == pv::read_tagged_string(&wire), "tag {tag:?} text {text:?} is read as {got:?}");
        Ok(())
    });
    let nums = numbers();
    let n = nums.len() as u64;
    cx.sweep("tag-number", 257 * n, 1, |i, d| {
        let t = i / n;
        ((t < 256).then_some(t as u8), nums[(i % n) as usize], d.u8())
    }, |(tag, n, typ): &(Option<u8>, u32, u8), obs| {
        obs.nontrivial();
        let t = tag.map(Tag::new);
        let a = AVP::from_tagged_u32(*typ, t.as_ref(), *n);
        let w = [&[tag.unwrap_or(0)][..], &n.to_be_bytes()].concat();
        ensure!(a.encode_bytes() == w, "tag {tag:?} integer {n} is written {}", hex(&a.encode_bytes()));
        let got = a.encode_tagged_u32().ok().map(|(n, t)| (n, t.get_value()));
        ensure!(got == (w[0] <= 31).then_some((*n, w[0])), "tag {tag:?} integer {n} is read as {got:?}");
        Ok(())
    });
    cx.sweep("lead-size", 256 * 254, 2, |i, d| {
        let mut b = d.bytes((i % 254) as usize);
        if let Some(x) = b.0.first_mut() {
            *x = (i / 254) as u8;
        }
        b
    }, |c, obs| {
        obs.nontrivial();
        let a = AVP::from_bytes(7, c);
        let got = a.encode_tagged_string().ok().map(|(s, t)| (s, t.map(|t| t.get_value())));
        ensure!(got == pv::read_tagged_string(c), "read as tagged text: {got:?}, expected {:?}", pv::read_tagged_string(c));
        let got = a.encode_tagged_u32().ok().map(|(n, t)| (n, t.get_value()));
        ensure!(got == pv::read_tagged_int(c), "read as tagged integer: {got:?}, expected {:?}", pv::read_tagged_int(c));
        Ok(())
    });
}

pub fn c10(cx: &Cx) {
    cx.rule("values: every octet at every place of prefixes of every size up to 17, and as the leading octets of what is read: all of them in every run");
    cx.sweep("octets", 17 * 17 * 256, 2, |i, d| {
        let (n, at) = ((i / 256 / 17) as usize + 1, (i / 256 % 17) as usize);
        let mut b = d.bytes(n);
        let at = at % n;
        b.0[at] = i as u8;
        (b, d.u8())
    }, |(p, typ): &(B, u8), obs| {
        obs.nontrivial();
        let r = AVP::from_ipv4_prefix(*typ, p);
        ensure!(r.is_ok() == (p.len() == 4), "IPv4 prefix of {} octets gives {r:?}", p.len());
        if let Ok(a) = r {
            let a = carried(a, *typ)?;
            ensure!(a.encode_bytes() == [&[0, 32][..], p].concat() && a.encode_ipv4_prefix().ok().as_ref() == Some(&p.0), "IPv4 prefix {} is written {} and read {:?}", hex(p), hex(&a.encode_bytes()), a.encode_ipv4_prefix());
        }
        let r = AVP::from_ipv6_prefix(*typ, p);
        ensure!(r.is_ok() == (p.len() <= 16), "IPv6 prefix of {} octets gives {r:?}", p.len());
        if let Ok(a) = r {
            let a = carried(a, *typ)?;
            ensure!(a.encode_bytes() == [&[0, 8 * p.len() as u8][..], p].concat() && a.encode_ipv6_prefix().ok().as_ref() == Some(&p.0), "IPv6 prefix {} is written {} and read {:?}", hex(p), hex(&a.encode_bytes()), a.encode_ipv6_prefix());
        }
        Ok(())
    });
    cx.sweep("leading-octets", 65536, 1, |i, d| {
        let mut v = vec![(i >> 8) as u8, i as u8];
        let n = if d.below(3) == 0 { 4 } else { d.below(17) };
        v.extend(d.bytes(n).0);
        B(v)
    }, |c, obs| {
        obs.nontrivial();
        let a = AVP::from_bytes(7, c);
        let r = a.encode_ipv4_prefix();
        ensure!(r.as_ref().ok().map(|v| &v[..]) == (c.len() == 6).then(|| &c[2..]), "{} read as IPv4 prefix: {r:?}", hex(c));
        let r = a.encode_ipv6_prefix();
        ensure!(r.as_ref().ok().map(|v| &v[..]) == Some(&c[2..]), "{} read as IPv6 prefix: {r:?}", hex(c));
        Ok(())
    });
}

pub fn c11(cx: &Cx) {
    cx.rule("values: every vendor type with every text size, tagged and not; every tag with every vendor type; some 2000 particular vendor ids: all of them in every run");
    let check = |v: &OneVsa, obs: &mut Obs| {
        obs.nontrivial();
        let x = pv::lib_vsa(v);
        let w = pv::vsa_wire(v);
        ensure!(x.message() == w, "{v:?} is serialised {}, expected {}", hex(&x.message()), hex(&w));
        ensure!(x.len() == w[5] as usize && !x.is_empty(), "{v:?} reports length {}, expected {}", x.len(), w[5]);
        let mut p = Packet::new_with_identifier(lib_code(1), b"s", 1);
        rfc2865::add_vsa_attribute(&mut p, &*x);
        let got: Vec<Vec<u8>> = p.lookup_all(26).iter().map(|a| a.encode_bytes()).collect();
        ensure!(got == [w], "the packet holds {got:?}");
        Ok(())
    };
    cx.sweep("type-size", 256 * 248 * 2, 2, |i, d| {
        let n = (i / 2 % 248) as usize;
        let tag = (i % 2 == 1).then(|| d.u8());
        OneVsa { id: d.u32() as i32, typ: (i / 496) as u8, tag, text: d.text(if tag.is_some() { n.min(246) } else { n }) }
    }, check);
    cx.sweep("tag-type", 65536, 2, |i, d| OneVsa { id: d.u32() as i32, typ: i as u8, tag: Some((i >> 8) as u8), text: { let n = d.below(12); d.text(n) } }, check);
    let nums = numbers();
    cx.sweep("vendors", nums.len() as u64 * 2, 4, |i, d| OneVsa {
        id: nums[(i / 2) as usize] as i32,
        typ: d.u8(),
        tag: (i % 2 == 1).then(|| d.u8()),
        text: { let n = d.below(12); d.text(n) },
    }, check);
}

pub fn c12(cx: &Cx) {
    cx.rule("pairs: every type next to every other in a packet, looked up, deleted and encoded, in every run");
    cx.sweep("types-by-types", 65536, 1, |i, d| {
        let v: Vec<B> = (0..4).map(|_| { let n = d.below(5); d.bytes(n) }).collect();
        ((i >> 8) as u8, i as u8, v)
    }, |(t, u, v): &(u8, u8, Vec<B>), obs| {
        obs.nontrivial();
        let l: Vec<(u8, &B)> = [t, u, u, t].iter().zip(v).map(|(t, v)| (**t, v)).collect();
        let show = |p: &Packet, l: &[(u8, &B)]| -> Result<(), String> {
            for k in [*t, *u, t.wrapping_add(1), u.wrapping_sub(1), t ^ 0x80, t ^ u] {
                let want: Vec<Vec<u8>> = l.iter().filter(|(x, _)| *x == k).map(|(_, v)| v.0.clone()).collect();
                let got: Vec<Vec<u8>> = p.lookup_all(k).iter().map(|a| a.encode_bytes()).collect();
                ensure!(got == want, "lookup_all({k}) = {got:?}, expected {want:?}");
                let one = p.lookup(k).map(|a| a.encode_bytes());
                ensure!(one.as_ref() == want.first(), "lookup({k}) = {one:?}, expected {:?}", want.first());
            }
            let all: Vec<(u8, Vec<u8>)> = l.iter().map(|(t, v)| (*t, v.0.clone())).collect();
            let b = p.encode().map_err(|e| format!("does not encode: {e}"))?;
            ensure!(b[20..] == rf::attr_bytes(&all)[..], "encoded attributes are not the surviving ones in insertion order");
            Ok(())
        };
        let mut p = Packet::new_with_identifier(lib_code(1), b"s", 1);
        for (t, v) in &l {
            p.add(AVP::from_bytes(*t, v));
        }
        show(&p, &l)?;
        let q = p.clone();
        p.delete(*u);
        let left: Vec<(u8, &B)> = l.iter().filter(|(x, _)| x != u).cloned().collect();
        show(&p, &left)?;
        p.delete(*t);
        show(&p, &[])?;
        p.add(AVP::from_bytes(*u, &v[0]));
        show(&p, &[(*u, &v[0])])?;
        show(&q, &l)
    });
}

// ---------------------------------------------------------------- C13

/// A value for an accessor: what the space of its values is swept over.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Value {
    accessor: String,
    first: Seed,
    second: Seed,
}

/// The points of an accessor's value space.
fn points(a: &Attr, nums: &[u32]) -> Vec<(Option<u8>, usize, u32, bool)> {
    let lens = |max: usize, bad: bool| (0..=max).map(move |n| (None, n, 1, bad));
    let tags = || (0..=255u8).map(|t| (Some(t), 5, 77, false));
    let ints = || nums.iter().map(|n| (None, 4, *n, false));
    match a.api {
        Api::Str { .. } | Api::Octets { .. } => lens(253, false).collect(),
        Api::TagStr { .. } => lens(252, false).chain((0..=252).map(|n| (Some(1 + (n % 31) as u8), n, 1, false))).chain(tags()).collect(),
        Api::UserPw { .. } => lens(128, false).chain((0..100).map(|n| (None, 3, n, true))).collect(),
        Api::TunPw { .. } => lens(240, false).chain((0..60).map(|n| (Some(1), 3, n, true))).chain(tags()).collect(),
        Api::Fixed { .. } => lens(253, true).chain(lens(20, false)).collect(),
        Api::Concat { .. } => lens(253, false).chain((0..900).map(|n| (None, 7, n, true))).collect(),
        Api::Pfx4 { .. } | Api::Pfx6 { .. } => lens(60, true).chain(lens(20, false)).collect(),
        Api::Ip6 { .. } => lens(17, false).collect(),
        Api::Ip4 { .. } | Api::Date { .. } | Api::Int { .. } => ints().collect(),
        Api::TagInt { .. } => ints().chain(tags()).collect(),
        Api::Short { .. } => (0..=65535).map(|n| (None, 2, n, false)).collect(),
        Api::Vsa { .. } => lens(247, false).chain(tags()).chain(ints()).collect(),
    }
}

pub fn c13(cx: &Cx, t: &Table) {
    cx.rule("values: for every accessor every size of text, octets, password or prefix, every tag, every short and some 2000 particular integers, in every run");
    let nums = numbers();
    let all: Vec<(usize, (Option<u8>, usize, u32, bool))> =
        t.attrs.iter().enumerate().flat_map(|(i, a)| points(a, &nums).into_iter().map(move |p| (i, p))).collect();
    cx.sweep("values", all.len() as u64, 2, |i, d| {
        let (k, (tag, n, num, bad)) = all[i as usize];
        let first = Seed { tag, text: d.text(n), octets: d.bytes(n), n: num, bad };
        let second = Seed { tag: None, text: "other".to_owned(), octets: d.bytes(6), n: d.u32(), bad: false };
        Value { accessor: t.attrs[k].id(), first, second }
    }, |c, obs| {
        let Some(a) = t.attrs.iter().find(|a| a.id() == c.accessor) else {
            return Ok(()); // (the accessor is missing: reported elsewhere)
        };
        obs.nontrivial();
        let mut p = Packet::new(lib_code(1), b"secret");
        let mut m: Vec<(u8, Vec<u8>)> = vec![];
        for s in [&c.first, &c.second] {
            if let Added::Contents(l) = a.add(&mut p, s)? {
                m.extend(l.into_iter().map(|v| (a.num, v)));
            }
            a.agree(&p, &m)?;
        }
        ensure!(contents(&p) == model_contents(&m), "{}: adding does not append the values under number {}", a.id(), a.num);
        if m.iter().all(|(_, v)| v.len() <= 253) {
            let w = p.encode().map_err(|e| format!("does not encode: {e}"))?;
            let q = Packet::decode(&w, b"secret").map_err(|e| format!("does not decode: {e}"))?;
            a.agree(&q, &m).map_err(|e| format!("received: {e}"))?;
        }
        (a.delete)(&mut p);
        ensure!(p.lookup(a.num).is_none(), "{}: delete leaves something", a.id());
        Ok(())
    });
}

//! C01-C05, C12, C29: the packet codec, authenticators and the attribute list.

use crate::engine::{guard, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, attrs_wire, code_of, lib_code, mutate, mutation, plain, Mutation};
use crate::refimpl as rf;
use proptest::collection::vec;
use proptest::prelude::*;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use serde::{Deserialize, Serialize};

/// The values a packet holds per type, in order.
pub fn by_type(p: &Packet) -> Vec<Vec<Vec<u8>>> {
    (0..=255u8)
        .map(|t| p.lookup_all(t).iter().map(|a| a.encode_bytes()).collect())
        .collect()
}

pub fn model_by_type(attrs: &[(u8, Vec<u8>)]) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![vec![]; 256];
    for (t, v) in attrs {
        out[*t as usize].push(v.clone());
    }
    out
}

/// Packet with a chosen authenticator: decoded from an Access-Request header, then turned into `code`.
pub fn packet_with(code: u8, id: u8, auth: &[u8], secret: &[u8], attrs: &[(u8, B)]) -> Result<Packet, String> {
    let base = Packet::decode(&rf::build(1, id, auth, &[]), secret)
        .map_err(|e| format!("a bare Access-Request header does not decode: {e}"))?;
    let mut p = base.make_response_packet(lib_code(code));
    for (t, v) in attrs {
        p.add(AVP::from_bytes(*t, v));
    }
    Ok(p)
}

/// Checks that `p` shows exactly the parsed packet.
pub fn same_packet(p: &Packet, r: &rf::RefPacket, secret: &[u8]) -> Result<(), String> {
    let code = if rf::ALL_CODES.contains(&r.code) { lib_code(r.code) } else { Code::Invalid };
    ensure!(p.get_code() == code, "code {:?}, wire has {}", p.get_code(), r.code);
    ensure!(p.get_identifier() == r.id, "identifier {}, wire has {}", p.get_identifier(), r.id);
    ensure!(p.get_authenticator()[..] == r.auth[..], "authenticator differs from the wire");
    ensure!(p.get_secret()[..] == secret[..], "secret differs from the one given");
    let got = by_type(p);
    let want = model_by_type(&r.attrs);
    for t in 0..256 {
        ensure!(got[t] == want[t], "attributes of type {t}: {:?}, wire has {:?}", got[t], want[t]);
        let first = p.lookup(t as u8).map(|a| a.encode_bytes());
        ensure!(first.as_ref() == want[t].first(), "lookup({t}) is {first:?}, wire has {:?}", want[t].first());
    }
    Ok(())
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bytes {
    pub bytes: B,
    pub secret: B,
}

fn wire_input() -> BoxedStrategy<B> {
    let built = (
        gen::any_code_octet(),
        gen::octet(),
        gen::auth(),
        prop_oneof![
            24 => gen::attrs(0..=6),
            8 => gen::filled(4085..=4100),
            4 => gen::filled(20..=600),
            4 => gen::attrs(20..=40),
            1 => gen::crowded(),
        ],
    )
        .prop_map(|(c, i, a, l)| rf::build(c, i, &a, &attrs_wire(&l)));
    prop_oneof![
        10 => (built.clone(), vec(mutation(), 1..=2)).prop_map(|(mut b, ms)| {
            for m in &ms {
                mutate(&mut b, m);
            }
            B(b)
        }),
        5 => built.clone().prop_map(B),
        3 => (built, gen::bytes(1..=40)).prop_map(|(mut b, p)| {
            b.extend(&p.0);
            B(b)
        }),
        2 => gen::bytes(0..=64),
        // noise in the attribute area of a packet with a consistent header
        3 => (gen::any_code_octet(), gen::auth(), vec(prop_oneof![3 => 0u8..=6, 1 => gen::octet()], 0..=40))
            .prop_map(|(c, a, n)| B(rf::build(c, 7, &a, &n))),
    ]
    .boxed()
}

pub fn c01(cx: &Cx) {
    cx.rule("decode: a generated packet (attribute lists up to and over 4096 octets), changed by 0-2 mutations of Length, attribute lengths, octets, truncation or padding, or noise; non-trivial when at least a full header was supplied; oracle: reference parser decides acceptance and content");
    cx.drive(
        "decode",
        cx.n(60_000, 2_000_000),
        || (wire_input(), gen::secret_or_empty()).prop_map(|(bytes, secret)| Bytes { bytes, secret }),
        check_decode,
    );
    cx.rule("short: every prefix of a valid packet must be refused");
    cx.drive(
        "prefixes",
        cx.n(1_500, 40_000),
        || (gen::any_code_octet(), gen::auth(), gen::attrs(0..=3)).prop_map(|(c, a, l)| B(rf::build(c, 1, &a, &attrs_wire(&l)))),
        |b, obs| {
            obs.nontrivial();
            for n in 0..b.len() {
                ensure!(Packet::decode(&b[..n], b"s").is_err(), "a prefix of {n} of {} octets decodes", b.len());
            }
            Ok(())
        },
    );
}

pub fn check_decode(c: &Bytes, obs: &mut Obs) -> Result<(), String> {
    if c.bytes.len() >= 20 {
        obs.nontrivial();
    }
    let want = rf::parse(&c.bytes);
    let before = c.bytes.0.clone();
    let got = Packet::decode(&c.bytes, &c.secret);
    ensure!(before == c.bytes.0, "input changed");
    match (want, got) {
        (Err(why), Err(_)) => {
            obs.label(format!("rejected: {:?}", why[0]));
            Ok(())
        }
        (Err(why), Ok(_)) => Err(format!("accepted malformed bytes: {why:?}")),
        (Ok(_), Err(e)) => Err(format!("refused a well-formed packet: {e}")),
        (Ok(r), Ok(p)) => {
            obs.label(format!(
                "accepted: {}{}",
                if r.attrs.is_empty() { "no attributes" } else { "attributes" },
                if r.len < c.bytes.len() { ", padding" } else { "" }
            ));
            same_packet(&p, &r, &c.secret)?;
            if rf::ENCODABLE.contains(&r.code) {
                let enc = p.encode().map_err(|e| format!("a decoded packet does not encode: {e}"))?;
                ensure!(enc[..4] == c.bytes[..4], "re-encoded header {:?} differs from {:?}", &enc[..4], &c.bytes[..4]);
                ensure!(enc[20..] == c.bytes[20..r.len], "re-encoded attributes differ from the wire (order or content)");
                if rf::REQ_PLAIN.contains(&r.code) {
                    ensure!(enc[..] == c.bytes[..r.len], "re-encoding an Access-Request/Status-Server is not the identity");
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    pub code: u8,
    pub id: u8,
    pub secret: B,
    pub attrs: Vec<(u8, B)>,
    /// this many further attributes (type 26) of this value size
    pub bulk: (u16, u16),
    /// how the attributes are added: one by one or all together
    pub extend: bool,
}

fn build_case() -> BoxedStrategy<Build> {
    let shape = prop_oneof![
        6 => (gen::attrs(0..=8), Just((0u16, 0u16))),
        3 => (gen::filled(4088..=4104), Just((0, 0))),
        2 => (vec((gen::attr_type(), prop_oneof![3 => gen::attr_value(), 1 => gen::bytes(252..=260)]), 1..=4), Just((0, 0))),
        1 => (gen::attrs(0..=2), (10u16..=25, 240u16..=254)),
        // totals around multiples of 65536
        1 => (gen::attrs(0..=2), prop_oneof![(256u16..=258, 250u16..=253), (512u16..=516, 253u16..=253), (30_000u16..=33_000, 0u16..=1)]),
        1 => (gen::filled(65_400..=65_640), Just((0, 0))),
        1 => (gen::crowded(), Just((0, 0))),
    ];
    (
        prop_oneof![9 => code_of(&rf::ENCODABLE), 1 => code_of(&[13, 255, 0])],
        gen::octet(),
        gen::secret_or_empty(),
        shape,
        any::<bool>(),
    )
        .prop_map(|(code, id, secret, (attrs, bulk), extend)| Build { code, id, secret, attrs, bulk, extend })
        .boxed()
}

pub fn c02(cx: &Cx) {
    cx.rule("encode: any code, identifier, secret and attribute list, sizes aimed at 253/254 per attribute, 4096 in total and multiples of 65536; non-trivial when there is at least one attribute; oracle: reference size rule and layout, then decode restores everything");
    cx.drive("encode", cx.n(25_000, 400_000), build_case, check_encode);
}

pub fn check_encode(c: &Build, obs: &mut Obs) -> Result<(), String> {
    let mut p = Packet::new_with_identifier(lib_code(c.code), &c.secret, c.id);
    let mut all = plain(&c.attrs);
    for _ in 0..c.bulk.0 {
        all.push((26, vec![0x41; c.bulk.1 as usize]));
    }
    if c.extend {
        p.extend(all.iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
    } else {
        for (t, v) in &all {
            p.add(AVP::from_bytes(*t, v));
        }
    }
    if !all.is_empty() {
        obs.nontrivial();
    }
    let total = 20 + all.iter().map(|(_, v)| 2 + v.len()).sum::<usize>();
    let toolong = all.iter().any(|(_, v)| v.len() > 253);
    let got = guard(|| p.encode())?;
    if !rf::ENCODABLE.contains(&c.code) {
        obs.label("code without encoding");
        ensure!(got.is_err(), "a packet with code {} was encoded", c.code);
        return Ok(());
    }
    if toolong || total > 4096 {
        obs.label(if toolong { "attribute too long" } else if total > 65535 { "total over 65535" } else { "total over 4096" });
        return match got {
            Err(_) => Ok(()),
            Ok(b) => Err(format!("an oversized packet ({total} octets) was encoded into {} octets with Length {}", b.len(), b[2] as usize * 256 + b[3] as usize)),
        };
    }
    let b = got.map_err(|e| format!("a packet of {total} octets does not encode: {e}"))?;
    obs.label(if total > 4000 { "encoded, near the limit" } else { "encoded" });
    ensure!(b.len() == total, "{} octets encoded, {total} expected", b.len());
    let attr = rf::attr_bytes(&all);
    ensure!(b[0] == c.code && b[1] == c.id && b[2] as usize * 256 + b[3] as usize == total && b[20..] == attr[..],
        "header or attributes of the datagram are wrong: {:?}", &b[..4]);
    let again = p.encode().map_err(|e| format!("second encoding failed: {e}"))?;
    ensure!(again == b, "encoding twice gives different datagrams");
    let q = Packet::decode(&b, &c.secret).map_err(|e| format!("the datagram does not decode: {e}"))?;
    let mut a16 = [0; 16];
    a16.copy_from_slice(&b[4..20]);
    same_packet(&q, &rf::RefPacket { code: c.code, id: c.id, auth: a16, attrs: all, len: total }, &c.secret)
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sign {
    pub code: u8,
    pub id: u8,
    pub auth: B,
    pub secret: B,
    pub attrs: Vec<(u8, B)>,
}

pub fn c03(cx: &Cx) {
    cx.rule("authenticator: all 16 codes with any identifier, authenticator, secret and attributes; non-trivial when the code is signed with MD5; oracle: RFC formulas over an own MD5");
    cx.drive(
        "authenticator",
        cx.n(50_000, 1_000_000),
        || {
            (code_of(&rf::ALL_CODES), gen::octet(), gen::auth(), gen::secret_or_empty(), prop_oneof![9 => gen::attrs(0..=6), 1 => gen::filled(3000..=4096)])
                .prop_map(|(code, id, auth, secret, attrs)| Sign { code, id, auth, secret, attrs })
        },
        check_sign,
    );
    cx.rule("fresh: packets made by the constructors, whose authenticator is chosen by the library");
    cx.drive(
        "constructed",
        cx.n(15_000, 200_000),
        || {
            (code_of(&rf::ENCODABLE), gen::octet(), gen::secret(), gen::attrs(0..=4))
                .prop_map(|(code, id, secret, attrs)| Sign { code, id, auth: B(vec![]), secret, attrs })
        },
        |c, obs| {
            obs.nontrivial();
            let mut p = Packet::new(lib_code(c.code), &c.secret);
            p.set_identifier(c.id);
            for (t, v) in &c.attrs {
                p.add(AVP::from_bytes(*t, v));
            }
            let a = p.get_authenticator().clone();
            ensure!(a.len() == 16, "authenticator of {} octets", a.len());
            let want = rf::signed(c.code, c.id, &a, &attrs_wire(&c.attrs), &c.secret);
            let got = p.encode().map_err(|e| format!("does not encode: {e}"))?;
            ensure!(got == want, "datagram differs from the RFC's");
            Ok(())
        },
    );
}

pub fn check_sign(c: &Sign, obs: &mut Obs) -> Result<(), String> {
    let p = packet_with(c.code, c.id, &c.auth, &c.secret, &c.attrs)?;
    let wire = attrs_wire(&c.attrs);
    let want = rf::authenticator(c.code, c.id, &c.auth, &wire, &c.secret);
    if want.is_some() && !rf::REQ_PLAIN.contains(&c.code) {
        obs.nontrivial();
    }
    obs.label(format!("code {}", c.code));
    match (want, p.encode()) {
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => Err(format!("code {} was encoded", c.code)),
        (Some(_), Err(e)) => Err(format!("code {} does not encode: {e}", c.code)),
        (Some(w), Ok(b)) => {
            ensure!(b == rf::build(c.code, c.id, &w, &wire), "datagram {} has authenticator {}, expected {}",
                crate::engine::hex(&b[..20.min(b.len())]), crate::engine::hex(&b[4..20]), crate::engine::hex(&w));
            ensure!(p.get_authenticator()[..] == c.auth[..], "encoding changed the packet");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Verify {
    pub req: B,
    pub resp: B,
    pub secret: B,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tweak {
    None,
    MutResp(Mutation),
    MutReq(Mutation),
    OtherSecret(B),
    EmptySecret,
    /// change the header after signing so that Length no longer matches, then sign again
    PadResp(B),
    PadReq(B),
    ResignWithLength(i32),
}

fn tweak() -> BoxedStrategy<Tweak> {
    prop_oneof![
        3 => Just(Tweak::None),
        4 => mutation().prop_map(Tweak::MutResp),
        3 => mutation().prop_map(Tweak::MutReq),
        1 => gen::secret().prop_map(Tweak::OtherSecret),
        1 => Just(Tweak::EmptySecret),
        2 => gen::bytes(1..=30).prop_map(Tweak::PadResp),
        2 => gen::bytes(1..=30).prop_map(Tweak::PadReq),
        1 => (-6i32..=6).prop_map(Tweak::ResignWithLength),
    ]
    .boxed()
}

fn verify_case() -> BoxedStrategy<Verify> {
    (
        prop_oneof![6 => code_of(&rf::REQ_SIGNED), 3 => code_of(&rf::REQ_PLAIN), 1 => gen::octet()],
        prop_oneof![6 => code_of(&rf::RESP), 1 => gen::octet()],
        gen::octet(),
        gen::auth(),
        gen::secret(),
        (gen::attrs(0..=4), gen::attrs(0..=4)),
        tweak(),
    )
        .prop_map(|(rc, sc, id, auth, secret, (ra, sa), tw)| {
            let rw = attrs_wire(&ra);
            let req = rf::signed(rc, id, &auth, &rw, &secret);
            let sign_resp = |len_delta: i32, pad: &[u8]| {
                let mut m = rf::build(sc, id, &req[4..20], &attrs_wire(&sa));
                mutate(&mut m, &Mutation::LengthDelta(len_delta));
                let mut h = m.clone();
                h.extend(&secret.0);
                m[4..20].copy_from_slice(&rf::md5(&h));
                m.extend(pad);
                m
            };
            let sign_req = |len_delta: i32, pad: &[u8]| {
                let mut m = rf::build(rc, id, &[0; 16], &rw);
                mutate(&mut m, &Mutation::LengthDelta(len_delta));
                let mut h = m.clone();
                h.extend(&secret.0);
                let d = rf::md5(&h);
                m[4..20].copy_from_slice(&d);
                m.extend(pad);
                m
            };
            let mut c = Verify { resp: B(sign_resp(0, &[])), req: B(req.clone()), secret: secret.clone() };
            match tw {
                Tweak::None => {}
                Tweak::MutResp(m) => mutate(&mut c.resp.0, &m),
                Tweak::MutReq(m) => mutate(&mut c.req.0, &m),
                Tweak::OtherSecret(s) => c.secret = s,
                Tweak::EmptySecret => c.secret = B(vec![]),
                Tweak::PadResp(p) => c.resp = B(sign_resp(0, &p)),
                Tweak::PadReq(p) => c.req = B(sign_req(0, &p)),
                Tweak::ResignWithLength(d) => {
                    c.resp = B(sign_resp(d, &[]));
                    c.req = B(sign_req(d, &[]));
                }
            }
            c
        })
        .boxed()
}

/// Both verdicts against the RFC predicate. Request checks with a Length field that contradicts the datagram are
/// judged only where the RFC says what to do (signed codes).
pub fn check_verify(c: &Verify, obs: &mut Obs) -> Result<(), String> {
    let want = rf::is_authentic_response(&c.resp, &c.req, &c.secret);
    let got = Packet::is_authentic_response(&c.resp, &c.req, &c.secret);
    obs.label(if want { "response authentic" } else { "response not authentic" });
    ensure!(got == want, "is_authentic_response is {got}, expected {want}");
    let want = rf::is_authentic_request(&c.req, &c.secret);
    let got = Packet::is_authentic_request(&c.req, &c.secret);
    obs.label(if want { "request authentic" } else { "request not authentic" });
    ensure!(got == want, "is_authentic_request is {got}, expected {want}");
    if c.req.len() >= 20 && c.resp.len() >= 20 {
        obs.nontrivial();
    }
    Ok(())
}

/// Wrong authenticators close to the right one.
fn forgeries(right: &[u8], i: u8, j: u8, x: u8) -> Vec<(&'static str, Vec<u8>)> {
    let (i, j) = (i as usize % 16, j as usize % 16);
    let j = if i == j { (i + 1) % 16 } else { j };
    let edit = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut v = right.to_vec();
        f(&mut v);
        v
    };
    let mut out = vec![
        ("two octets swapped", edit(&|v| v.swap(i, j))),
        ("rotated", edit(&|v| v.rotate_left(i.max(1)))),
        ("reversed", edit(&|v| v.reverse())),
        ("sorted", edit(&|v| v.sort())),
        ("halves swapped", edit(&|v| v.rotate_left(8))),
        ("one mask on two octets", edit(&|v| {
            v[i] ^= x;
            v[j] ^= x;
        })),
        ("one mask on all octets", edit(&|v| v.iter_mut().for_each(|o| *o ^= x))),
        ("an octet up, another down", edit(&|v| {
            v[i] = v[i].wrapping_add(x);
            v[j] = v[j].wrapping_sub(x);
        })),
        ("top bit of two octets", edit(&|v| {
            v[i] ^= 0x80;
            v[j] ^= 0x80;
        })),
        ("case of letters", edit(&|v| v.iter_mut().for_each(|o| if o.is_ascii_alphabetic() { *o ^= 0x20 }))),
        ("complemented", edit(&|v| v.iter_mut().for_each(|o| *o = !*o))),
        ("octets byte-swapped in words", edit(&|v| v.chunks_mut(4).for_each(|w| w.reverse()))),
        ("all zero", vec![0; 16]),
        ("all ones", vec![0xff; 16]),
    ];
    for n in [0, 1, 2, 4, 8, 12, 14, 15, i] {
        out.push(("right only at the start", edit(&|v| v[n..].iter_mut().for_each(|o| *o = o.wrapping_add(x)))));
        out.push(("right only at the end", edit(&|v| v[..16 - n].iter_mut().for_each(|o| *o = o.wrapping_add(x)))));
        out.push(("zero after the start", edit(&|v| v[n..].fill(0))));
        out.push(("zero before the end", edit(&|v| v[..16 - n].fill(0))));
    }
    out.retain(|(_, v)| v[..] != *right);
    out
}

pub fn c04(cx: &Cx) {
    cx.rule("verdict: a correctly signed request/response pair, then nothing or one change (mutation of either datagram, other or empty secret, padding after Length, a false Length that is itself signed); non-trivial when both hold a full header; oracle: RFC predicate in both directions");
    cx.drive("verdict", cx.n(80_000, 2_000_000), verify_case, check_verify);
    cx.rule("flip: every single octet of a signed response, request and secret changed in turn must end authenticity (padding excepted)");
    cx.drive(
        "every-octet",
        cx.n(600, 20_000),
        || {
            (code_of(&rf::REQ_SIGNED), code_of(&rf::RESP), gen::octet(), gen::auth(), gen::secret(), gen::attrs(0..=3), 1u8..=255).prop_map(
                |(rc, sc, id, auth, secret, a, x)| {
                    let w = attrs_wire(&a);
                    let req = rf::signed(rc, id, &auth, &w, &secret);
                    let resp = rf::signed(sc, id, &req[4..20], &w, &secret);
                    (Verify { req: B(req), resp: B(resp), secret }, x)
                },
            )
        },
        |(c, x), obs| {
            obs.nontrivial();
            ensure!(Packet::is_authentic_response(&c.resp, &c.req, &c.secret), "genuine response refused");
            ensure!(Packet::is_authentic_request(&c.req, &c.secret), "genuine request refused");
            for i in 0..c.resp.len() {
                let mut r = c.resp.0.clone();
                r[i] ^= x;
                ensure!(!Packet::is_authentic_response(&r, &c.req, &c.secret), "response altered at octet {i} accepted");
            }
            for i in 0..c.req.len() {
                let mut r = c.req.0.clone();
                r[i] ^= x;
                let want = rf::is_authentic_request(&r, &c.secret);
                ensure!(Packet::is_authentic_request(&r, &c.secret) == want, "request altered at octet {i}: verdict should be {want}");
                if (4..20).contains(&i) {
                    ensure!(!Packet::is_authentic_response(&c.resp, &r, &c.secret), "response accepted for a request whose authenticator differs at octet {i}");
                }
            }
            for i in 0..c.secret.len() {
                let mut s = c.secret.0.clone();
                s[i] ^= x;
                ensure!(!Packet::is_authentic_response(&c.resp, &c.req, &s), "response accepted under a secret differing at octet {i}");
                ensure!(!Packet::is_authentic_request(&c.req, &s), "request accepted under a secret differing at octet {i}");
            }
            for n in 0..20 {
                ensure!(!Packet::is_authentic_response(&c.resp[..n], &c.req, &c.secret), "response of {n} octets accepted");
                ensure!(!Packet::is_authentic_response(&c.resp, &c.req[..n], &c.secret), "request of {n} octets accepted");
                ensure!(!Packet::is_authentic_request(&c.req[..n], &c.secret), "request of {n} octets accepted");
            }
            Ok(())
        },
    );
    cx.rule("forged: authenticators made from the right one by changes that cancel out in sums, xors and orderless comparisons, or that leave most of it right; each must be refused");
    cx.drive(
        "forged",
        cx.n(3_000, 100_000),
        || {
            (code_of(&rf::REQ_SIGNED), code_of(&rf::RESP), gen::octet(), (gen::auth(), gen::secret(), gen::attrs(0..=3)), (gen::octet(), gen::octet(), 1u8..=255)).prop_map(
                |(rc, sc, id, (auth, secret, a), by)| {
                    let w = attrs_wire(&a);
                    let req = rf::signed(rc, id, &auth, &w, &secret);
                    let resp = rf::signed(sc, id, &req[4..20], &w, &secret);
                    (Verify { req: B(req), resp: B(resp), secret }, by)
                },
            )
        },
        |(c, (i, j, x)), obs| {
            obs.nontrivial();
            ensure!(Packet::is_authentic_response(&c.resp, &c.req, &c.secret), "genuine response refused");
            ensure!(Packet::is_authentic_request(&c.req, &c.secret), "genuine request refused");
            for (how, a) in forgeries(&c.resp[4..20], *i, *j, *x) {
                let mut m = c.resp.0.clone();
                m[4..20].copy_from_slice(&a);
                ensure!(!Packet::is_authentic_response(&m, &c.req, &c.secret), "response with its authenticator changed ({how}) accepted");
            }
            for (how, a) in forgeries(&c.req[4..20], *i, *j, *x) {
                let mut m = c.req.0.clone();
                m[4..20].copy_from_slice(&a);
                ensure!(!Packet::is_authentic_request(&m, &c.secret), "request with its authenticator changed ({how}) accepted");
                ensure!(!Packet::is_authentic_response(&c.resp, &m, &c.secret), "response accepted for a request with another authenticator ({how})");
            }
            // what a careless signer would have sent
            let body = |m: &[u8], auth: &[u8], parts: &[&[u8]]| -> Vec<u8> {
                let mut m = m.to_vec();
                m[4..20].copy_from_slice(auth);
                let d = rf::md5(&parts.iter().map(|p| if p.is_empty() { &m[..] } else { p }).collect::<Vec<_>>().concat());
                m[4..20].copy_from_slice(&d);
                m
            };
            let s = &c.secret.0;
            let zero = [0u8; 16];
            let head = [&c.resp[..4], &c.req[4..20]].concat();
            for (how, m) in [
                ("secret first", body(&c.resp, &c.req[4..20], &[s, &[]])),
                ("no secret", body(&c.resp, &c.req[4..20], &[&[]])),
                ("secret twice", body(&c.resp, &c.req[4..20], &[&[], s, s])),
                ("zero authenticator", body(&c.resp, &zero, &[&[], s])),
                ("its own authenticator", body(&c.resp, &c.resp[4..20], &[&[], s])),
                ("the request's octets", body(&c.resp, &c.req[4..20], &[&c.req.0, s])),
                ("the secret alone", body(&c.resp, &zero, &[s])),
                ("the header alone", body(&c.resp, &zero, &[&head, s])),
            ] {
                let want = rf::is_authentic_response(&m, &c.req, s);
                ensure!(Packet::is_authentic_response(&m, &c.req, s) == want, "response signed wrongly ({how}): verdict should be {want}");
            }
            let head = [&c.req[..4], &zero].concat();
            for (how, m) in [
                ("secret first", body(&c.req, &zero, &[s, &[]])),
                ("no secret", body(&c.req, &zero, &[&[]])),
                ("secret twice", body(&c.req, &zero, &[&[], s, s])),
                ("its own authenticator", body(&c.req, &c.req[4..20], &[&[], s])),
                ("another authenticator", body(&c.req, &[*x; 16], &[&[], s])),
                ("the secret alone", body(&c.req, &zero, &[s])),
                ("the header alone", body(&c.req, &zero, &[&head, s])),
            ] {
                let want = rf::is_authentic_request(&m, s);
                ensure!(Packet::is_authentic_request(&m, s) == want, "request signed wrongly ({how}): verdict should be {want}");
            }
            Ok(())
        },
    );
    cx.rule("codes: the request verdict for every code octet, signed as an accounting request would be");
    cx.drive(
        "codes",
        cx.n(1_500, 30_000),
        || (gen::secret(), gen::attrs(0..=3), gen::octet()).prop_map(|(s, a, i)| (s, a, i)),
        |(s, a, i): &(B, Vec<(u8, B)>, u8), obs| {
            obs.nontrivial();
            for code in 0..=255u8 {
                let mut m = rf::build(code, *i, &[0; 16], &attrs_wire(a));
                let d = rf::md5(&[&m[..], s].concat());
                m[4..20].copy_from_slice(&d);
                let want = rf::is_authentic_request(&m, s);
                ensure!(Packet::is_authentic_request(&m, s) == want, "code {code}: verdict should be {want}");
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exchange {
    pub req_code: u8,
    pub resp_code: u8,
    pub id: u8,
    pub secret: B,
    pub other_secret: B,
    pub req_attrs: Vec<(u8, B)>,
    pub resp_attrs: Vec<(u8, B)>,
    pub pos: u16,
    pub xor: u8,
}

pub fn c05(cx: &Cx) {
    cx.rule("exchange: build and encode a request, decode it as a server, make and encode the response, verify as a client; then verify against another request, another secret and an altered response; non-trivial when the request or response carries attributes");
    cx.drive(
        "exchange",
        cx.n(40_000, 800_000),
        || {
            (
                prop_oneof![code_of(&rf::REQ_PLAIN), code_of(&rf::REQ_SIGNED)],
                code_of(&rf::RESP),
                gen::octet(),
                (gen::secret(), gen::secret()),
                (gen::attrs(0..=5), gen::attrs(0..=5)),
                (any::<u16>(), 1u8..=255),
            )
                .prop_map(|(req_code, resp_code, id, (secret, other_secret), (req_attrs, resp_attrs), (pos, xor))| Exchange {
                    req_code, resp_code, id, secret, other_secret, req_attrs, resp_attrs, pos, xor,
                })
        },
        check_exchange,
    );
}

pub fn check_exchange(c: &Exchange, obs: &mut Obs) -> Result<(), String> {
    if !c.req_attrs.is_empty() || !c.resp_attrs.is_empty() {
        obs.nontrivial();
    }
    obs.label(format!("request code {}", c.req_code));
    let mk = || -> Result<Vec<u8>, String> {
        let mut p = Packet::new_with_identifier(lib_code(c.req_code), &c.secret, c.id);
        for (t, v) in &c.req_attrs {
            p.add(AVP::from_bytes(*t, v));
        }
        p.encode().map_err(|e| format!("request does not encode: {e}"))
    };
    let req = mk()?;
    ensure!(Packet::is_authentic_request(&req, &c.secret), "the encoded request is not authentic");
    if rf::REQ_SIGNED.contains(&c.req_code) && c.secret != c.other_secret {
        ensure!(!Packet::is_authentic_request(&req, &c.other_secret), "the request is authentic under another secret");
    }
    let sreq = Packet::decode(&req, &c.secret).map_err(|e| format!("request does not decode: {e}"))?;
    let mut resp = sreq.make_response_packet(lib_code(c.resp_code));
    ensure!(resp.get_code() == lib_code(c.resp_code), "response code {:?}", resp.get_code());
    ensure!(resp.get_identifier() == c.id, "response identifier {} for request {}", resp.get_identifier(), c.id);
    ensure!(resp.get_authenticator()[..] == req[4..20], "response does not keep the request authenticator");
    ensure!(resp.get_secret()[..] == c.secret[..], "response does not keep the secret");
    for t in 0..=255u8 {
        ensure!(resp.lookup_all(t).is_empty(), "a new response carries an attribute of type {t}");
    }
    for (t, v) in &c.resp_attrs {
        resp.add(AVP::from_bytes(*t, v));
    }
    let wire = resp.encode().map_err(|e| format!("response does not encode: {e}"))?;
    ensure!(wire[1] == req[1], "response identifier on the wire differs");
    ensure!(Packet::is_authentic_response(&wire, &req, &c.secret), "the response is not authentic for its request");
    if c.secret != c.other_secret {
        ensure!(!Packet::is_authentic_response(&wire, &req, &c.other_secret), "the response is authentic under another secret");
    }
    let other = mk()?;
    if other[4..20] != req[4..20] {
        obs.label("checked against a second request");
        ensure!(!Packet::is_authentic_response(&wire, &other, &c.secret), "the response is authentic for another request");
    }
    let mut bad = wire.clone();
    let i = gen::at(c.pos, bad.len());
    bad[i] ^= c.xor;
    ensure!(!Packet::is_authentic_response(&bad, &req, &c.secret), "the response altered at octet {i} is authentic");
    let got = Packet::decode(&wire, &c.secret).map_err(|e| format!("response does not decode: {e}"))?;
    ensure!(by_type(&got) == model_by_type(&plain(&c.resp_attrs)), "response attributes differ from those added");
    Ok(())
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Add(u8, B),
    Extend(Vec<(u8, B)>),
    /// so many of these, as far as there is room
    Bulk(u16, Vec<(u8, B)>),
    Delete(u8),
    SetId(u8),
    /// continue with a clone, and change the abandoned original
    Clone,
    /// set a copy aside, and continue with this one
    Keep,
    /// continue with one of those set aside, and set this one aside
    Swap(u8),
    /// replace the packet by decode(encode(packet))
    Wire,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub code: u8,
    pub id: Option<u8>,
    pub secret: B,
    pub ops: Vec<Op>,
}

fn small_type() -> BoxedStrategy<u8> {
    // few types, so that histories revisit them
    prop_oneof![5 => prop::sample::select(vec![0u8, 1, 2, 26, 79, 255]), 1 => gen::octet()].boxed()
}

fn history() -> BoxedStrategy<History> {
    let op = prop_oneof![
        5 => (small_type(), gen::bytes(0..=10)).prop_map(|(t, v)| Op::Add(t, v)),
        2 => vec((small_type(), prop_oneof![gen::bytes(0..=10), gen::special(0..=6)]), 0..=4).prop_map(Op::Extend),
        1 => (prop_oneof![2 => 2u16..=40, 1 => 200u16..=600], vec((small_type(), gen::bytes(0..=3)), 1..=3)).prop_map(|(n, l)| Op::Bulk(n, l)),
        3 => small_type().prop_map(Op::Delete),
        1 => gen::octet().prop_map(Op::SetId),
        1 => Just(Op::Clone),
        1 => Just(Op::Keep),
        1 => gen::octet().prop_map(Op::Swap),
        1 => Just(Op::Wire),
    ];
    (prop_oneof![code_of(&rf::REQ_PLAIN), code_of(&rf::ENCODABLE)], any::<Option<u8>>(), gen::secret(), prop_oneof![12 => vec(op.clone(), 1..=40), 1 => vec(op, 60..=150)])
        .prop_map(|(code, id, secret, ops)| History { code, id, secret, ops })
        .boxed()
}

fn agree(p: &Packet, m: &[(u8, Vec<u8>)], id: u8, auth: &[u8], c: &History) -> Result<(), String> {
    ensure!(p.get_code() == lib_code(c.code), "code changed to {:?}", p.get_code());
    ensure!(p.get_identifier() == id, "identifier is {}, expected {id}", p.get_identifier());
    ensure!(p.get_secret()[..] == c.secret[..], "secret changed");
    ensure!(p.get_authenticator()[..] == *auth, "authenticator changed");
    let want = model_by_type(m);
    for t in 0..=255u8 {
        let got: Vec<Vec<u8>> = p.lookup_all(t).iter().map(|a| a.encode_bytes()).collect();
        ensure!(got == want[t as usize], "lookup_all({t}) = {got:?}, expected {:?}", want[t as usize]);
        let one = p.lookup(t).map(|a| a.encode_bytes());
        ensure!(one.as_ref() == want[t as usize].first(), "lookup({t}) = {one:?}, expected {:?}", want[t as usize].first());
    }
    let b = p.encode().map_err(|e| format!("does not encode: {e}"))?;
    ensure!(b[20..] == rf::attr_bytes(m)[..], "encoded attributes are not the surviving ones in insertion order");
    ensure!(b[0] == c.code && b[1] == id, "encoded header is wrong");
    Ok(())
}

pub fn c12(cx: &Cx) {
    cx.rule("history: 1-150 operations over few attribute types, some adding hundreds of attributes; non-trivial when a delete follows an add of the same type; oracle: vector model compared after every operation, including the encoding");
    cx.drive("history", cx.n(12_000, 300_000), history, check_history);
    cx.rule("beyond: 2-8 operations on lists that do not fit a datagram (as while they are being built), some adding up to 66,000 attributes at once; non-trivial when the list is larger than a datagram; oracle: the same model, and what is left once enough is deleted encodes");
    cx.drive("beyond", cx.n(400, 8_000), beyond, check_beyond);
}

fn beyond() -> BoxedStrategy<History> {
    let size = prop_oneof![4 => 2u16..=600, 2 => 600u16..=5000, 1 => 65_530u16..=65_535];
    let op = prop_oneof![
        3 => (size, vec((small_type(), prop_oneof![gen::bytes(0..=3), gen::bytes(0..=253)]), 1..=3)).prop_map(|(n, l)| Op::Bulk(n, l)),
        1 => (small_type(), gen::bytes(0..=300)).prop_map(|(t, v)| Op::Add(t, v)),
        1 => vec((small_type(), gen::bytes(0..=260)), 0..=20).prop_map(Op::Extend),
        2 => small_type().prop_map(Op::Delete),
        1 => gen::octet().prop_map(Op::SetId),
        1 => Just(Op::Clone),
    ];
    (code_of(&rf::ENCODABLE), any::<Option<u8>>(), gen::secret(), vec(op, 2..=8)).prop_map(|(code, id, secret, ops)| History { code, id, secret, ops }).boxed()
}

fn check_beyond(c: &History, obs: &mut Obs) -> Result<(), String> {
    let mut p = match c.id {
        Some(i) => Packet::new_with_identifier(lib_code(c.code), &c.secret, i),
        None => Packet::new(lib_code(c.code), &c.secret),
    };
    let mut id = p.get_identifier();
    let auth = p.get_authenticator().clone();
    let mut m: Vec<(u8, Vec<u8>)> = vec![];
    let same = |p: &Packet, m: &[(u8, Vec<u8>)], id: u8| -> Result<(), String> {
        ensure!(p.get_identifier() == id, "identifier is {}, expected {id}", p.get_identifier());
        ensure!(p.get_secret()[..] == c.secret[..] && *p.get_authenticator() == auth && p.get_code() == lib_code(c.code), "code, secret or authenticator changed");
        let want = model_by_type(m);
        for t in 0..=255u8 {
            let got = p.lookup_all(t);
            let w = &want[t as usize];
            ensure!(got.len() == w.len(), "lookup_all({t}) returns {} attributes, expected {}, of {} in all", got.len(), w.len(), m.len());
            for (k, (a, b)) in got.iter().zip(w).enumerate() {
                ensure!(a.encode_bytes() == *b, "lookup_all({t}) returns {} as number {k}, expected {}, of {} in all", crate::engine::hex(&a.encode_bytes()), crate::engine::hex(b), m.len());
            }
            ensure!(p.lookup(t).map(|a| a.encode_bytes()).as_ref() == w.first(), "lookup({t}) is not the first of {}", w.len());
        }
        let fits = m.iter().all(|(_, v)| v.len() <= 253) && 20 + m.iter().map(|(_, v)| 2 + v.len()).sum::<usize>() <= 4096;
        match p.encode() {
            Ok(b) => ensure!(fits && b[20..] == rf::attr_bytes(m)[..], "encoded to {} octets with {} attributes", b.len(), m.len()),
            Err(e) => ensure!(!fits, "does not encode: {e}"),
        }
        Ok(())
    };
    let mut types = std::collections::BTreeSet::new();
    for op in &c.ops {
        match op {
            Op::Bulk(n, l) => {
                for i in 0..*n as usize {
                    let (t, v) = &l[i % l.len()];
                    // (long values would only take time)
                    let v = if *n > 5000 { &v[..v.len().min(3)] } else { &v[..] };
                    p.add(AVP::from_bytes(*t, v));
                    m.push((*t, v.to_vec()));
                }
            }
            Op::Add(t, v) => {
                p.add(AVP::from_bytes(*t, v));
                m.push((*t, v.0.clone()));
            }
            Op::Extend(l) => {
                p.extend(l.iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
                m.extend(plain(l));
            }
            Op::Delete(t) => {
                p.delete(*t);
                m.retain(|(x, _)| x != t);
            }
            Op::SetId(i) => {
                p.set_identifier(*i);
                id = *i;
            }
            Op::Clone => {
                let q = p.clone();
                p.delete(1);
                p.add(AVP::from_bytes(2, b"junk"));
                p = q;
            }
            Op::Wire | Op::Keep | Op::Swap(_) => {}
        }
        if 20 + m.iter().map(|(_, v)| 2 + v.len()).sum::<usize>() > 4096 {
            obs.nontrivial();
        }
        if m.len() > 65_536 {
            obs.label("more than 65,536 attributes");
        }
        types.extend(m.iter().map(|x| x.0));
        same(&p, &m, id)?;
    }
    for t in types {
        p.delete(t);
        m.retain(|(x, _)| *x != t);
        if m.len() < 5000 {
            same(&p, &m, id)?;
        }
    }
    same(&p, &m, id)
}

pub fn check_history(c: &History, obs: &mut Obs) -> Result<(), String> {
    let mut p = match c.id {
        Some(i) => Packet::new_with_identifier(lib_code(c.code), &c.secret, i),
        None => Packet::new(lib_code(c.code), &c.secret),
    };
    if let Some(i) = c.id {
        ensure!(p.get_identifier() == i, "identifier {} instead of {i}", p.get_identifier());
    }
    let mut id = p.get_identifier();
    let mut auth = p.get_authenticator().clone();
    let mut m: Vec<(u8, Vec<u8>)> = vec![];
    let mut kept = vec![];
    for op in &c.ops {
        // (what does not fit any more is left out)
        let mut room = (4096 - 20usize).saturating_sub(m.iter().map(|(_, v)| 2 + v.len()).sum());
        match op {
            Op::Add(_, v) if room < 2 + v.len() => {}
            Op::Extend(l) if room < l.iter().map(|(_, v)| 2 + v.len()).sum() => {}
            Op::Bulk(n, l) => {
                for i in 0..*n as usize {
                    let (t, v) = &l[i % l.len()];
                    if room < 2 + v.len() {
                        break;
                    }
                    room -= 2 + v.len();
                    p.add(AVP::from_bytes(*t, v));
                    m.push((*t, v.0.clone()));
                }
            }
            Op::Add(t, v) => {
                p.add(AVP::from_bytes(*t, v));
                m.push((*t, v.0.clone()));
            }
            Op::Extend(l) => {
                p.extend(l.iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
                m.extend(plain(l));
            }
            Op::Delete(t) => {
                p.delete(*t);
                let n = m.len();
                m.retain(|(x, _)| x != t);
                if m.len() < n {
                    obs.nontrivial();
                    obs.label(if m.len() + 1 < n { "deleted several" } else { "deleted one" });
                }
            }
            Op::SetId(i) => {
                p.set_identifier(*i);
                id = *i;
            }
            Op::Clone => {
                let q = p.clone();
                ensure!(q == p, "a clone differs");
                p.add(AVP::from_bytes(1, b"junk"));
                p.delete(2);
                p.set_identifier(id.wrapping_add(1));
                p = q;
            }
            Op::Keep => kept.push((p.clone(), m.clone(), id, auth.clone())),
            Op::Swap(i) if !kept.is_empty() => {
                let k = *i as usize % kept.len();
                let (q, n, i, a) = std::mem::replace(&mut kept[k], (p, m, id, auth));
                (p, m, id, auth) = (q, n, i, a);
                obs.label("copies changed in turns");
            }
            Op::Swap(_) => {}
            Op::Wire => {
                let b = p.encode().map_err(|e| format!("does not encode: {e}"))?;
                p = Packet::decode(&b, &c.secret).map_err(|e| format!("does not decode: {e}"))?;
                auth = b[4..20].to_vec();
            }
        }
        agree(&p, &m, id, &auth, c)?;
    }
    for (p, m, id, auth) in &kept {
        agree(p, m, *id, auth, c).map_err(|e| format!("a copy set aside: {e}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

const NAMES: [(u8, &str); 16] = [
    (1, "Access-Request"),
    (2, "Access-Accept"),
    (3, "Access-Reject"),
    (4, "Accounting-Request"),
    (5, "Accounting-Response"),
    (11, "Access-Challenge"),
    (12, "Status-Server"),
    (13, "Status-Client"),
    (40, "Disconnect-Request"),
    (41, "Disconnect-ACK"),
    (42, "Disconnect-NAK"),
    (43, "CoA-Request"),
    (44, "CoA-ACK"),
    (45, "CoA-NAK"),
    (255, "Reserved"),
    (0, "Invalid"),
];

pub fn c29(cx: &Cx) {
    cx.rule("octet: every one of the 256 octets in every run (exhaustive), plus generated packets around it; non-trivial: all; oracle: RFC table of codes and names");
    cx.drive(
        "octet",
        256 * cx.n(8, 80),
        || (gen::octet(), gen::auth(), gen::attrs(0..=2)),
        |(o, a, l): &(u8, B, Vec<(u8, B)>), obs| {
            obs.nontrivial();
            for o in [*o].into_iter().chain(0..=255u8) {
                check_octet(o, a, l)?;
            }
            Ok(())
        },
    );
}

fn check_octet(o: u8, a: &B, l: &[(u8, B)]) -> Result<(), String> {
    let c = Code::from(o);
    let known = NAMES.iter().find(|(n, _)| *n == o);
    match known {
        Some((n, name)) => {
            ensure!(c == lib_code(o), "octet {o} is read as {c:?}");
            ensure!(c as u8 == *n, "octet {o} converts back to {}", c as u8);
            ensure!(c.string() == *name, "octet {o} is named {}", c.string());
        }
        None => {
            ensure!(c == Code::Invalid, "octet {o} is read as {c:?}");
            ensure!(c as u8 == 0, "the invalid code converts to {}", c as u8);
        }
    }
    let wire = rf::build(o, 9, a, &attrs_wire(l));
    let p = Packet::decode(&wire, b"secret").map_err(|e| format!("octet {o}: does not decode: {e}"))?;
    ensure!(p.get_code() == c, "octet {o} is decoded as {:?}", p.get_code());
    let e = p.encode();
    if rf::ENCODABLE.contains(&o) {
        let b = e.map_err(|e| format!("octet {o} does not encode: {e}"))?;
        ensure!(b[0] == o, "octet {o} is encoded as {}", b[0]);
    } else {
        ensure!(e.is_err(), "octet {o} was encoded");
    }
    Ok(())
}

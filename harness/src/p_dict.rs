//! C13-C16: the accessors of the RFC modules against a model driven by the dictionaries.

use crate::engine::{hex, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, address6, bytes, lib_code, special, utf8};
use crate::p_values::{read_tagged_int, read_tagged_string, tunnel_plain};
use crate::refimpl as rf;
use crate::table::{Api, Attr, Table, Val};
use chrono::{TimeZone, Utc};
use proptest::collection::vec;
use proptest::prelude::*;
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use radius::core::vsa::{StringVSA, TaggedStringVSA};
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, Ipv6Addr};

/// A value of any accessor type.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum V {
    Text(String),
    TagText(Option<u8>, String),
    Octets(B),
    TagOctets(u8, B),
    Num(u64),
    TagNum(u8, u32),
}

/// Raw material from which a value of each type is made, so that a case does not depend on the table.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seed {
    pub tag: Option<u8>,
    pub text: String,
    pub octets: B,
    pub n: u32,
    /// make the value one that its type refuses, where there is one
    pub bad: bool,
}

pub fn seed() -> BoxedStrategy<Seed> {
    (
        prop::option::of(prop_oneof![3 => 1u8..=31, 1 => gen::octet()]),
        prop_oneof![6 => utf8(24), 1 => utf8(252)],
        prop_oneof![4 => bytes(0..=24), 2 => special(0..=24), 2 => address6(), 1 => bytes(0..=253), 1 => special(0..=253)],
        crate::p_values::edge32(),
        prop::bool::weighted(0.15),
    )
        .prop_map(|(tag, text, octets, n, bad)| Seed { tag, text, octets, n, bad })
        .boxed()
}

fn sized(o: &B, n: usize) -> Vec<u8> {
    (0..n).map(|i| if o.is_empty() { 7 } else { o[i % o.len()] }).collect()
}

fn tag_of(t: &Option<Tag>) -> Option<u8> {
    t.as_ref().map(|t| t.get_value())
}

impl Attr {
    pub fn id(&self) -> String {
        format!("{}::{}", self.module, self.name)
    }

    /// Adds a value made from the seed. Returns the contents that must have been appended (None: hidden, judged by
    /// `tunnel_plain` against this password), or Err when the add was refused.
    pub fn add(&self, p: &mut Packet, s: &Seed) -> Result<Added, String> {
        let tag = s.tag.map(Tag::new);
        let lead = |b: &[u8]| s.tag.iter().copied().chain(b.iter().copied()).collect::<Vec<u8>>();
        let ok = |r: Result<(), radius::core::avp::AVPError>, want: bool, c: Vec<Vec<u8>>| -> Result<Added, String> {
            ensure!(r.is_ok() == want, "{}: add gives {r:?} where {} was due", self.id(), if want { "success" } else { "an error" });
            Ok(if want { Added::Contents(c) } else { Added::Refused })
        };
        match self.api {
            Api::Str { add, .. } => {
                add(p, &s.text);
                Ok(Added::Contents(vec![s.text.clone().into_bytes()]))
            }
            Api::TagStr { add, .. } => {
                add(p, tag.as_ref(), &s.text);
                Ok(Added::Contents(vec![lead(s.text.as_bytes())]))
            }
            Api::UserPw { add, .. } => {
                let pw = if s.bad { sized(&s.octets, 129 + s.n as usize % 100) } else { sized(&s.octets, s.octets.len().min(128)) };
                let h = if s.bad { vec![] } else { rf::hide_chain(&rf::pad16(&pw), p.get_secret(), p.get_authenticator()) };
                let fits = !s.bad && !p.get_secret().is_empty();
                ok(add(p, &pw), fits, vec![h])
            }
            Api::TunPw { add, .. } => {
                let pw = if s.bad { sized(&s.octets, 241 + s.n as usize % 60) } else { sized(&s.octets, s.octets.len().min(240)) };
                let r = add(p, tag.as_ref(), &pw);
                let fits = !s.bad && !p.get_secret().is_empty();
                match ok(r, fits, vec![])? {
                    Added::Refused => Ok(Added::Refused),
                    _ => {
                        let v = p.lookup_all(self.num).last().map(|a| a.encode_bytes()).unwrap_or_default();
                        ensure!(v.first() == Some(&s.tag.unwrap_or(0)), "{}: tag octet of {}", self.id(), hex(&v));
                        // (what is odd about the plaintext's form is C07's to report)
                        tunnel_plain(&pw, &v, p.get_secret(), p.get_authenticator(), &mut Obs::default())?;
                        Ok(Added::Contents(vec![v]))
                    }
                }
            }
            Api::Octets { add, .. } => {
                add(p, &s.octets);
                Ok(Added::Contents(vec![s.octets.0.clone()]))
            }
            Api::Fixed { n, add, .. } => {
                let len = if s.bad { s.octets.len() } else { n };
                let v = sized(&s.octets, len);
                ok(add(p, &v), len == n, vec![v])
            }
            Api::Concat { add, .. } => {
                let v = if s.bad { sized(&s.octets, s.n as usize % 900) } else { s.octets.0.clone() };
                add(p, &v);
                Ok(Added::Contents(v.chunks(253).map(|c| c.to_vec()).collect()))
            }
            Api::Ip4 { add, .. } => {
                add(p, &Ipv4Addr::from(s.n));
                Ok(Added::Contents(vec![s.n.to_be_bytes().to_vec()]))
            }
            Api::Ip6 { add, .. } => {
                let v = sized(&s.octets, 16);
                let mut x = [0; 16];
                x.copy_from_slice(&v);
                add(p, &Ipv6Addr::from(x));
                Ok(Added::Contents(vec![v]))
            }
            Api::Pfx4 { add, .. } => {
                let v = if s.bad { s.octets.0.clone() } else { sized(&s.octets, 4) };
                let w = [&[0, 32][..], &v].concat();
                ok(add(p, &v), v.len() == 4, vec![w])
            }
            Api::Pfx6 { add, .. } => {
                let v = if s.bad { s.octets.0.clone() } else { sized(&s.octets, s.octets.len() % 17) };
                let w = [&[0, (v.len() * 8) as u8][..], &v].concat();
                ok(add(p, &v), v.len() <= 16, vec![w])
            }
            Api::Date { add, .. } => {
                let d = Utc.timestamp_opt(s.n as i64, 0).single().ok_or("date")?;
                add(p, &d);
                Ok(Added::Contents(vec![s.n.to_be_bytes().to_vec()]))
            }
            Api::Int { add, .. } => {
                add(p, s.n);
                Ok(Added::Contents(vec![s.n.to_be_bytes().to_vec()]))
            }
            Api::TagInt { add, .. } => {
                add(p, tag.as_ref(), s.n);
                let b = s.n.to_be_bytes();
                Ok(Added::Contents(vec![vec![s.tag.unwrap_or(0), b[0], b[1], b[2], b[3]]]))
            }
            Api::Short { add, .. } => {
                add(p, s.n as u16);
                Ok(Added::Contents(vec![(s.n as u16).to_be_bytes().to_vec()]))
            }
            Api::Vsa { add } => {
                let mut text = s.text.clone();
                while text.len() > 246 {
                    text.pop();
                }
                let id = s.n as i32;
                let typ = s.octets.first().copied().unwrap_or(1);
                match s.tag {
                    Some(t) => add(p, &TaggedStringVSA::new(id, typ, t, &text)),
                    None => add(p, &StringVSA::new(id, typ, &text)),
                }
                let body = lead(text.as_bytes());
                Ok(Added::Contents(vec![[&s.n.to_be_bytes()[..], &[typ, 2 + body.len() as u8], &body].concat()]))
            }
        }
    }

    /// What reading these contents as this attribute's type must give: a value, an error, or (None) either.
    pub fn expect(&self, c: &[u8], secret: &[u8], auth: &[u8]) -> Option<Result<V, ()>> {
        let be = || c.iter().fold(0u64, |x, y| x << 8 | *y as u64);
        let num = |n: usize| if c.len() == n { Ok(V::Num(be())) } else { Err(()) };
        let oct = |v: &[u8]| V::Octets(B(v.to_vec()));
        Some(match self.api {
            Api::Str { .. } => std::str::from_utf8(c).map(|s| V::Text(s.to_owned())).map_err(|_| ()),
            Api::TagStr { .. } => read_tagged_string(c).map(|(s, t)| V::TagText(t, s)).ok_or(()),
            Api::UserPw { .. } => {
                if !(16..=128).contains(&c.len()) || secret.is_empty() {
                    Err(())
                } else if c.len() % 16 != 0 {
                    return None;
                } else {
                    Ok(oct(rf::trim_nuls(&rf::reveal_chain(c, secret, auth))))
                }
            }
            Api::TunPw { .. } => {
                if !(19..=243).contains(&c.len()) || (c.len() - 3) % 16 != 0 || c[1] & 0x80 == 0 || secret.is_empty() {
                    Err(())
                } else {
                    let p = rf::reveal_chain(&c[3..], secret, &[auth, &c[1..3]].concat());
                    Ok(V::TagOctets(c[0], B(rf::trim_nuls(&p).to_vec())))
                }
            }
            Api::Octets { .. } | Api::Fixed { .. } | Api::Concat { .. } | Api::Vsa { .. } => Ok(oct(c)),
            Api::Ip4 { .. } | Api::Date { .. } | Api::Int { .. } => num(4),
            Api::Short { .. } => num(2),
            Api::Ip6 { .. } => if c.len() == 16 { Ok(oct(c)) } else { Err(()) },
            Api::Pfx4 { .. } => if c.len() == 6 { Ok(oct(&c[2..])) } else { Err(()) },
            Api::Pfx6 { .. } => match c.len() {
                0 | 1 => Err(()),
                2..=18 => Ok(oct(&c[2..])),
                _ => return None,
            },
            Api::TagInt { .. } => read_tagged_int(c).map(|(n, t)| V::TagNum(t, n)).ok_or(()),
        })
    }

    /// The first value as read by the accessor (None: no such accessor).
    pub fn get(&self, p: &Packet) -> Option<Option<Result<V, ()>>> {
        fn m<T>(r: Option<Result<T, radius::core::avp::AVPError>>, f: impl Fn(T) -> V) -> Option<Option<Result<V, ()>>> {
            Some(r.map(|r| r.map(f).map_err(|_| ())))
        }
        let o = |v: Vec<u8>| V::Octets(B(v));
        match self.api {
            Api::Str { get, .. } => m(get(p), V::Text),
            Api::TagStr { get, .. } => m(get(p), |(s, t)| V::TagText(tag_of(&t), s)),
            Api::UserPw { get, .. } | Api::Pfx4 { get, .. } | Api::Pfx6 { get, .. } => m(get(p), o),
            Api::TunPw { get, .. } => m(get(p), |(v, t)| V::TagOctets(t.get_value(), B(v))),
            Api::Octets { get, .. } | Api::Fixed { get, .. } | Api::Concat { get, .. } => Some(get(p).map(|v| Ok(o(v)))),
            Api::Ip4 { get, .. } => m(get(p), |a| V::Num(u32::from(a) as u64)),
            Api::Ip6 { get, .. } => m(get(p), |a| o(a.octets().to_vec())),
            Api::Date { get, .. } => m(get(p), |d| V::Num(d.timestamp() as u64)),
            Api::Int { get, .. } => m(get(p), |n| V::Num(n as u64)),
            Api::TagInt { get, .. } => m(get(p), |(n, t)| V::TagNum(t.get_value(), n)),
            Api::Short { get, .. } => m(get(p), |n| V::Num(n as u64)),
            Api::Vsa { .. } => None,
        }
    }

    /// All values as read by the accessor (None: no such accessor).
    pub fn all(&self, p: &Packet) -> Option<Result<Vec<V>, ()>> {
        fn m<T>(r: Result<Vec<T>, radius::core::avp::AVPError>, f: impl Fn(T) -> V) -> Option<Result<Vec<V>, ()>> {
            Some(r.map(|l| l.into_iter().map(f).collect()).map_err(|_| ()))
        }
        let o = |v: Vec<u8>| V::Octets(B(v));
        match self.api {
            Api::Str { all, .. } => m(all(p), V::Text),
            Api::TagStr { all, .. } => m(all(p), |(s, t)| V::TagText(tag_of(&t), s)),
            Api::UserPw { all, .. } | Api::Pfx4 { all, .. } | Api::Pfx6 { all, .. } => m(all(p), o),
            Api::TunPw { all, .. } => m(all(p), |(v, t)| V::TagOctets(t.get_value(), B(v))),
            Api::Octets { all, .. } | Api::Fixed { all, .. } => Some(Ok(all(p).into_iter().map(o).collect())),
            Api::Ip4 { all, .. } => m(all(p), |a| V::Num(u32::from(a) as u64)),
            Api::Ip6 { all, .. } => m(all(p), |a| o(a.octets().to_vec())),
            Api::Date { all, .. } => m(all(p), |d| V::Num(d.timestamp() as u64)),
            Api::Int { all, .. } => m(all(p), |n| V::Num(n as u64)),
            Api::TagInt { all, .. } => m(all(p), |(n, t)| V::TagNum(t.get_value(), n)),
            Api::Short { all, .. } => m(all(p), |n| V::Num(n as u64)),
            Api::Concat { .. } | Api::Vsa { .. } => None,
        }
    }

    /// Compares both lookups with the model's attribute list.
    pub fn agree(&self, p: &Packet, model: &[(u8, Vec<u8>)]) -> Result<(), String> {
        let secret = p.get_secret();
        let auth = p.get_authenticator();
        let mine: Vec<&[u8]> = model.iter().filter(|(t, _)| *t == self.num).map(|(_, v)| &v[..]).collect();
        let got = self.get(p);
        if let Api::Concat { .. } = self.api {
            let want = (!mine.is_empty()).then(|| Ok(V::Octets(B(mine.concat()))));
            ensure!(got == Some(want.clone()), "{}: lookup gives {got:?}, expected {want:?}", self.id());
            return Ok(());
        }
        let exp: Vec<Option<Result<V, ()>>> = mine.iter().map(|c| self.expect(c, secret, auth)).collect();
        if let Some(got) = got {
            match exp.first() {
                None => ensure!(got.is_none(), "{}: lookup gives {got:?} although there is none", self.id()),
                Some(None) => ensure!(got.is_some(), "{}: lookup finds nothing", self.id()),
                Some(Some(w)) => ensure!(got.as_ref() == Some(w), "{}: lookup gives {got:?}, expected {w:?} for contents {}", self.id(), hex(mine[0])),
            }
        }
        if let Some(all) = self.all(p) {
            if exp.iter().any(|e| matches!(e, Some(Err(())))) {
                ensure!(all.is_err(), "{}: lookup_all gives {all:?} although a value does not fit the type", self.id());
            } else if exp.iter().all(|e| e.is_some()) {
                let want: Vec<V> = exp.into_iter().filter_map(|e| e.and_then(|r| r.ok())).collect();
                ensure!(all.as_ref() == Ok(&want), "{}: lookup_all gives {all:?}, expected {want:?}", self.id());
            } else if let Ok(l) = &all {
                ensure!(l.len() == mine.len(), "{}: lookup_all gives {} values for {}", self.id(), l.len(), mine.len());
            }
        }
        Ok(())
    }
}

pub enum Added {
    Refused,
    Contents(Vec<Vec<u8>>),
}

pub fn contents(p: &Packet) -> Vec<Vec<Vec<u8>>> {
    (0..=255u8).map(|t| p.lookup_all(t).iter().map(|a| a.encode_bytes()).collect()).collect()
}

pub fn model_contents(m: &[(u8, Vec<u8>)]) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![vec![]; 256];
    for (t, v) in m {
        out[*t as usize].push(v.clone());
    }
    out
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// index into the table, scaled
    Add(u16, Seed),
    /// another value of an attribute used before
    Again(u8, Seed),
    /// an earlier add once more
    Twice(u8),
    Raw(u16, B),
    Delete(u16),
    DeleteUsed(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub code: u8,
    pub secret: B,
    pub ops: Vec<Op>,
}

pub fn script(max: usize) -> BoxedStrategy<Script> {
    let op = prop_oneof![
        6 => (any::<u16>(), seed()).prop_map(|(i, s)| Op::Add(i, s)),
        4 => (gen::octet(), seed()).prop_map(|(i, s)| Op::Again(i, s)),
        2 => gen::octet().prop_map(Op::Twice),
        1 => (any::<u16>(), bytes(0..=20)).prop_map(|(i, b)| Op::Raw(i, b)),
        1 => any::<u16>().prop_map(Op::Delete),
        1 => gen::octet().prop_map(Op::DeleteUsed),
    ];
    (prop_oneof![2 => gen::code_of(&rf::REQ_PLAIN), 1 => gen::code_of(&rf::ENCODABLE)], gen::secret(), vec(op, 1..=max))
        .prop_map(|(code, secret, ops)| Script { code, secret, ops })
        .boxed()
}

/// Runs a script against the accessors of the table, comparing with the model all along.
pub fn run_script(t: &Table, c: &Script, obs: &mut Obs) -> Result<(), String> {
    let mut p = Packet::new(lib_code(c.code), &c.secret);
    let mut m: Vec<(u8, Vec<u8>)> = vec![];
    let mut used: Vec<usize> = vec![];
    let mut seeds: Vec<Seed> = vec![];
    let n = t.attrs.len();
    for op in &c.ops {
        let (i, s) = match op {
            Op::Add(i, s) => (gen::at(*i, n), Some(s)),
            Op::Again(i, s) => (if used.is_empty() { 0 } else { used[*i as usize % used.len()] }, Some(s)),
            Op::Twice(i) if used.is_empty() => (gen::at(*i as u16, n), None),
            Op::Twice(i) => {
                let i = *i as usize % used.len();
                (used[i], Some(&seeds[i]))
            }
            Op::Raw(i, _) | Op::Delete(i) => (gen::at(*i, n), None),
            Op::DeleteUsed(i) => (if used.is_empty() { 0 } else { used[*i as usize % used.len()] }, None),
        };
        let a = &t.attrs[i];
        match (op, s) {
            (Op::Raw(_, b), _) => {
                p.add(AVP::from_bytes(a.num, b));
                m.push((a.num, b.0.clone()));
            }
            (_, None) => {
                (a.delete)(&mut p);
                m.retain(|(x, _)| *x != a.num);
            }
            (_, Some(s)) => {
                let s: Seed = s.clone();
                match a.add(&mut p, &s)? {
                    Added::Refused => obs.label("refused add"),
                    Added::Contents(l) => {
                        m.extend(l.into_iter().map(|v| (a.num, v)));
                    }
                }
                used.push(i);
                seeds.push(s);
                if used.len() > 1 {
                    obs.nontrivial();
                }
            }
        }
        ensure!(contents(&p) == model_contents(&m), "{}: after {op:?} the packet's attributes are not those expected under number {}", a.id(), a.num);
        for j in used.iter().rev().take(4).chain([&i]) {
            t.attrs[*j].agree(&p, &m)?;
        }
    }
    for a in &t.attrs {
        a.agree(&p, &m)?;
    }
    if m.iter().all(|(_, v)| v.len() <= 253) && rf::attr_bytes(&m).len() + 20 <= 4096 {
        obs.label("sent over the wire");
        let wire = p.encode().map_err(|e| format!("does not encode: {e}"))?;
        ensure!(wire[20..] == rf::attr_bytes(&m)[..], "the wire does not carry the attributes in order");
        let q = Packet::decode(&wire, &c.secret).map_err(|e| format!("does not decode: {e}"))?;
        for a in &t.attrs {
            a.agree(&q, &m).map_err(|e| format!("received: {e}"))?;
        }
    }
    Ok(())
}

/// Each accessor of the table in turn, once per case, with two values around a neighbour.
pub fn run_sweep(t: &Table, s: &[Seed], secret: &B) -> Result<(), String> {
    for (i, a) in t.attrs.iter().enumerate() {
        let mut p = Packet::new(lib_code(1), secret);
        let mut m: Vec<(u8, Vec<u8>)> = vec![];
        let nb = &t.attrs[(i + 1) % t.attrs.len()];
        // (the first value comes twice)
        for (a, s) in [(a, &s[0]), (nb, &s[1]), (a, &s[1]), (a, &s[0])] {
            if let Added::Contents(l) = a.add(&mut p, s)? {
                m.extend(l.into_iter().map(|v| (a.num, v)));
            }
            ensure!(contents(&p) == model_contents(&m), "{}: adding does not append the value under number {}", a.id(), a.num);
        }
        a.agree(&p, &m)?;
        nb.agree(&p, &m)?;
        (a.delete)(&mut p);
        m.retain(|(x, _)| *x != a.num);
        ensure!(contents(&p) == model_contents(&m), "{}: delete does not remove exactly number {}", a.id(), a.num);
        a.agree(&p, &m)?;
    }
    Ok(())
}

pub fn c13(cx: &Cx) {
    let t = crate::table::shipped::table();
    cx.rule("sweep: every accessor of all modules in every case, with generated values (also refused ones) and a neighbouring attribute; history: random scripts over all accessors with raw attributes and deletions; non-trivial when at least two values were added; oracle: attribute-list model and independent type encodings from a frozen copy of the dictionaries, before and after the wire");
    missing(cx, &t, |k| !k.rsplit("::").next().is_some_and(|s| s.chars().all(|c| !c.is_lowercase())));
    cx.drive("sweep", cx.n(400, 8_000), || (vec(seed(), 2..=2), gen::secret()), |(s, secret), obs| {
        obs.nontrivial();
        run_sweep(&t, s, secret)
    });
    cx.drive("history", cx.n(12_000, 250_000), || script(14), |c, obs| run_script(&t, c, obs));
    crate::p_sweep::c13(cx, &t);
}

/// Reports the entries that the dictionaries call for and that do not compile against the code under test.
fn missing(cx: &Cx, t: &Table, mine: impl Fn(&str) -> bool) {
    if !cx.wants("missing") {
        return;
    }
    if cx.replay.is_some() {
        cx.mark_replayed();
    }
    let l: Vec<&str> = t.missing.iter().copied().filter(|k| mine(k)).collect();
    if !l.is_empty() {
        cx.violate("missing", format!("not offered with the name and type the dictionary calls for: {}", l.join(", ")), serde_json::json!(l));
    }
}

// ---------------------------------------------------------------- C14

pub fn check_val(t: &Table, v: &Val, obs: &mut Obs) -> Result<(), String> {
    ensure!(v.konst == v.num, "{}: value {} of {} is {}, the dictionary says {}", v.module, v.name, v.attr, v.konst, v.num);
    // the attribute may be defined by an earlier dictionary
    if let Some(a) = t.attrs.iter().find(|a| a.name == v.attr) {
        let mut p = Packet::new(lib_code(1), b"secret");
        let mut q = Packet::new(lib_code(1), b"secret");
        let b = v.num.to_be_bytes();
        let (wire, back) = match a.api {
            Api::Int { add, get, .. } => {
                add(&mut p, v.konst);
                q.add(AVP::from_bytes(a.num, &b));
                (b.to_vec(), get(&q).and_then(|r| r.ok()))
            }
            Api::TagInt { add, get, .. } => {
                add(&mut p, None, v.konst);
                let w = [&[0][..], &b].concat();
                q.add(AVP::from_bytes(a.num, &w));
                (w, get(&q).and_then(|r| r.ok()).map(|x| x.0))
            }
            _ => return Ok(()),
        };
        obs.nontrivial();
        let got = p.lookup(a.num).map(|x| x.encode_bytes());
        ensure!(got == Some(wire.clone()), "{}: adding {} of {} puts {got:?} on the wire, expected {wire:?}", v.module, v.name, v.attr);
        ensure!(back == Some(v.konst), "{}: {} of {} received from the wire reads as {back:?}", v.module, v.name, v.attr);
    }
    Ok(())
}

pub fn c14(cx: &Cx) {
    let t = crate::table::shipped::table();
    cx.rule("numbers: every attribute number and named value of all modules (exhaustive in every run) compared with a frozen copy of the dictionaries, each value also through the wire; non-trivial when the value goes through the wire; files: the shipped dictionary files against the frozen copy");
    missing(cx, &t, |k| k.rsplit("::").next().is_some_and(|s| s.chars().all(|c| !c.is_lowercase())));
    cx.drive("numbers", cx.n(40, 40), any::<u16>, |_: &u16, obs| {
        for a in &t.attrs {
            ensure!(a.konst == a.num, "{}: the number is {}, the dictionary says {}", a.id(), a.konst, a.num);
        }
        for v in &t.values {
            check_val(&t, v, obs)?;
        }
        Ok(())
    });
    // each entry on its own, so that the counts show what was covered
    for (i, v) in t.values.iter().enumerate() {
        if cx.replay.is_none() {
            let mut obs = Obs::default();
            if let Err(e) = check_val(&t, v, &mut obs).and_then(|_| cx.record(&(v.module, v.attr, v.name, v.num), obs)) {
                cx.violate("numbers", e, serde_json::json!(i as u16));
                break;
            }
        }
    }
    if cx.replay.is_none() {
        for a in &t.attrs {
            let mut obs = Obs::default();
            obs.label("attribute number");
            let _ = cx.record(&(a.module, a.name, a.num), obs);
        }
    }
    if cx.wants("files") {
        if cx.replay.is_some() {
            cx.mark_replayed();
        }
        let frozen = crate::dict::read_dir(&std::path::Path::new(&crate::verif_dir()).join("harness/dicts"));
        let live = crate::dict::read_dir(&std::path::Path::new(&cx.repo).join("dicts"));
        let frozen = frozen.unwrap_or_else(|e| crate::engine::harness_error(&e));
        match live {
            Err(e) => cx.violate("files", format!("the shipped dictionaries do not parse: {e}"), serde_json::json!("")),
            Ok(live) => {
                for f in &frozen {
                    let Some(l) = live.iter().find(|l| l.module == f.module) else {
                        cx.violate("files", format!("dictionary {} is gone", f.module), serde_json::json!(f.module));
                        continue;
                    };
                    for a in &f.attrs {
                        if !l.attrs.contains(a) {
                            cx.violate("files", format!("dictionary {}: {a:?} became {:?}", f.module, l.attrs.iter().find(|x| x.name == a.name)), serde_json::json!(f.module));
                        }
                    }
                    for v in &f.values {
                        if !l.values.contains(v) {
                            cx.violate("files", format!("dictionary {}: {v:?} became {:?}", f.module, l.values.iter().find(|x| x.attr == v.attr && x.name == v.name)), serde_json::json!(f.module));
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub which: u8,
    pub code: u8,
    pub secret: B,
    /// (length, fill, attributes added afterwards)
    pub adds: Vec<(u32, u8, Vec<(u8, B)>)>,
}

pub fn long() -> BoxedStrategy<Long> {
    let len = prop_oneof![
        60 => 1u32..=600,
        40 => (0u32..=20, -2i32..=2).prop_map(|(k, d)| (k as i32 * 253 + d).max(0) as u32),
        20 => 600u32..=6000,
        6 => 6000u32..=64_000,
        // (a number of octets that needs more than 16 bits)
        2 => 64_000u32..=66_000,
        1 => 66_000u32..=140_000,
    ];
    let noise = prop_oneof![3 => Just(vec![]), 1 => vec((gen::octet(), bytes(0..=6)), 1..=3)];
    (gen::octet(), gen::code_of(&rf::ENCODABLE), gen::secret(), vec((len, gen::octet(), noise), 1..=4))
        .prop_map(|(which, code, secret, adds)| Long { which, code, secret, adds })
        .boxed()
}

pub fn run_long(list: &[&Attr], c: &Long, obs: &mut Obs) -> Result<(), String> {
    let a = list[c.which as usize % list.len()];
    let (add, get) = match a.api {
        Api::Concat { add, get } => (add, get),
        _ => return Ok(()),
    };
    let mut p = Packet::new(lib_code(c.code), &c.secret);
    let mut m: Vec<(u8, Vec<u8>)> = vec![];
    let mut whole: Vec<u8> = vec![];
    ensure!(get(&p).is_none(), "{}: found in an empty packet", a.id());
    for (len, fill, noise) in &c.adds {
        let v: Vec<u8> = (0..*len as usize).map(|i| fill.wrapping_add((i / 251) as u8).wrapping_mul(31).wrapping_add(i as u8)).collect();
        let before = p.lookup_all(a.num).len();
        add(&mut p, &v);
        let parts: Vec<Vec<u8>> = p.lookup_all(a.num)[before..].iter().map(|x| x.encode_bytes()).collect();
        ensure!(parts.concat() == v, "{}: the parts of a value of {len} octets do not add up to it", a.id());
        for (i, x) in parts.iter().enumerate() {
            ensure!(x.len() <= 253, "{}: a part of {} octets", a.id(), x.len());
            ensure!(!x.is_empty(), "{}: an empty part", a.id());
            ensure!(i + 1 == parts.len() || x.len() == 253, "{}: part {i} of {} has only {} octets", a.id(), parts.len(), x.len());
        }
        if *len > 253 {
            obs.nontrivial();
        }
        m.extend(parts.into_iter().map(|x| (a.num, x)));
        whole.extend(&v);
        for (t, b) in noise {
            if *t != a.num {
                p.add(AVP::from_bytes(*t, b));
                m.push((*t, b.0.clone()));
            }
        }
        let want = (!whole.is_empty()).then(|| whole.clone());
        let got = get(&p);
        ensure!(got == want, "{}: looked up {} octets, expected {}", a.id(), got.map_or(0, |g| g.len()), whole.len());
    }
    ensure!(contents(&p) == model_contents(&m), "{}: other attributes changed", a.id());
    let w = rf::attr_bytes(&m);
    if w.len() + 20 <= 4096 {
        obs.label("sent over the wire");
        let wire = p.encode().map_err(|e| format!("does not encode: {e}"))?;
        ensure!(wire[20..] == w[..], "{}: the parts are not consecutive on the wire", a.id());
        let q = Packet::decode(&wire, &c.secret).map_err(|e| format!("does not decode: {e}"))?;
        ensure!(get(&q).unwrap_or_default() == whole, "{}: a different value is received", a.id());
    } else {
        obs.label("too large for the wire");
    }
    Ok(())
}

pub fn c15(cx: &Cx) {
    let t = crate::table::shipped::table();
    let list: Vec<&Attr> = t.attrs.iter().filter(|a| matches!(a.api, Api::Concat { .. })).collect();
    cx.rule("long: 1-4 values of 0-140,000 octets (boundary-weighted around multiples of 253) with other attributes in between; non-trivial when a value needs more than one attribute; oracle: parts and whole of the octets added, before and after the wire");
    missing(cx, &t, |k| ["rfc2869::eap_message", "rfc5904::pkm_ss_cert", "rfc5904::pkm_ca_cert"].contains(&k));
    if list.is_empty() {
        return;
    }
    cx.drive("long", cx.n(30_000, 500_000), long, |c, obs| run_long(&list, c, obs));
    cx.rule("lengths: every length 1..=1300 for every concatenating attribute in every run");
    cx.drive("lengths", cx.n(16, 64), any::<u8>, |x: &u8, obs| {
        obs.nontrivial();
        for (which, _) in list.iter().enumerate() {
            for len in 1..=1300u32 {
                let c = Long { which: which as u8, code: 1, secret: B(vec![1]), adds: vec![(len, *x, vec![])] };
                run_long(&list, &c, &mut Obs::default())?;
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    code: u8,
    id: u8,
    auth: B,
    secret: B,
    attrs: Vec<(u8, B)>,
    pad: B,
}

pub fn hostile() -> BoxedStrategy<B> {
    let edge = prop::sample::select(vec![0usize, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 18, 19, 20, 31, 32, 33, 35, 48, 51, 127, 128, 129, 131, 144, 239, 240, 241, 242, 243, 244, 252, 253]);
    prop_oneof![
        5 => edge.prop_flat_map(|n| bytes(n..=n)),
        2 => bytes(0..=24),
        1 => (0usize..=253).prop_flat_map(|n| (0u8..=255).prop_map(move |x| B(vec![x; n]))),
        2 => (0u8..=33, utf8(20)).prop_map(|(t, s)| B([&[t][..], s.as_bytes()].concat())),
        1 => (0usize..=15).prop_flat_map(|k| bytes(3 + 16 * k..=3 + 16 * k)).prop_map(|mut b| { b.0[1] |= 0x80; b }),
        1 => (0u8..=33, bytes(4..=4)).prop_map(|(t, b)| B([&[t][..], &b].concat())),
    ]
    .boxed()
}

pub fn c16(cx: &Cx) {
    let t = crate::table::shipped::table();
    let nums: Vec<u8> = t.attrs.iter().map(|a| a.num).collect();
    cx.rule("read: decodable datagrams whose attributes have dictionary numbers and hostile contents, read through every accessor of every module; non-trivial when an accessor met contents it must refuse; oracle: independent readers say value or error, nothing panics");
    cx.drive(
        "read",
        cx.n(16_000, 300_000),
        || {
            let ty = prop_oneof![5 => prop::sample::select(nums.clone()), 1 => gen::octet()];
            (gen::any_code_octet(), gen::octet(), gen::auth(), gen::secret_or_empty(), vec((ty.clone(), hostile()), 1..=8), vec((ty, hostile()), 0..=2), bytes(0..=3))
                .prop_map(|(code, id, auth, secret, a, b, pad)| {
                    // a few numbers more than once
                    let mut attrs: Vec<(u8, B)> = a.clone();
                    for ((_, v), (t, _)) in b.iter().zip(&a) {
                        attrs.push((*t, v.clone()));
                    }
                    if pad.len() % 2 == 1 {
                        attrs.extend(a.first().cloned());
                    }
                    Any { code, id, auth, secret, attrs, pad }
                })
        },
        |c, obs| {
            let m = gen::plain(&c.attrs);
            let mut wire = rf::build(c.code, c.id, &c.auth, &rf::attr_bytes(&m));
            wire.extend(&c.pad.0);
            let p = Packet::decode(&wire, &c.secret).map_err(|e| format!("does not decode: {e}"))?;
            for a in &t.attrs {
                a.agree(&p, &m)?;
                if m.iter().any(|(n, v)| *n == a.num && a.expect(v, &c.secret, &c.auth) == Some(Err(()))) {
                    obs.nontrivial();
                }
            }
            let s = format!("{p:?}{p:#?}");
            ensure!(!s.is_empty(), "empty debug form");
            let _ = p.encode();
            for code in rf::ALL_CODES {
                let _ = p.make_response_packet(lib_code(code)).encode();
            }
            for (n, _) in &m {
                for x in p.lookup_all(*n) {
                    let _ = (x.encode_u32(), x.encode_u16(), x.encode_tagged_u32(), x.encode_string(), x.encode_tagged_string());
                    let _ = (x.encode_ipv4(), x.encode_ipv6(), x.encode_ipv4_prefix(), x.encode_ipv6_prefix(), x.encode_date());
                    let _ = (x.encode_user_password(&c.secret, &c.auth), x.encode_tunnel_password(&c.secret, &c.auth));
                    let _ = (x.encode_user_password(&c.secret, &c.pad), x.encode_tunnel_password(&c.pad, &c.auth));
                    let _ = format!("{x:?}");
                }
            }
            Ok(())
        },
    );
    cx.rule("sizes: every accessor over every content size 0..=253 in every run");
    cx.drive("sizes", cx.n(24, 400), || (gen::octet(), gen::auth(), gen::secret_or_empty()), |(x, auth, secret): &(u8, B, B), obs| {
        obs.nontrivial();
        for n in 0..=253usize {
            let v: Vec<u8> = (0..n).map(|i| x.wrapping_add(if i == 1 { 0x80 } else { 0 })).collect();
            for ch in nums.chunks(12) {
                let m: Vec<(u8, Vec<u8>)> = ch.iter().map(|t| (*t, v.clone())).collect();
                let wire = rf::build(1, 1, auth, &rf::attr_bytes(&m));
                let p = Packet::decode(&wire, secret).map_err(|e| format!("does not decode: {e}"))?;
                for a in t.attrs.iter().filter(|a| ch.contains(&a.num)) {
                    a.agree(&p, &m)?;
                }
            }
        }
        Ok(())
    });
}

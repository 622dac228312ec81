//! C19: the two crypto back ends give the same results; C20: freshness of random values.

use crate::engine::{guard, harness_error, hex, unhex, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, bytes, lib_code, Mutation};
use crate::refimpl as rf;
use proptest::collection::vec;
use proptest::prelude::*;
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

pub fn vbin(name: &str) -> std::path::PathBuf {
    Path::new(&std::env::var("VH_BIN").unwrap_or_else(|_| "/verif/target/vbin".to_owned())).join(name)
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// encode a packet with this code, identifier, authenticator and attributes
    Encode { code: u8, id: u8, auth: B, attrs: Vec<(u8, B)>, secret: B },
    /// decode, respond, encode
    Respond { data: B, secret: B, code: u8, attrs: Vec<(u8, B)> },
    VerifyRequest { data: B, secret: B },
    VerifyResponse { data: B, request: B, secret: B },
    Hide { pw: B, secret: B, auth: B },
    Reveal { data: B, secret: B, auth: B },
    HideTunnel { tag: Option<u8>, pw: B, secret: B, auth: B },
    RevealTunnel { data: B, secret: B, auth: B },
    Read { typ: u8, data: B },
}

fn show<T: std::fmt::Debug, E: std::fmt::Debug + std::fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("err {e:?} / {e}"),
    }
}

/// Runs one operation and describes its result in full; values hidden with a random salt come second.
pub fn exec(op: &Op) -> (String, Option<B>) {
    let bs = |r: Result<Vec<u8>, radius::core::packet::PacketError>| show(r.map(B));
    let r = guard(|| match op {
        Op::Encode { code, id, auth, attrs, secret } => {
            let wire = rf::build(1, *id, auth, &[]);
            let mut p = match Packet::decode(&wire, secret) {
                Ok(p) => p.make_response_packet(lib_code(*code)),
                Err(e) => return (format!("err {e}"), None),
            };
            for (t, v) in attrs {
                p.add(AVP::from_bytes(*t, v));
            }
            (bs(p.encode()), None)
        }
        Op::Respond { data, secret, code, attrs } => match Packet::decode(data, secret) {
            Err(e) => (format!("err {e:?} / {e}"), None),
            Ok(p) => {
                let mut q = p.make_response_packet(lib_code(*code));
                for (t, v) in attrs {
                    q.add(AVP::from_bytes(*t, v));
                }
                (format!("{p:?} {} {}", bs(p.encode()), bs(q.encode())), None)
            }
        },
        Op::VerifyRequest { data, secret } => (format!("{}", Packet::is_authentic_request(data, secret)), None),
        Op::VerifyResponse { data, request, secret } => (format!("{}", Packet::is_authentic_response(data, request, secret)), None),
        Op::Hide { pw, secret, auth } => (show(AVP::from_user_password(2, pw, secret, auth).map(|a| B(a.encode_bytes()))), None),
        Op::Reveal { data, secret, auth } => (show(AVP::from_bytes(2, data).encode_user_password(secret, auth).map(B)), None),
        Op::HideTunnel { tag, pw, secret, auth } => {
            let t = tag.map(Tag::new);
            match AVP::from_tunnel_password(69, t.as_ref(), pw, secret, auth) {
                Err(e) => (format!("err {e:?} / {e}"), None),
                Ok(a) => {
                    let b = a.encode_bytes();
                    (format!("ok, {} octets, tag {:?}", b.len(), b.first()), Some(B(b)))
                }
            }
        }
        Op::RevealTunnel { data, secret, auth } => (show(AVP::from_bytes(69, data).encode_tunnel_password(secret, auth).map(|(v, t)| (B(v), t.get_value()))), None),
        Op::Read { typ, data } => {
            let a = AVP::from_bytes(*typ, data);
            (
                format!(
                    "{} {} {} {} {} {} {} {} {} {}",
                    show(a.encode_u32()),
                    show(a.encode_u16()),
                    show(a.encode_tagged_u32().map(|(v, t)| (v, t.get_value()))),
                    show(a.encode_string()),
                    show(a.encode_tagged_string().map(|(v, t)| (v, t.map(|t| t.get_value())))),
                    show(a.encode_ipv4()),
                    show(a.encode_ipv6()),
                    show(a.encode_ipv4_prefix()),
                    show(a.encode_ipv6_prefix()),
                    show(a.encode_date())
                ),
                None,
            )
        }
    });
    match r {
        Ok(x) => x,
        Err(e) => {
            // (the place differs between the twins)
            let msg = e.split(": ").skip(1).collect::<Vec<_>>().join(": ");
            (format!("panic {msg}"), None)
        }
    }
}

/// Child process mode: one operation per line in, one result per line out.
pub fn serve() {
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let op: Op = serde_json::from_str(&line).unwrap_or_else(|e| harness_error(&e.to_string()));
        let r = serde_json::to_string(&exec(&op)).unwrap_or_else(|e| harness_error(&e.to_string()));
        if writeln!(out, "{r}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}

struct Peer {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

/// Runs the operation in the other back end's process.
fn other(op: &Op) -> Result<(String, Option<B>), String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        let peer = p.get_or_insert_with(|| {
            let mut child = Command::new(vbin("vh-openssl"))
                .args(["--serve", "c19"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| harness_error(&format!("vh-openssl: {e}")));
            let stdin = child.stdin.take().unwrap_or_else(|| harness_error("stdin"));
            let stdout = BufReader::new(child.stdout.take().unwrap_or_else(|| harness_error("stdout")));
            Peer { child, stdin, stdout }
        });
        let mut line = serde_json::to_string(op).unwrap_or_else(|e| harness_error(&e.to_string()));
        line.push('\n');
        let mut reply = String::new();
        let ok = peer.stdin.write_all(line.as_bytes()).and_then(|_| peer.stdin.flush()).and_then(|_| peer.stdout.read_line(&mut reply));
        if ok.is_err() || reply.is_empty() {
            let status = peer.child.wait().map(|s| s.to_string()).unwrap_or_default();
            *p = None;
            return Err(format!("the openssl process died ({status})"));
        }
        serde_json::from_str(&reply).map_err(|e| harness_error(&format!("{reply}: {e}")))
    })
}

fn both(op: &Op, obs: &mut Obs) -> Result<(Option<B>, Option<B>), String> {
    let (a, ha) = exec(op);
    let (b, hb) = other(op)?;
    ensure!(!a.starts_with("panic") && !b.starts_with("panic"), "{op:?}: md5 build: {a}; openssl build: {b}");
    ensure!(a == b, "{op:?}: md5 build: {a}; openssl build: {b}");
    if a.starts_with("ok") || a == "true" {
        obs.nontrivial();
        obs.label("succeeded");
    }
    Ok((ha, hb))
}

fn op() -> BoxedStrategy<Op> {
    let at = || prop_oneof![5 => gen::attrs(0..=5), 1 => gen::filled(4090..=4100), 1 => vec((gen::octet(), bytes(250..=256)), 1..=2)];
    let req = || (gen::any_code_octet(), gen::octet(), gen::auth(), gen::attrs(0..=4), gen::secret_or_empty(), vec(gen::mutation(), 0..=1), bytes(0..=3));
    let pw = |max: usize| prop_oneof![3 => bytes(0..=40), 2 => bytes(0..=max + 10), 1 => (0usize..=max / 16 + 1).prop_flat_map(|n| bytes(n * 16..=n * 16))];
    let auth = || prop_oneof![8 => gen::auth(), 1 => bytes(0..=33)];
    prop_oneof![
        3 => (gen::code_of(&rf::ALL_CODES), gen::octet(), gen::auth(), at(), gen::secret_or_empty()).prop_map(|(code, id, auth, attrs, secret)| Op::Encode { code, id, auth, attrs, secret }),
        2 => (req(), gen::code_of(&rf::ALL_CODES), gen::attrs(0..=4)).prop_map(|((c, id, auth, attrs, secret, m, pad), code, ra)| {
            let mut w = rf::build(c, id, &auth, &gen::attrs_wire(&attrs));
            w.extend(&pad.0);
            m.iter().for_each(|m| gen::mutate(&mut w, m));
            Op::Respond { data: B(w), secret, code, attrs: ra }
        }),
        2 => req().prop_map(|(c, id, auth, attrs, secret, m, pad)| {
            let mut w = rf::signed(c, id, &auth, &gen::attrs_wire(&attrs), &secret);
            w.extend(&pad.0);
            m.iter().for_each(|m: &Mutation| gen::mutate(&mut w, m));
            Op::VerifyRequest { data: B(w), secret }
        }),
        2 => (req(), gen::auth(), prop::option::weighted(0.1, bytes(0..=19))).prop_map(|((c, id, auth, attrs, secret, m, pad), _, short)| {
            let a = gen::attrs_wire(&attrs);
            let mut w = rf::signed(if rf::RESP.contains(&c) { c } else { 2 }, id, &auth, &a, &secret);
            w.extend(&pad.0);
            m.iter().for_each(|m: &Mutation| gen::mutate(&mut w, m));
            Op::VerifyResponse { data: B(w), request: short.unwrap_or_else(|| B(rf::build(1, id, &auth, &[]))), secret }
        }),
        3 => (pw(128), gen::secret_or_empty(), auth()).prop_map(|(pw, secret, auth)| Op::Hide { pw, secret, auth }),
        3 => (pw(128), gen::secret_or_empty(), auth(), prop::bool::weighted(0.7)).prop_map(|(pw, secret, auth, real)| {
            let data = if real && !secret.is_empty() { B(rf::hide_chain(&rf::pad16(&pw), &secret, &auth)) } else { pw };
            Op::Reveal { data, secret, auth }
        }),
        3 => (prop::option::of(gen::octet()), pw(240), gen::secret_or_empty(), auth()).prop_map(|(tag, pw, secret, auth)| Op::HideTunnel { tag, pw, secret, auth }),
        3 => (gen::octet(), any::<u16>(), pw(240), gen::secret_or_empty(), auth(), prop::bool::weighted(0.8)).prop_map(|(tag, salt, pw, secret, auth, real)| {
            let salt = if real { salt | 0x8000 } else { salt }.to_be_bytes();
            let h = if real { rf::hide_chain(&rf::pad16(&pw), &secret, &[&auth[..], &salt].concat()) } else { pw.0 };
            Op::RevealTunnel { data: B([&[tag][..], &salt, &h].concat()), secret, auth }
        }),
        1 => (gen::octet(), bytes(0..=20)).prop_map(|(typ, data)| Op::Read { typ, data }),
    ]
    .boxed()
}

pub fn c19(cx: &Cx) {
    cx.rule("same: generated encode, respond, verify, hide, reveal and read operations run in the md5 build and in the openssl build; non-trivial when the operation succeeds; oracle: equality of full results and errors");
    cx.drive("same", cx.n(60_000, 1_500_000), op, |op, obs| {
        if let (Some(a), Some(b)) = both(op, obs)? {
            // salted values: each must be revealed alike by the other
            if let Op::HideTunnel { pw, secret, auth, .. } = op {
                for (data, by) in [(a, "md5"), (b, "openssl")] {
                    let r = Op::RevealTunnel { data, secret: secret.clone(), auth: auth.clone() };
                    both(&r, obs)?;
                    let (x, _) = exec(&r);
                    let want = B(rf::trim_nuls(pw).to_vec());
                    ensure!(x.starts_with(&format!("ok ({want:?},")), "hidden by {by}: {x}, expected {want:?}");
                }
            }
        }
        Ok(())
    });
    cx.rule("cross: a request built by one build, verified and answered by the other, verified back by the first, with a password in it");
    cx.drive(
        "cross",
        cx.n(16_000, 300_000),
        || (any::<bool>(), gen::code_of(&[1, 4, 12, 40, 43]), gen::octet(), gen::auth(), gen::attrs(0..=4), gen::secret(), bytes(0..=128), gen::code_of(&rf::RESP), gen::attrs(0..=4)),
        |(swap, code, id, auth, attrs, secret, pw, rcode, rattrs): &(bool, u8, u8, B, Vec<(u8, B)>, B, B, u8, Vec<(u8, B)>), obs| {
            type Run = fn(&Op) -> Result<(String, Option<B>), String>;
            let here: Run = |o| Ok(exec(o));
            let (first, second): (Run, Run) = if *swap { (other, here) } else { (here, other) };
            let blob = |s: &str| -> Result<B, String> {
                s.strip_prefix("ok x\"").and_then(|s| s.strip_suffix('"')).and_then(unhex).map(B).ok_or_else(|| format!("no octets: {s}"))
            };
            let hidden = blob(&first(&Op::Hide { pw: pw.clone(), secret: secret.clone(), auth: auth.clone() })?.0)?;
            let mut all = attrs.clone();
            all.push((2, hidden.clone()));
            let req = blob(&first(&Op::Encode { code: *code, id: *id, auth: auth.clone(), attrs: all, secret: secret.clone() })?.0)?;
            let v = second(&Op::VerifyRequest { data: req.clone(), secret: secret.clone() })?.0;
            ensure!(v == "true", "a request of code {code} built by one build is {v} for the other");
            let r = second(&Op::Reveal { data: hidden, secret: secret.clone(), auth: auth.clone() })?.0;
            ensure!(r == format!("ok {:?}", B(rf::trim_nuls(pw).to_vec())), "a password hidden by one build is revealed as {r}");
            let full = second(&Op::Respond { data: req.clone(), secret: secret.clone(), code: *rcode, attrs: rattrs.clone() })?.0;
            let at = full.rfind("ok x\"").ok_or("no response")?;
            let resp = blob(&full[at..])?;
            let v = first(&Op::VerifyResponse { data: resp.clone(), request: req, secret: secret.clone() })?.0;
            ensure!(v == "true", "a response of code {rcode} built by one build is {v} for the other: {}", hex(&resp));
            obs.nontrivial();
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- C20

/// Child process mode: prints fresh values.
/// Fresh values: an authenticator, an identifier and a salt per line, from four threads.
pub fn fresh(n: usize) {
    let mut out = String::new();
    for _ in 0..4 {
        out += &std::thread::spawn(move || (0..n).map(|_| format!("{}\n", fresh_values().join(" "))).collect::<String>()).join().unwrap_or_default();
    }
    print!("{out}");
}

fn fresh_values() -> [String; 3] {
    let p = Packet::new(lib_code(1), b"secret");
    let salt = AVP::from_tunnel_password(69, None, b"pw", b"secret", p.get_authenticator()).map(|a| a.encode_bytes()[1..3].to_vec());
    [hex(p.get_authenticator()), p.get_identifier().to_string(), hex(&salt.unwrap_or_default())]
}

extern "C" {
    fn personality(persona: std::ffi::c_ulong) -> std::ffi::c_int;
}

/// Rows of fresh values per source; no authenticator may come up twice, no two sources may give the same
/// identifiers or the same salts.
fn all_fresh(what: &str, rows: &[Vec<[String; 3]>]) -> Result<(), String> {
    let mut all = HashMap::new();
    for (k, row) in rows.iter().enumerate() {
        for v in row {
            ensure!(v[0].len() == 32, "an authenticator of {} digits in {what} {k}", v[0].len());
            if let Some(j) = all.insert(&v[0], k) {
                return Err(format!("authenticator {} came up in {what} {j} and {k}", v[0]));
            }
        }
    }
    for i in [1, 2] {
        let name = ["", "identifiers", "salts"][i];
        let l: Vec<String> = rows.iter().map(|r| r.iter().map(|v| &v[i][..]).collect::<Vec<_>>().join(" ")).collect();
        let d: HashSet<&String> = l.iter().collect();
        if d.len() != l.len() {
            let twice = l.iter().find(|x| l.iter().filter(|y| y == x).count() > 1).cloned().unwrap_or_default();
            return Err(format!("two of {} {what} give the same {name}: {twice}", l.len()));
        }
    }
    Ok(())
}

/// How far a count of successes may be from its mean, in standard deviations, before it is judged biased. With the
/// tens of thousands of counts judged here a fair source gets there with a probability below 1e-12.
const SIGMA: f64 = 9.0;

fn biased(count: u64, n: u64, p: f64) -> bool {
    let (n, c) = (n as f64, count as f64);
    (c - n * p).abs() > SIGMA * (n * p * (1.0 - p)).sqrt() + 1.0
}

/// Judges a sample of equally long octet strings as independent fair bits. `first` is the first bit that counts.
fn fair(what: &str, rows: &[Vec<u8>], first: usize) -> Result<(), String> {
    let n = rows.len() as u64;
    let bits = rows[0].len() * 8;
    let bit = |r: &Vec<u8>, i: usize| (r[i / 8] >> (7 - i % 8)) & 1;
    // one column of words per bit, so that pairs can be counted quickly
    let words = rows.len().div_ceil(64);
    let mut cols = vec![vec![0u64; words]; bits];
    for (k, r) in rows.iter().enumerate() {
        for (i, c) in cols.iter_mut().enumerate() {
            c[k / 64] |= (bit(r, i) as u64) << (k % 64);
        }
    }
    for i in first..bits {
        let ones: u64 = cols[i].iter().map(|w| w.count_ones() as u64).sum();
        ensure!(!biased(ones, n, 0.5), "{what}: bit {i} is set in {ones} of {n}");
        // against the same bit of the next one
        let agree = rows.windows(2).filter(|w| bit(&w[0], i) == bit(&w[1], i)).count() as u64;
        ensure!(!biased(agree, n - 1, 0.5), "{what}: bit {i} agrees with the one before in {agree} of {}", n - 1);
        for j in i + 1..bits {
            let diff: u64 = cols[i].iter().zip(&cols[j]).map(|(a, b)| (a ^ b).count_ones() as u64).sum();
            ensure!(!biased(diff, n, 0.5), "{what}: bits {i} and {j} differ in {diff} of {n}");
        }
    }
    // octets
    for o in 0..rows[0].len() {
        if o * 8 < first {
            continue;
        }
        let mut h = [0u64; 256];
        rows.iter().for_each(|r| h[r[o] as usize] += 1);
        for (v, c) in h.iter().enumerate() {
            ensure!(!biased(*c, n, 1.0 / 256.0), "{what}: octet {o} is {v} in {c} of {n}");
        }
    }
    Ok(())
}

/// Looks for a linear relation (a check bit, a parity that always holds, a shift register or another linear
/// generator) between the bits of `span` successive values. For fair bits one turns up with a probability below 2^-60.
fn unrelated(what: &str, rows: &[Vec<u8>], bits: &[usize], span: usize) -> Result<(), String> {
    let width = span * bits.len();
    let samples = (width + 65).next_multiple_of(64);
    let windows: Vec<&[Vec<u8>]> = rows.chunks_exact(span).take(samples).collect();
    if windows.len() < samples {
        harness_error(&format!("{what}: {} values are too few for a span of {span}", rows.len()));
    }
    let mut basis: Vec<(usize, Vec<u64>)> = vec![];
    for k in 0..=width {
        let mut v = vec![u64::MAX; samples / 64];
        if k > 0 {
            let (at, bit) = ((k - 1) / bits.len(), bits[(k - 1) % bits.len()]);
            for (i, w) in windows.iter().enumerate() {
                if (w[at][bit / 8] >> (7 - bit % 8)) & 1 == 0 {
                    v[i / 64] &= !(1 << (i % 64));
                }
            }
        }
        for (lead, b) in &basis {
            if v[lead / 64] >> (lead % 64) & 1 == 1 {
                v.iter_mut().zip(b).for_each(|(x, y)| *x ^= y);
            }
        }
        match v.iter().position(|w| *w != 0) {
            Some(i) => basis.push((i * 64 + v[i].trailing_zeros() as usize, v)),
            None => {
                return Err(format!(
                    "{what}: bit {} of value {} is the parity of bits before it, in each of {samples} runs of {span} values",
                    bits[(k - 1) % bits.len()],
                    (k - 1) / bits.len()
                ))
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Build {
    code: u8,
    secret: B,
    id: Option<u8>,
}

pub fn c20(cx: &Cx) {
    let seen: Mutex<HashSet<Vec<u8>>> = Mutex::new(HashSet::new());
    cx.rule("constructions: sequences of packet constructions with any code, secret and identifier, on 8 threads; non-trivial always; oracle: 16 octets, never one seen before in the whole run, the identifier used when given");
    cx.drive(
        "constructions",
        cx.n(16_000, 200_000),
        || vec((gen::code_of(&rf::ALL_CODES), gen::secret_or_empty(), prop::option::of(gen::octet())).prop_map(|(code, secret, id)| Build { code, secret, id }), 1..=8),
        |l: &Vec<Build>, obs| {
            obs.nontrivial();
            let mut ids = vec![];
            for b in l {
                let p = match b.id {
                    Some(i) => Packet::new_with_identifier(lib_code(b.code), &b.secret, i),
                    None => Packet::new(lib_code(b.code), &b.secret),
                };
                if let Some(i) = b.id {
                    ensure!(p.get_identifier() == i, "identifier {} was asked for and {} used", i, p.get_identifier());
                } else {
                    ids.push(p.get_identifier());
                }
                let a = p.get_authenticator().clone();
                ensure!(a.len() == 16, "the authenticator has {} octets", a.len());
                ensure!(seen.lock().unwrap().insert(a.clone()), "the authenticator {} was used before", hex(&a));
                ensure!(p.get_secret() == &b.secret.0 && p.get_code() == lib_code(b.code), "secret or code are not those asked for");
                let q = Packet::clone(&p);
                ensure!(q == p, "a clone differs");
            }
            ensure!(ids.len() < 8 || ids.iter().any(|i| *i != ids[0]), "eight identifiers in a row are all {}", ids[0]);
            Ok(())
        },
    );
    cx.rule("statistics: authenticators of every code, identifiers and salts collected on 8 threads; every bit balanced, independent of every other bit and of the value before, octets uniform (9 standard deviations), nothing repeated within or between threads");
    let per = if cx.thorough { 60_000 } else { 12_000 } as usize;
    cx.drive_opts("statistics", cx.n(8, 40), 0, any::<u64>, |_: &u64, obs| {
        obs.nontrivial();
        let rows: Vec<(Vec<Vec<u8>>, Vec<u8>)> = std::thread::scope(|s| {
            let h: Vec<_> = (0..8u8)
                .map(|t| {
                    s.spawn(move || {
                        let mut v = vec![];
                        let mut ids = vec![];
                        for i in 0..per {
                            let code = rf::ALL_CODES[i % 16];
                            let p = if i % 3 == 0 { Packet::new_with_identifier(lib_code(code), &[t, i as u8], i as u8) } else { Packet::new(lib_code(code), &[t, i as u8]) };
                            if i % 3 != 0 {
                                ids.push(p.get_identifier());
                            }
                            v.push(p.get_authenticator().clone());
                        }
                        (v, ids)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        let mut all = HashMap::new();
        for (t, (v, ids)) in rows.iter().enumerate() {
            ensure!(v.len() == per, "a thread panicked");
            for a in v {
                ensure!(a.len() == 16, "an authenticator of {} octets", a.len());
                if let Some(o) = all.insert(a.clone(), t) {
                    return Err(format!("authenticator {} came up in threads {o} and {t}", hex(a)));
                }
            }
            fair("authenticator", v, 0)?;
            let bits: Vec<usize> = (0..128).collect();
            unrelated("authenticator", v, &bits, 1)?;
            unrelated("authenticator", v, &bits, 4)?;
            let both: Vec<Vec<u8>> = v.iter().enumerate().filter(|(i, _)| i % 3 != 0).zip(ids).map(|((_, a), i)| [&a[..], &[*i]].concat()).collect();
            let bits: Vec<usize> = (0..136).collect();
            unrelated("authenticator and identifier", &both, &bits, 1)?;
            unrelated("authenticator and identifier", &both, &bits, 4)?;
            fair("identifier", &ids.iter().map(|i| vec![*i]).collect::<Vec<_>>(), 0)?;
        }
        for (i, a) in rows.iter().enumerate() {
            for b in &rows[..i] {
                let same = a.1.iter().zip(&b.1).filter(|(x, y)| x == y).count() as u64;
                ensure!(!biased(same, a.1.len() as u64, 1.0 / 256.0), "identifiers of two threads agree in {same} of {}", a.1.len());
            }
        }
        let ids: Vec<Vec<u8>> = rows.iter().flat_map(|r| r.1.iter().map(|i| vec![*i])).collect();
        fair("identifiers of all threads", &ids, 0)?;
        let flat: Vec<Vec<u8>> = rows.into_iter().flat_map(|r| r.0).collect();
        fair("authenticators of all threads", &flat, 0)
    });
    cx.drive_opts("salts", cx.n(8, 40), 0, || (prop::option::of(gen::octet()), bytes(0..=20), bytes(1..=20), gen::auth(), any::<bool>()), |(tag, pw, secret, auth, vary): &(Option<u8>, B, B, B, bool), obs| {
        obs.nontrivial();
        let n = 48_000usize;
        let rows: Vec<Vec<Vec<u8>>> = std::thread::scope(|s| {
            let h: Vec<_> = (0..4)
                .map(|_| {
                    s.spawn(move || {
                        let tag = tag.map(Tag::new);
                        let mut v = vec![];
                        let mut pw = pw.0.clone();
                        for i in 0..n {
                            if *vary && !pw.is_empty() {
                                let k = i % pw.len();
                                pw[k] = pw[k].wrapping_add(1);
                            }
                            let a = AVP::from_tunnel_password(69, tag.as_ref(), &pw, secret, auth).map(|a| a.encode_bytes());
                            v.push(a.map(|b| b[1..3].to_vec()).unwrap_or_default());
                        }
                        v
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for r in &rows {
            ensure!(r.len() == n && r.iter().all(|x| x.len() == 2), "hiding failed");
            ensure!(r.iter().all(|x| x[0] & 0x80 != 0), "a salt without its top bit");
            fair("salt", &r.iter().map(|x| vec![x[0] << 1 | x[1] >> 7, x[1] << 1]).collect::<Vec<_>>().iter().map(|x| vec![x[0]]).collect::<Vec<_>>(), 0)?;
            fair("salt, low octet", &r.iter().map(|x| vec![x[1]]).collect::<Vec<_>>(), 0)?;
            let bits: Vec<usize> = (1..16).collect();
            unrelated("salt", r, &bits, 1)?;
            unrelated("salt", r, &bits, 32)?;
            let mut pairs = 0u64;
            let d: HashSet<&Vec<u8>> = r.iter().collect();
            // of 32768 values, 48000 draws meet 25200 on average with a deviation of about 65
            ensure!(d.len() > 24_000, "only {} different salts in {n} calls", d.len());
            for w in r.windows(2) {
                pairs += u64::from(w[0] == w[1]);
            }
            ensure!(pairs < 60, "{pairs} of {n} salts are those of the call before");
        }
        for i in 1..rows.len() {
            let same = rows[0].iter().zip(&rows[i]).filter(|(a, b)| a == b).count();
            ensure!(same < 60, "two threads use the same salts ({same} of {n})");
        }
        Ok(())
    });
    cx.rule("processes: fresh values from 24 processes started together, or from 24 that see the same stopped clock, process number and memory layout; oracle: no authenticator twice, no two with the same identifiers or salts");
    cx.drive_opts("processes", cx.n(16, 80), 0, || prop::option::of(0i64..4_000_000_000), |moment: &Option<i64>, obs| {
        obs.nontrivial();
        obs.label(if moment.is_some() { "alike in all but the kernel's randomness" } else { "started together" });
        let exe = vbin(&format!("vh-{}", cx.backend));
        let kids: Vec<Child> = (0..24)
            .map(|_| {
                let mut c = Command::new(&exe);
                c.args(["--fresh", "40"]).stdout(Stdio::piped()).stdin(Stdio::null());
                if let Some(m) = moment {
                    c.args(["--moment", &m.to_string()]);
                    use std::os::unix::process::CommandExt;
                    // no address space randomisation
                    unsafe {
                        c.pre_exec(|| {
                            personality(0x0040000);
                            Ok(())
                        });
                    }
                }
                c.spawn().unwrap_or_else(|e| harness_error(&e.to_string()))
            })
            .collect();
        let mut rows = vec![];
        for c in kids {
            let o = c.wait_with_output().unwrap_or_else(|e| harness_error(&e.to_string()));
            ensure!(o.status.success(), "a process failed: {}", o.status);
            let text = String::from_utf8_lossy(&o.stdout).to_string();
            let row: Vec<[String; 3]> = text
                .lines()
                .map(|l| {
                    let mut w = l.split(' ').map(str::to_owned);
                    [0; 3].map(|_| w.next().unwrap_or_default())
                })
                .collect();
            ensure!(row.len() == 160, "a process gives {} of 160 values", row.len());
            rows.push(row);
        }
        all_fresh("processes", &rows)
    });
    if !crate::clock::works() {
        harness_error("the clock cannot be stopped");
    }
    cx.rule("moment: rounds of fresh values on the same thread and on new threads, each with the clock stopped at the same moment; oracle: as for processes");
    cx.drive_opts("moment", cx.n(160, 3_000), 0, || (0u64..4_000_000_000, 0u64..1_000_000_000, 0u64..100_000_000, vec(any::<bool>(), 2..=8)), |(sec, ns, up, rounds): &(u64, u64, u64, Vec<bool>), obs| {
        use std::time::Duration;
        obs.nontrivial();
        let at = (Duration::new(*sec, *ns as u32), Duration::new(*up, *ns as u32));
        let round = move || crate::clock::stopped_at(at, || (0..20).map(|_| fresh_values()).collect::<Vec<_>>());
        let rows: Vec<_> = rounds.iter().map(|new| if *new { std::thread::spawn(round).join().unwrap_or_default() } else { round() }).collect();
        for r in &rows {
            ensure!(r.len() == 20, "a thread panicked");
        }
        all_fresh("rounds", &rows)
    });
}

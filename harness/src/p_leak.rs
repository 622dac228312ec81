//! C21: the shared secret does not leak. The operations run in a child process whose standard output, standard
//! error (with every log record) and results are searched for the secret in many notations.

use crate::engine::{harness_error, hex, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, bytes, lib_code};
use crate::net::{self, bind, ip, local, send, Options, Outcome, SecretPlan, World};
use crate::p_server::{data, Data};
use crate::p_twin::vbin;
use crate::refimpl as rf;
use proptest::collection::vec;
use proptest::prelude::*;
use radius::client::Client;
use radius::core::avp::AVP;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::{Debug, Display};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leak {
    /// the secret is made from this number
    seed: u64,
    len: u8,
    text: bool,
    other: B,
    code: u8,
    id: u8,
    auth: B,
    attrs: Vec<(u8, B)>,
    pw: B,
    junk: B,
    server: Option<(Vec<Data>, Vec<Outcome>, bool)>,
    client: Option<(Vec<Data>, u8)>,
}

impl Leak {
    fn secret(&self) -> Vec<u8> {
        let mut out = vec![];
        let mut i = 0u32;
        while out.len() < self.len as usize {
            out.extend(rf::md5(&[&self.seed.to_be_bytes()[..], &i.to_be_bytes(), b"leak"].concat()));
            i += 1;
        }
        out.truncate(self.len as usize);
        if self.text {
            const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
            out.iter_mut().for_each(|b| *b = A[*b as usize % A.len()]);
        }
        out
    }
}

#[derive(Default, Serialize, Deserialize)]
struct Outcomes {
    bad: Option<String>,
    texts: Vec<String>,
    wires: Vec<B>,
    /// what happened, by kind
    labels: Vec<String>,
}

impl Outcomes {
    fn shown<T: Debug>(&mut self, v: &T) {
        self.texts.push(format!("{v:?}"));
        self.texts.push(format!("{v:#?}"));
    }
    fn error<E: Debug + Display>(&mut self, what: &str, e: &E) {
        self.texts.push(format!("{e}"));
        self.shown(e);
        self.labels.push(format!("error: {what}"));
    }
    fn wire(&mut self, b: &[u8]) {
        self.wires.push(B(b.to_vec()));
    }
    fn done<T, E: Debug + Display>(&mut self, what: &str, r: Result<T, E>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.error(what, &e);
                None
            }
        }
    }
}

// ---------------------------------------------------------------- in the child

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        eprintln!("{} {} {}", r.level(), r.target(), r.args());
    }
    fn flush(&self) {}
}

fn packets(c: &Leak, secret: &[u8], o: &mut Outcomes) {
    let code = lib_code(c.code);
    let wire = rf::build(c.code, c.id, &c.auth, &gen::attrs_wire(&c.attrs));
    // equal packets with different secrets look the same
    let a = Packet::decode(&wire, secret);
    let b = Packet::decode(&wire, &c.other);
    if let (Ok(a), Ok(b)) = (&a, &b) {
        let (mut ra, mut rb) = (a.make_response_packet(lib_code(2)), b.make_response_packet(lib_code(2)));
        for (t, v) in &c.attrs {
            ra.add(AVP::from_bytes(*t, v));
            rb.add(AVP::from_bytes(*t, v));
        }
        for (x, y) in [(a, b), (&ra, &rb)] {
            for (x, y) in [(format!("{x:?}"), format!("{y:?}")), (format!("{x:#?}"), format!("{y:#?}")), (format!("{x:02x?}"), format!("{y:02x?}"))] {
                if x != y {
                    o.bad = Some(format!("the debug representation depends on the secret: {x} and {y}"));
                }
                o.texts.push(x);
            }
        }
    }
    if let Some(p) = o.done("decode", a) {
        o.done("encode", p.encode()).iter().for_each(|w| o.wire(w));
    }
    o.done("decode", Packet::decode(&c.junk, secret));
    let mut cut = wire.clone();
    cut.truncate(wire.len() - 1);
    o.done("decode", Packet::decode(&cut, secret));
    // built from nothing, with passwords
    let mut p = Packet::new(code, secret);
    if c.id % 2 == 0 {
        p = Packet::new_with_identifier(code, secret, c.id);
    }
    for (t, v) in &c.attrs {
        p.add(AVP::from_bytes(*t, v));
    }
    let auth = p.get_authenticator().clone();
    let tag = Tag::new(c.id);
    if let Some(a) = o.done("hide", AVP::from_user_password(2, &c.pw, secret, &auth)) {
        o.shown(&a);
        p.add(a);
    }
    if let Some(a) = o.done("hide tunnel", AVP::from_tunnel_password(69, Some(&tag), &c.pw, secret, &auth)) {
        o.shown(&a);
        p.add(a);
    }
    o.shown(&p);
    if let Some(w) = o.done("encode", p.encode()) {
        o.wire(&w);
        Packet::is_authentic_request(&w, secret);
        Packet::is_authentic_response(&w, &wire, secret);
    }
    for a in [2u8, 69].iter().filter_map(|t| p.lookup(*t)) {
        o.done("reveal", a.encode_user_password(secret, &auth)).iter().for_each(|v| o.wire(v));
        o.done("reveal", a.encode_user_password(secret, &c.junk)).iter().for_each(|v| o.wire(v));
        o.done("reveal tunnel", a.encode_tunnel_password(secret, &auth)).iter().for_each(|v| o.wire(&v.0));
        o.done("reveal tunnel", a.encode_tunnel_password(secret, &c.junk)).iter().for_each(|v| o.wire(&v.0));
    }
    let a = AVP::from_bytes(2, &c.junk);
    o.done("reveal", a.encode_user_password(secret, &auth)).iter().for_each(|v| o.wire(v));
    o.done("reveal tunnel", a.encode_tunnel_password(secret, &auth)).iter().for_each(|v| o.wire(&v.0));
    o.done("reveal", a.encode_user_password(secret, &[])).iter().for_each(|v| o.wire(v));
    o.done("reveal tunnel", a.encode_tunnel_password(secret, &[])).iter().for_each(|v| o.wire(&v.0));
    // a packet that cannot be encoded
    for (t, n) in [(1u8, 300usize), (26, 253)] {
        let mut q = p.clone();
        for _ in 0..17 {
            q.add(AVP::from_bytes(t, &vec![c.id; n]));
        }
        o.done("encode", q.encode()).iter().for_each(|w| o.wire(w));
    }
    o.done("encode", p.make_response_packet(lib_code(0)).encode()).iter().for_each(|w| o.wire(w));
}

async fn server(c: &Leak, secret: &[u8], data: &[Data], ends: &[Outcome], skip: bool, o: &mut Outcomes) -> Result<(), String> {
    let mut w = World::start(Options { skip, ..Options::default() }).await?;
    let peer = bind(ip(w.net, 10), 0).await?;
    let stranger = bind(ip(w.net, 11), 0).await?;
    let a = local(&peer);
    w.secret(a, SecretPlan::Secret(B(secret.to_vec())));
    for (i, d) in data.iter().enumerate() {
        if let Some(e) = ends.get(i) {
            *w.shared.otherwise.lock().unwrap() = Some(*e);
        }
        let b = d.bytes(secret);
        send(&peer, &b, w.addr).await?;
        if i % 3 == 0 {
            send(&stranger, &b, w.addr).await?;
        }
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
    }
    *w.shared.otherwise.lock().unwrap() = Some(Outcome::Reply);
    // a handler that runs while a duplicate arrives
    let g = w.gate(a, c.id);
    let good = rf::signed(4, c.id, &c.auth, &gen::attrs_wire(&c.attrs), secret);
    for _ in 0..2 {
        send(&peer, &good, w.addr).await?;
    }
    w.sync().await?;
    let _ = g.send(Some(Outcome::Reply));
    w.sync().await?;
    for r in w.drain(&peer).into_iter().chain(w.drain(&stranger)) {
        o.labels.push("reply of the server".to_owned());
        o.wire(&r);
    }
    if let Some(s) = w.shutdown.take() {
        let _ = s.send(());
    }
    if let Ok(r) = (&mut w.task).await {
        o.done("run", r);
    }
    Ok(())
}

async fn client(c: &Leak, secret: &[u8], forged: &[Data], rcode: u8, o: &mut Outcomes) -> Result<(), String> {
    let netw = net::own_net();
    let peer = bind(ip(netw, 1), 0).await?;
    let to = local(&peer);
    let mut p = Packet::new_with_identifier(lib_code(c.code), secret, c.id);
    for (t, v) in &c.attrs {
        p.add(AVP::from_bytes(*t, v));
    }
    let cl = Client::new(Some(Duration::from_secs(5)), Some(Duration::from_secs(5)));
    let patient = tokio::time::timeout(Duration::from_secs(8), cl.send_packet(&to, &p));
    let script = async {
        let mut buf = vec![0; 5000];
        let Ok(Ok((n, from))) = tokio::time::timeout(Duration::from_secs(5), peer.recv_from(&mut buf)).await else { return None };
        let req = buf[..n].to_vec();
        for d in forged {
            let _ = peer.send_to(&d.bytes(secret), from).await;
        }
        let auth = req.get(4..20).unwrap_or(&[0; 16]).to_vec();
        let _ = peer.send_to(&rf::signed(rcode, c.id, &auth, &gen::attrs_wire(&c.attrs), secret), from).await;
        Some(req)
    };
    let encodable = p.encode().is_ok();
    let (r, req) = tokio::join!(patient, async { if encodable { script.await } else { None } });
    if let Some(req) = req {
        o.wire(&req);
        o.labels.push("request of the client".to_owned());
    }
    if let Ok(r) = r {
        if let Some(p) = o.done("send", r) {
            o.shown(&p);
        }
    }
    // nobody there, and no answer
    drop(peer);
    if let Ok(r) = tokio::time::timeout(Duration::from_secs(5), cl.send_packet(&to, &p)).await {
        o.done("send to a closed port", r.map(|_| ()));
    }
    let mute = bind(ip(netw, 2), 0).await?;
    let cl = Client::new(None, Some(Duration::from_millis(1)));
    o.done("send without an answer", cl.send_packet(&local(&mute), &p).await.map(|_| ()));
    p.add(AVP::from_bytes(1, &[7; 260]));
    o.done("send what cannot be encoded", cl.send_packet(&to, &p).await.map(|_| ()));
    Ok(())
}

/// Child process mode: one case per line in; a RESULT line on standard output and an END line on standard error.
pub fn serve() {
    // (panics that leak are leaks, too)
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    if log::set_logger(&Log).is_err() {
        harness_error("there is a logger already");
    }
    log::set_max_level(log::LevelFilter::Trace);
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let c: Leak = serde_json::from_str(&line).unwrap_or_else(|e| harness_error(&e.to_string()));
        let secret = c.secret();
        let mut o = Outcomes::default();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| packets(&c, &secret, &mut o)));
        if let Some((d, e, skip)) = &c.server {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| net::block_on(server(&c, &secret, d, e, *skip, &mut o))));
            if let Ok(Err(e)) = r {
                o.labels.push(format!("server not driven to the end ({})", e.split(':').next().unwrap_or_default()));
            }
        }
        if let Some((d, rc)) = &c.client {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| net::block_on(client(&c, &secret, d, *rc, &mut o))));
        }
        let r = serde_json::to_string(&o).unwrap_or_else(|e| harness_error(&e.to_string()));
        println!("\n@@RESULT {r}");
        let _ = std::io::stdout().flush();
        eprintln!("\n@@END");
    }
}

// ---------------------------------------------------------------- in the parent

const W: usize = 8;

fn base64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3)
        .flat_map(|c| {
            let n = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32;
            [n >> 18, n >> 12, n >> 6, n].map(|x| A[x as usize & 63] as char)
        })
        .collect()
}

/// Numbers in the text, None for what is no octet, so that runs of octets can be found whatever separates them.
fn numbers(text: &str, radix: u32) -> Vec<Option<u8>> {
    let digits = |c: char| c.is_digit(radix);
    text.split(|c: char| !digits(c)).filter(|t| !t.is_empty()).map(|t| if t.len() <= 3 { u8::from_str_radix(t, radix).ok() } else { None }).collect()
}

/// Whether the text gives away W octets of the secret in a row, and how.
fn gives_away(hay: &[u8], secret: &[u8]) -> Option<&'static str> {
    let raw: HashSet<&[u8]> = secret.windows(W).collect();
    if hay.windows(W).any(|w| raw.contains(w)) {
        return Some("as it is");
    }
    let text = String::from_utf8_lossy(hay).to_lowercase();
    let bare: Vec<u8> = text.replace("0x", "").bytes().filter(u8::is_ascii_hexdigit).collect();
    let hexes: HashSet<Vec<u8>> = secret.windows(W).map(|w| hex(w).into_bytes()).collect();
    if bare.windows(2 * W).any(|w| hexes.contains(w)) {
        return Some("in hexadecimal");
    }
    for (radix, name) in [(10, "as decimal numbers"), (16, "as hexadecimal numbers")] {
        let n = numbers(&text, radix);
        let runs: HashSet<Vec<Option<u8>>> = secret.windows(W).map(|w| w.iter().map(|b| Some(*b)).collect()).collect();
        if n.windows(W).any(|w| runs.contains(w)) {
            return Some(name);
        }
    }
    let b64: HashSet<Vec<u8>> = secret.windows(9).map(|w| base64(w).into_bytes()).collect();
    let plain: Vec<u8> = hay.iter().map(|b| match b { b'-' => b'+', b'_' => b'/', b => *b }).collect();
    if plain.windows(12).any(|w| b64.contains(w)) {
        return Some("in base64");
    }
    let hay_text = String::from_utf8_lossy(hay);
    for w in secret.windows(W) {
        if hay_text.contains(&w.escape_ascii().to_string()) || hay_text.contains(&format!("{}", String::from_utf8_lossy(w)).escape_debug().to_string()) && w.is_ascii() {
            return Some("escaped");
        }
    }
    let mut back = secret.to_vec();
    back.reverse();
    let raw: HashSet<&[u8]> = back.windows(W).collect();
    if hay.windows(W).any(|w| raw.contains(w)) {
        return Some("backwards");
    }
    None
}

struct Peer {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    stderr: mpsc::Receiver<Vec<u8>>,
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}

/// Runs the case in the child. Returns what it printed and its results.
fn run(c: &Leak, backend: &str) -> Result<(Vec<u8>, Vec<u8>, Outcomes), String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        let peer = p.get_or_insert_with(|| {
            let mut child = Command::new(vbin(&format!("vh-{backend}")))
                .args(["--serve", "c21"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| harness_error(&format!("vh: {e}")));
            let stdin = child.stdin.take().unwrap_or_else(|| harness_error("stdin"));
            let stdout = BufReader::new(child.stdout.take().unwrap_or_else(|| harness_error("stdout")));
            let mut err = BufReader::new(child.stderr.take().unwrap_or_else(|| harness_error("stderr")));
            let (tx, stderr) = mpsc::channel();
            std::thread::spawn(move || loop {
                let mut l = vec![];
                match err.read_until(b'\n', &mut l) {
                    Ok(n) if n > 0 && tx.send(l).is_ok() => {}
                    _ => return,
                }
            });
            Peer { child, stdin, stdout, stderr }
        });
        let mut line = serde_json::to_string(c).unwrap_or_else(|e| harness_error(&e.to_string()));
        line.push('\n');
        let mut work = || -> Option<(Vec<u8>, Vec<u8>, Outcomes)> {
            peer.stdin.write_all(line.as_bytes()).ok()?;
            peer.stdin.flush().ok()?;
            let (mut out, mut err) = (vec![], vec![]);
            let r = loop {
                let mut l = vec![];
                if peer.stdout.read_until(b'\n', &mut l).ok()? == 0 {
                    return None;
                }
                if let Some(r) = l.strip_prefix(b"@@RESULT ") {
                    break serde_json::from_slice(r).unwrap_or_else(|e| harness_error(&format!("result of the child: {e}")));
                }
                out.extend(l);
            };
            loop {
                let l = peer.stderr.recv().ok()?;
                if l.starts_with(b"@@END") {
                    break;
                }
                err.extend(l);
            }
            Some((out, err, r))
        };
        match work() {
            Some(x) => Ok(x),
            None => {
                let status = peer.child.wait().map(|s| s.to_string()).unwrap_or_default();
                let said: Vec<u8> = peer.stderr.try_iter().flatten().collect();
                *p = None;
                Err(format!("the process died ({status}): {}", String::from_utf8_lossy(&said)))
            }
        }
    })
}

fn check(c: &Leak, backend: &str, obs: &mut Obs) -> Result<(), String> {
    let secret = c.secret();
    let (out, err, o) = run(c, backend)?;
    if let Some(b) = o.bad {
        return Err(b);
    }
    for l in &o.labels {
        obs.label(l.clone());
        obs.nontrivial();
    }
    if secret.len() < 12 {
        return Ok(());
    }
    let clip = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(600)]).to_string();
    let look = |b: &[u8], what: &str| -> Result<(), String> {
        if let Some(how) = gives_away(b, &secret) {
            // the line that does it
            let line = b.split(|x| *x == b'\n').find(|l| gives_away(l, &secret).is_some()).unwrap_or(b);
            return Err(format!("{what} gives away the secret {} ({how}): {}", hex(&secret), clip(line)));
        }
        Ok(())
    };
    obs.label(if err.iter().any(|b| !b.is_ascii_whitespace()) { "with log records" } else { "without log records" });
    look(&err, "a log record or the standard error")?;
    look(&out, "the standard output")?;
    for t in &o.texts {
        look(t.as_bytes(), "a debug representation or an error message")?;
    }
    for w in &o.wires {
        if let Some(how) = gives_away(w, &secret) {
            return Err(format!("a datagram or value gives away the secret {} ({how}): {}", hex(&secret), hex(w)));
        }
    }
    Ok(())
}

fn leak() -> BoxedStrategy<Leak> {
    let resp = || {
        (data(), gen::code_of(&rf::RESP)).prop_map(|(d, c)| match d {
            Data::Packet { id, auth, attrs, sign, mutations, pad, .. } => Data::Packet { code: c, id, auth, attrs, sign, mutations, pad },
            d => d,
        })
    };
    let end = prop_oneof![2 => Just(Outcome::Reply), 1 => Just(Outcome::Error), 1 => Just(Outcome::Panic), 1 => Just(Outcome::Quiet)];
    (
        (any::<u64>().no_shrink(), prop_oneof![8 => 12u8..=64, 1 => 65u8..=200, 1 => 1u8..=11], any::<bool>(), gen::secret_or_empty()),
        (gen::any_code_octet(), gen::octet(), gen::auth(), gen::attrs(0..=4)),
        (prop_oneof![3 => bytes(0..=40), 1 => bytes(41..=260)], bytes(0..=80)),
        prop::option::weighted(0.6, (vec(data(), 1..=6), vec(end, 0..=6), prop::bool::weighted(0.2))),
        prop::option::weighted(0.6, (vec(resp(), 0..=5), gen::code_of(&rf::RESP))),
    )
        .prop_map(|((seed, len, text, other), (code, id, auth, attrs), (pw, junk), server, client)| Leak { seed, len, text, other, code, id, auth, attrs, pw, junk, server, client })
        .boxed()
}

pub fn c21(cx: &Cx) {
    // the search itself finds what it is for
    let s: Vec<u8> = (0..20u8).map(|i| i.wrapping_mul(37).wrapping_add(101)).collect();
    let forms = [
        s.clone(),
        hex(&s).into_bytes(),
        format!("{s:?}").into_bytes(),
        format!("{s:#?}").into_bytes(),
        format!("{s:02X?}").into_bytes(),
        format!("{s:x?}").into_bytes(),
        base64(&s[..18]).into_bytes(),
        format!("{}", s.escape_ascii()).into_bytes(),
        s.iter().map(|b| format!("{b:02X}:")).collect::<String>().into_bytes(),
        s.iter().rev().copied().collect(),
    ];
    for f in &forms {
        if gives_away(&[b"some prefix ", &f[..], b" and more"].concat(), &s).is_none() {
            harness_error(&format!("the search for secrets misses {}", String::from_utf8_lossy(f)));
        }
    }
    cx.rule("leak: packet operations, server histories (valid, forged, malformed datagrams, failing handlers, strangers) and client exchanges (forged then genuine replies, closed ports, no answers, unencodable packets) run with every log level on; non-trivial when an error was raised or a datagram emitted; oracle: no eight octets of the secret in a row in any output, notation-independent, and debug representations equal across secrets");
    cx.drive_opts("leak", cx.n(2_400, 100_000), 400, leak, |c, obs| {
        ensure!(c.auth.len() == 16, "bad case");
        check(c, cx.backend, obs)
    });
}

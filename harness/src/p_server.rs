//! C22-C25: the server, on loopback.

use crate::clock;
use crate::engine::{harness_error, hex, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, bytes, Mutation};
use crate::net::{self, bind, block_on, ip, local, send, steady, until, Call, Handler, Options, Outcome, Provider, SecretPlan, Shared, Srv, World};
use crate::refimpl as rf;
use proptest::collection::vec;
use proptest::prelude::*;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;
use tokio::sync::watch;

// ---------------------------------------------------------------- datagrams

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sign {
    Right,
    Wrong,
    Not,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Data {
    Packet { code: u8, id: u8, auth: B, attrs: Vec<(u8, B)>, sign: Sign, mutations: Vec<Mutation>, pad: B },
    Raw(B),
    Huge(u16, u8),
}

impl Data {
    pub fn bytes(&self, secret: &[u8]) -> Vec<u8> {
        match self {
            Data::Raw(b) => b.0.clone(),
            Data::Huge(n, x) => vec![*x; (*n as usize).min(65_000)],
            Data::Packet { code, id, auth, attrs, sign, mutations, pad } => {
                let a = gen::attrs_wire(attrs);
                let mut w = match sign {
                    Sign::Right => rf::signed(*code, *id, auth, &a, secret),
                    Sign::Wrong => rf::signed(*code, *id, auth, &a, &[secret, b"x"].concat()),
                    Sign::Not => rf::build(*code, *id, auth, &a),
                };
                w.extend(&pad.0);
                for m in mutations {
                    gen::mutate(&mut w, m);
                }
                w
            }
        }
    }
}

pub fn data() -> BoxedStrategy<Data> {
    let code = prop_oneof![4 => gen::code_of(&[1, 4, 12, 40, 43]), 1 => gen::any_code_octet()];
    let sign = prop_oneof![6 => Just(Sign::Right), 1 => Just(Sign::Wrong), 1 => Just(Sign::Not)];
    let at = prop_oneof![8 => gen::attrs(0..=4), 1 => gen::filled(1400..=1600), 1 => gen::filled(4000..=4096)];
    let muts = prop_oneof![3 => Just(vec![]), 1 => vec(gen::mutation(), 1..=2)];
    let pad = prop_oneof![5 => Just(B(vec![])), 1 => bytes(1..=40), 1 => (1400usize..=1600).prop_map(|n| B(vec![9; n]))];
    prop_oneof![
        20 => (code, gen::octet(), gen::auth(), at, sign, muts, pad)
            .prop_map(|(code, id, auth, attrs, sign, mutations, pad)| Data::Packet { code, id, auth, attrs, sign, mutations, pad }),
        2 => bytes(0..=60).prop_map(Data::Raw),
        1 => Just(Data::Raw(B(vec![]))),
        1 => (any::<u16>(), gen::octet()).prop_map(|(n, x)| Data::Huge(n, x)),
    ]
    .boxed()
}

fn secret_plan() -> BoxedStrategy<SecretPlan> {
    prop_oneof![
        6 => gen::secret().prop_map(SecretPlan::Secret),
        1 => Just(SecretPlan::Empty),
        1 => Just(SecretPlan::Fail),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
    Datagram(u8, Data),
    Secret(u8, SecretPlan),
    /// stopped and started again, with other settings perhaps
    Restart(Option<usize>, Option<bool>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Admission {
    skip: bool,
    #[serde(default)]
    family: net::Family,
    buffer: Option<usize>,
    peers: Vec<SecretPlan>,
    #[serde(default)]
    ports: Vec<net::Port>,
    events: Vec<Ev>,
}

/// What the handler must see of a datagram, if anything.
fn admitted(wire: &[u8], plan: &SecretPlan, skip: bool) -> Option<(rf::RefPacket, Vec<u8>)> {
    let SecretPlan::Secret(s) = plan else { return None };
    if s.is_empty() || !(skip || rf::is_authentic_request(wire, s)) {
        return None;
    }
    rf::parse(wire).ok().map(|p| (p, s.0.clone()))
}

fn same_view(c: &Call, p: &rf::RefPacket, secret: &[u8], remote: SocketAddr, server: SocketAddr) -> Result<(), String> {
    ensure!(c.remote == remote, "the handler is told the request came from {}, it came from {remote}", c.remote);
    ensure!(c.local == server, "the handler is told the server listens on {}, it listens on {server}", c.local);
    let code = if rf::ALL_CODES.contains(&p.code) { gen::lib_code(p.code) } else { radius::core::code::Code::Invalid };
    ensure!(c.code == code, "code {} is shown as {:?}", p.code, c.code);
    ensure!(c.id == p.id, "identifier {} is shown as {}", p.id, c.id);
    ensure!(c.auth[..] == p.auth[..], "authenticator {} is shown as {}", hex(&p.auth), hex(&c.auth));
    ensure!(c.secret == secret, "the secret is shown as {}", hex(&c.secret));
    ensure!(c.attrs == crate::p_dict::model_contents(&p.attrs), "the attributes differ from those sent");
    if let Some(w) = &c.wire {
        ensure!(*w == rf::attr_bytes(&p.attrs), "the attributes' order differs from the one sent");
    }
    Ok(())
}

async fn admission(c: &Admission, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::start(Options { buffer: c.buffer, skip: c.skip, family: c.family }).await?;
    let mut limit = c.buffer.unwrap_or(1500);
    let mut skip = c.skip;
    let mut peers = vec![];
    let mut plans = c.peers.clone();
    let mut replies = vec![0usize; plans.len()];
    for (i, p) in plans.iter().enumerate() {
        // two peers share an address and differ in their ports
        let port = c.ports.get(i).copied().unwrap_or_default();
        let s = w.bind_at([10, 255, 0][i / 2 % 3], port, peers.first().map(|s| local(s).port())).await?;
        w.secret(w.seen(&s), p.clone());
        peers.push(s);
    }
    let mut expected: Vec<(usize, rf::RefPacket, Vec<u8>)> = vec![];
    let mut backlog = 0;
    for ev in &c.events {
        match ev {
            Ev::Secret(i, p) => {
                let i = *i as usize % peers.len();
                w.sync().await?;
                plans[i] = p.clone();
                w.secret(w.seen(&peers[i]), p.clone());
            }
            Ev::Restart(b, s) => {
                w.sync().await?;
                w.restart(*b, *s).await?;
                limit = b.unwrap_or(limit);
                skip = s.unwrap_or(skip);
                obs.label("run again");
            }
            Ev::Datagram(i, d) => {
                let i = *i as usize % peers.len();
                let secret = match &plans[i] {
                    SecretPlan::Secret(s) => s.0.clone(),
                    _ => b"none".to_vec(),
                };
                let wire = d.bytes(&secret);
                // (not more than the server's socket holds)
                backlog += wire.len() + 800;
                if backlog > 70_000 {
                    w.sync().await?;
                    backlog = wire.len() + 800;
                }
                send(&peers[i], &wire, w.addr).await?;
                let seen = &wire[..wire.len().min(limit)];
                match admitted(seen, &plans[i], skip) {
                    None => {
                        obs.nontrivial();
                        obs.label("dropped");
                    }
                    Some((p, s)) => {
                        obs.label("handled");
                        expected.push((i, p, s));
                        w.wait_calls(expected.len(), &format!("an admissible request is not handled: {}", hex(seen))).await?;
                        let r = w.recv(&peers[i], "the handler's reply does not arrive").await?;
                        let (_, p, s) = &expected[expected.len() - 1];
                        let req = rf::build(p.code, p.id, &p.auth, &[]);
                        ensure!(rf::is_authentic_response(&r, &req, s), "the reply is not authentic for the request");
                        replies[i] += 1;
                    }
                }
            }
        }
    }
    w.sync().await?;
    let calls = w.calls();
    for (c, (i, p, s)) in calls.iter().zip(&expected) {
        same_view(c, p, s, w.seen(&peers[*i]), w.listen)?;
    }
    ensure!(calls.len() <= expected.len(), "the handler was called {} times, {} were due; extra: code {:?} from {}", calls.len(), expected.len(), calls[expected.len()].code, calls[expected.len()].remote);
    for s in &peers {
        let extra = w.drain(s);
        ensure!(extra.is_empty(), "a dropped datagram was answered: {}", hex(&extra[0]));
    }
    ensure!(!w.task.is_finished(), "the run loop ended");
    Ok(())
}

fn buffer() -> BoxedStrategy<Option<usize>> {
    prop_oneof![8 => Just(None), 4 => prop::sample::select(vec![Some(20), Some(64), Some(512), Some(4096), Some(65_535)]), 1 => any::<u64>().prop_map(|x| crate::lits::within(x, 20, 65_535))].boxed()
}

pub fn c22(cx: &Cx) {
    cx.rule("admission: 1-4 peers with secrets, empty secrets or provider errors (also changing over time), 1-8 datagrams: signed, unsigned, mis-signed, mutated, padded, oversized, empty and random, validation on or off, several buffer sizes, the server stopped, changed and run again in between; non-trivial when a datagram must be dropped; oracle: independent authenticity and parsing rules, exact list of handler calls and replies");
    cx.drive_opts(
        "admission",
        cx.n(6_000, 120_000),
        300,
        || {
            let ev = prop_oneof![8 => (gen::octet(), data()).prop_map(|(i, d)| Ev::Datagram(i, d)), 1 => (gen::octet(), secret_plan()).prop_map(|(i, p)| Ev::Secret(i, p)),
                1 => (buffer(), prop::option::of(any::<bool>())).prop_map(|(b, s)| Ev::Restart(b, s))];
            (prop::bool::weighted(0.2), buffer(), net::family(), (vec(secret_plan(), 1..=4), vec(net::port(), 4)), prop_oneof![15 => vec(ev.clone(), 1..=8), 1 => vec(ev, 20..=80)]).prop_map(|(skip, buffer, family, (peers, ports), events)| Admission { skip, buffer, family, peers, ports, events })
        },
        |c, obs| steady_obs(obs, |o| block_on(admission(c, o))),
    );
    cx.rule("burst: up to 40 datagrams of up to five peers without waiting in between, on one or four threads; oracle: the same rules, each peer's handler calls as a set");
    cx.drive_opts(
        "burst",
        cx.n(1_600, 30_000),
        200,
        || {
            (prop::bool::weighted(0.2), any::<bool>(), net::family(), vec(secret_plan(), 1..=5), prop_oneof![3 => vec((gen::octet(), data()), 2..=12), 1 => vec((gen::octet(), data()), 20..=40)])
                .prop_map(|(skip, threads, family, peers, datagrams)| Burst { skip, threads, family, peers, datagrams })
        },
        |c, obs| steady_obs(obs, |o| if c.threads { net::block_on_threads(4, burst(c, o)) } else { block_on(burst(c, o)) }),
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Burst {
    skip: bool,
    #[serde(default)]
    family: net::Family,
    threads: bool,
    peers: Vec<SecretPlan>,
    datagrams: Vec<(u8, Data)>,
}

async fn burst(c: &Burst, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::start(Options { buffer: Some(4096), skip: c.skip, family: c.family }).await?;
    *w.shared.otherwise.lock().unwrap() = None;
    let mut peers = vec![];
    for (i, p) in c.peers.iter().enumerate() {
        let s = w.bind(10 + (i as u8 / 2), 0).await?;
        w.secret(w.seen(&s), p.clone());
        peers.push(s);
    }
    let mut due: Vec<Vec<(rf::RefPacket, Vec<u8>)>> = vec![vec![]; peers.len()];
    let mut total = 0;
    let mut octets = 0;
    for (i, d) in &c.datagrams {
        let i = *i as usize % peers.len();
        let secret = match &c.peers[i] {
            SecretPlan::Secret(s) => s.0.clone(),
            _ => b"none".to_vec(),
        };
        let wire = d.bytes(&secret);
        octets += wire.len() + 800;
        if wire.len() > 9000 || octets > 150_000 {
            // more than a socket surely holds
            continue;
        }
        match admitted(&wire[..wire.len().min(4096)], &c.peers[i], c.skip) {
            None => obs.label("dropped"),
            // one of two with the same identifier may have to be dropped
            Some((p, _)) if due[i].iter().any(|(q, _)| q.id == p.id) => continue,
            Some((p, s)) => {
                obs.label("handled");
                due[i].push((p, s));
                total += 1;
            }
        }
        send(&peers[i], &wire, w.addr).await?;
    }
    if total > 1 {
        obs.nontrivial();
    }
    w.wait_calls(total, &format!("of {} datagrams that came together {total} must be handled, and not all are", c.datagrams.len())).await?;
    w.sync().await?;
    let calls = w.calls();
    ensure!(calls.len() == total, "{} handler calls for {total} requests", calls.len());
    for (i, s) in peers.iter().enumerate() {
        for (p, secret) in &due[i] {
            let mine: Vec<_> = calls.iter().filter(|k| k.remote == w.seen(s) && k.id == p.id).collect();
            ensure!(mine.len() == 1, "the request with identifier {} from {} is handled {} times", p.id, w.seen(s), mine.len());
            same_view(mine[0], p, secret, w.seen(s), w.listen)?;
        }
        let mut open: Vec<_> = due[i].iter().map(|(p, k)| (rf::build(p.code, p.id, &p.auth, &[]), k)).collect();
        for _ in 0..open.len() {
            let r = w.recv(s, "a handler's reply does not arrive").await?;
            let at = open.iter().position(|(q, k)| q[1] == r[1] && rf::is_authentic_response(&r, q, k)).ok_or("a reply that answers no request")?;
            open.swap_remove(at);
        }
        let extra = w.drain(s);
        ensure!(extra.is_empty(), "a dropped datagram was answered: {}", hex(&extra[0]));
    }
    ensure!(!w.task.is_finished(), "the run loop ended");
    Ok(())
}

/// `steady` for checks that observe.
pub fn steady_obs(obs: &mut Obs, f: impl Fn(&mut Obs) -> Result<(), String>) -> Result<(), String> {
    let cell = std::cell::RefCell::new(obs);
    steady(|| {
        let mut o = cell.borrow_mut();
        **o = Obs::default();
        f(&mut o)
    })
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// peer, identifier, code, marker
    Send(u8, u8, u8, B),
    /// a datagram of the same peer and identifier that must be refused
    Forged(u8, u8),
    Finish(u8, Outcome),
    /// same peer and identifier, twice in a row
    Twice(u8, u8),
    /// so many milliseconds (as a power of two) go by
    Pass(u8),
    /// the run is stopped and the same server is run again
    Rerun,
}

const IDS: [u8; 5] = [3, 23, 0, 255, 2];

fn step() -> BoxedStrategy<Step> {
    let out = prop_oneof![2 => Just(Outcome::Reply), 1 => Just(Outcome::Quiet), 1 => Just(Outcome::Error), 1 => Just(Outcome::Panic)];
    prop_oneof![
        8 => (gen::octet(), gen::octet(), gen::code_of(&[1, 1, 12, 4, 40, 43]), bytes(0..=4)).prop_map(|(p, i, c, m)| Step::Send(p, i, c, m)),
        1 => (gen::octet(), gen::octet()).prop_map(|(p, i)| Step::Forged(p, i)),
        5 => (gen::octet(), out).prop_map(|(k, o)| Step::Finish(k, o)),
        2 => (gen::octet(), gen::octet()).prop_map(|(p, i)| Step::Twice(p, i)),
        1 => (4u8..=33).prop_map(Step::Pass),
        1 => Just(Step::Rerun),
    ]
    .boxed()
}

/// Two to the power of `e` milliseconds go by, for the server as for the check.
pub async fn pass(e: u8) {
    clock::pass(Duration::from_millis(1 << e.min(33)));
    for _ in 0..8 {
        tokio::task::yield_now().await;
    }
}

struct Held {
    peer: usize,
    id: u8,
    gate: watch::Sender<Option<Outcome>>,
    call: usize,
}

fn request(code: u8, id: u8, n: u32, marker: &[u8], secret: &[u8]) -> Vec<u8> {
    let mut auth = [0x5a; 16];
    auth[..4].copy_from_slice(&n.to_be_bytes());
    rf::signed(code, id, &auth, &rf::attr_bytes(&[(33, [&n.to_be_bytes()[..], marker].concat())]), secret)
}

/// Peers on the same address with different ports, and on different addresses with the same port; the decimal form of
/// one port starts with that of another.
async fn cast(w: &World) -> Result<Vec<UdpSocket>, String> {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    for _ in 0..40 {
        let q = 2000 + NEXT.fetch_add(37, Ordering::Relaxed) % 3200;
        let a = w.bind(10, q as u16).await;
        let b = w.bind(10, (q * 10 + 2) as u16).await;
        // (on IPv6 there are no two addresses)
        let other = if w.listen.is_ipv6() && w.addr.is_ipv6() { 1 } else { 0 };
        let c = w.bind(11, (q + other) as u16).await;
        let d = w.bind(110, (q + 20 * other) as u16).await;
        // and neighbouring ports, and such that are alike in their lower octet
        let e = w.bind(10, (q + 1 + other) as u16).await;
        let f = w.bind(10, (q + 256) as u16).await;
        if let (Ok(a), Ok(b), Ok(c), Ok(d), Ok(e), Ok(f)) = (a, b, c, d, e, f) {
            return Ok(vec![a, b, c, d, e, f]);
        }
    }
    Err("harness sockets: no free ports".to_owned())
}

async fn one_at_a_time(family: net::Family, steps: &[Step], obs: &mut Obs) -> Result<(), String> {
    let mut w = World::start(Options { family, ..Options::default() }).await?;
    let mut peers = cast(&w).await?;
    if steps.len() % 2 == 0 {
        peers.truncate(4);
    }
    let secret = b"shared".to_vec();
    for p in &peers {
        w.secret(w.seen(p), SecretPlan::Secret(B(secret.clone())));
    }
    let mut held: Vec<Held> = vec![];
    let mut used: HashSet<(usize, u8)> = HashSet::new();
    let mut calls = 0usize;
    let mut n = 0u32;
    let mut replies = vec![0usize; peers.len()];
    for st in steps {
        match st {
            Step::Send(p, i, ..) | Step::Twice(p, i) => {
                let (p, id) = (*p as usize % peers.len(), IDS[*i as usize % IDS.len()]);
                let (code, marker, times) = match st {
                    Step::Send(_, _, c, m) => (*c, m.0.clone(), 1),
                    _ => (1, vec![], 2),
                };
                used.insert((p, id));
                for _ in 0..times {
                    n += 1;
                    let addr = w.seen(&peers[p]);
                    let wire = request(code, id, n, &marker, &secret);
                    if held.iter().any(|h| h.peer == p && h.id == id) {
                        obs.nontrivial();
                        obs.label("duplicate of an outstanding request");
                        send(&peers[p], &wire, w.addr).await?;
                        w.sync().await?;
                        ensure!(w.count() == calls, "a request from {addr} with identifier {id} is handled while one with the same identifier is outstanding");
                    } else {
                        let gate = w.gate(addr, id);
                        send(&peers[p], &wire, w.addr).await?;
                        let e = w.wait_calls(calls + 1, &format!("a request from {addr} with identifier {id} is not handled although none of that address, port and identifier is outstanding ({} others are)", held.len())).await;
                        if let Err(e) = e {
                            // the handler of an earlier one has ended; give a server that tidies up later a fair chance
                            let t0 = Instant::now();
                            let mut ok = false;
                            for k in 0..50 {
                                if k > 3 && t0.elapsed() > net::patience() {
                                    break;
                                }
                                send(&peers[p], &wire, w.addr).await?;
                                w.churn().await;
                                if w.count() > calls {
                                    ok = true;
                                    break;
                                }
                            }
                            ensure!(ok, "{e}");
                        }
                        let c = w.calls();
                        ensure!(c.len() == calls + 1, "{} handler calls for one request", c.len() - calls);
                        ensure!(c[calls].remote == addr && c[calls].id == id, "the handler sees {} and identifier {}, sent were {addr} and {id}", c[calls].remote, c[calls].id);
                        held.push(Held { peer: p, id, gate, call: calls });
                        calls += 1;
                    }
                }
            }
            Step::Pass(e) => {
                if !held.is_empty() {
                    obs.label("requests outstanding for long");
                }
                pass(*e).await;
                w.sync().await?;
                ensure!(w.count() == calls, "a handler is called although nothing was sent");
            }
            Step::Rerun => {
                if !held.is_empty() {
                    obs.label("requests outstanding over the end of a run");
                }
                w.restart(None, None).await?;
                w.sync().await?;
                ensure!(w.count() == calls, "a handler is called although nothing was sent");
            }
            Step::Forged(p, i) => {
                let (p, id) = (*p as usize % peers.len(), IDS[*i as usize % IDS.len()]);
                n += 1;
                let mut wire = request(4, id, n, b"", &secret);
                wire[7] ^= 1;
                send(&peers[p], &wire, w.addr).await?;
                w.sync().await?;
                ensure!(w.count() == calls, "a forged request is handled");
            }
            Step::Finish(k, o) => {
                if held.is_empty() {
                    continue;
                }
                let h = held.remove(*k as usize % held.len());
                obs.label(format!("ended with {o:?}"));
                let _ = h.gate.send(Some(*o));
                until("a handler does not end", || w.calls().get(h.call).is_some_and(|c| c.ended)).await?;
                if *o == Outcome::Reply {
                    replies[h.peer] += 1;
                }
                w.sync().await?;
                ensure!(w.count() == calls, "a handler is called although nothing was sent");
            }
        }
    }
    // everything ends, and every identifier is free again
    for h in held.drain(..) {
        let _ = h.gate.send(Some(Outcome::Quiet));
        until("a handler does not end", || w.calls().get(h.call).is_some_and(|c| c.ended)).await?;
    }
    w.sync().await?;
    let mut list: Vec<_> = used.into_iter().collect();
    list.sort();
    for (p, id) in list {
        n += 1;
        let addr = w.seen(&peers[p]);
        w.unplan(addr, id);
        w.plan(addr, id, Outcome::Quiet);
        send(&peers[p], &request(1, id, n, b"", &secret), w.addr).await?;
        w.wait_calls(calls + 1, &format!("after all handlers ended, a request from {addr} with identifier {id} is not handled")).await?;
        calls += 1;
        w.sync().await?;
        ensure!(w.count() == calls, "more handler calls than requests");
    }
    for (p, s) in peers.iter().enumerate() {
        let got = w.drain(s).len();
        ensure!(got == replies[p], "{got} replies instead of {}", replies[p]);
    }
    Ok(())
}

// -- very many outstanding at once

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sweep {
    /// a request of each of these identifiers
    Send { peer: u8, first: u8, count: u16 },
    /// the handlers of every n-th of these end
    Finish { peer: u8, first: u8, count: u16, every: u8, how: Outcome },
}

fn sweep() -> BoxedStrategy<Sweep> {
    let out = prop_oneof![Just(Outcome::Reply), Just(Outcome::Quiet), Just(Outcome::Error), Just(Outcome::Panic)];
    let count = || prop_oneof![2 => Just(256u16), 1 => 1u16..=256];
    prop_oneof![
        3 => (gen::octet(), gen::octet(), count()).prop_map(|(peer, first, count)| Sweep::Send { peer, first, count }),
        2 => (gen::octet(), gen::octet(), count(), 1u8..=5, out).prop_map(|(peer, first, count, every, how)| Sweep::Finish { peer, first, count, every, how }),
    ]
    .boxed()
}

async fn many(family: net::Family, sweeps: &[Sweep], obs: &mut Obs) -> Result<(), String> {
    let mut w = World::start(Options { family, ..Options::default() }).await?;
    let peers = cast(&w).await?;
    let secret = b"shared".to_vec();
    for p in &peers {
        w.secret(w.seen(p), SecretPlan::Secret(B(secret.clone())));
    }
    let mut held: std::collections::BTreeMap<(usize, u8), (watch::Sender<Option<Outcome>>, usize)> = Default::default();
    let mut calls = 0;
    let mut n = 0;
    let mut most = 0;
    let mut dups = 0;
    for sw in sweeps {
        match sw {
            Sweep::Send { peer, first, count } => {
                let k = *peer as usize % peers.len();
                let addr = w.seen(&peers[k]);
                let ids: Vec<u8> = (0..*count).map(|i| first.wrapping_add(i as u8)).collect();
                for chunk in ids.chunks(32) {
                    let mut new = vec![];
                    let mut wires = vec![];
                    for id in chunk {
                        n += 1;
                        let wire = request(1, *id, n, b"", &secret);
                        if !held.contains_key(&(k, *id)) && !new.contains(id) {
                            let g = w.gate(addr, *id);
                            held.insert((k, *id), (g, usize::MAX));
                            new.push(*id);
                        } else {
                            dups += 1;
                        }
                        send(&peers[k], &wire, w.addr).await?;
                        wires.push(wire);
                    }
                    w.wait_calls(calls + new.len(), &format!("requests from {addr} under identifiers that are not outstanding are not handled, with {} outstanding", held.len() - new.len())).await?;
                    w.sync().await?;
                    let all = w.calls();
                    let started = &all[calls..];
                    for c in started {
                        ensure!(new.contains(&c.id) && c.remote == addr, "a request from {} with identifier {} is handled while one with the same identifier is outstanding ({} are)", c.remote, c.id, held.len());
                    }
                    ensure!(started.len() == new.len(), "{} handlers run for {} requests", started.len(), new.len());
                    for (j, c) in started.iter().enumerate() {
                        if let Some(h) = held.get_mut(&(k, c.id)) {
                            ensure!(h.1 == usize::MAX, "identifier {} is handled twice", c.id);
                            h.1 = calls + j;
                        }
                    }
                    calls = all.len();
                }
                most = most.max(held.len());
            }
            Sweep::Finish { peer, first, count, every, how } => {
                let k = *peer as usize % peers.len();
                let mut ended = vec![];
                for i in (0..*count).step_by((*every).max(1) as usize) {
                    if let Some((g, c)) = held.remove(&(k, first.wrapping_add(i as u8))) {
                        let _ = g.send(Some(*how));
                        ended.push(c);
                    }
                }
                until("handlers do not end", || {
                    let l = w.shared.calls.lock().unwrap();
                    let mine: Vec<&Call> = l.iter().filter(|c| peers.iter().any(|p| w.seen(p) == c.remote)).collect();
                    ended.iter().all(|i| mine[*i].ended)
                })
                .await?;
                w.sync().await?;
                ensure!(w.count() == calls, "a handler is called although nothing was sent");
                // (replies are not what this looks at)
                w.drain(&peers[k]);
            }
        }
    }
    if dups > 0 {
        obs.nontrivial();
        obs.label("duplicates of outstanding requests");
    }
    obs.label(format!("up to {} outstanding", [16, 64, 256, 512, 1024].iter().find(|x| most <= **x).unwrap_or(&1024)));
    Ok(())
}

// -- simultaneous duplicates on several threads

struct Together {
    shared: Arc<Shared>,
    waiting: AtomicUsize,
    round: AtomicUsize,
    /// how many handlers run now, and how many did at once, per address and identifier
    running: std::sync::Mutex<std::collections::HashMap<(SocketAddr, u8), (usize, usize)>>,
}

struct TogetherProvider(Arc<Together>);

impl SecretProvider for TogetherProvider {
    fn fetch_secret(&self, _: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        // let the tasks of one round go on together, as far as there are threads for them
        let t = &self.0;
        let want = 4 * (t.round.load(Ordering::SeqCst) + 1);
        t.waiting.fetch_add(1, Ordering::SeqCst);
        let t0 = Instant::now();
        while t.waiting.load(Ordering::SeqCst) < want && t0.elapsed() < Duration::from_micros(1500) {
            std::hint::spin_loop();
        }
        Ok(b"shared".to_vec())
    }
}

struct TogetherHandler(Arc<Together>);

#[async_trait::async_trait]
impl RequestHandler<(), String> for TogetherHandler {
    async fn handle_radius_request(&self, _: &UdpSocket, request: &radius::core::request::Request) -> Result<(), String> {
        let key = (request.get_remote_addr(), request.get_packet().get_identifier());
        self.0.shared.calls.lock().unwrap().push(net::view(request));
        {
            let mut m = self.0.running.lock().unwrap();
            let r = m.entry(key).or_default();
            r.0 += 1;
            r.1 = r.1.max(r.0);
        }
        let g = self.0.shared.plans.lock().unwrap().get(&key).and_then(|q| q.front()).and_then(|p| p.gate.clone());
        if let Some(mut g) = g {
            while g.borrow().is_none() {
                if g.changed().await.is_err() {
                    break;
                }
            }
        }
        if let Some(r) = self.0.running.lock().unwrap().get_mut(&key) {
            r.0 -= 1;
        }
        Ok(())
    }
}

fn together(rounds: &[u8], obs: &mut Obs) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(5).enable_all().build().unwrap_or_else(|e| harness_error(&e.to_string()));
    let r = rt.block_on(async {
        let netw = net::own_net();
        let t = Arc::new(Together { shared: Arc::new(Shared::default()), waiting: AtomicUsize::new(0), round: AtomicUsize::new(0), running: Default::default() });
        let mut srv: Server<(), String, _, _> =
            Server::listen(&ip(netw, 1).to_string(), 0, TogetherHandler(t.clone()), TogetherProvider(t.clone())).await.map_err(|e| format!("the server cannot listen: {e}"))?;
        let addr = srv.get_listen_address().map_err(|e| e.to_string())?;
        let task = tokio::spawn(async move { srv.run(std::future::pending::<()>()).await });
        let peer = bind(ip(netw, 10), 0).await?;
        let me = local(&peer);
        for (k, id) in rounds.iter().enumerate() {
            t.round.store(k, Ordering::SeqCst);
            t.waiting.store(4 * k, Ordering::SeqCst);
            let (tx, rx) = watch::channel(None);
            t.shared.plans.lock().unwrap().insert((me, *id), [net::Plan { gate: Some(rx), outcome: Outcome::Quiet }].into());
            t.shared.calls.lock().unwrap().clear();
            for j in 0..4u32 {
                // different requests with the same identifier
                send(&peer, &request(1, *id, k as u32 * 4 + j, b"", b"shared"), addr).await?;
            }
            until("none of four simultaneous requests is handled", || !t.shared.calls.lock().unwrap().is_empty()).await?;
            until("not all datagrams are looked at", || t.waiting.load(Ordering::SeqCst) >= 4 * (k + 1)).await?;
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            tokio::time::sleep(Duration::from_micros(200)).await;
            // (one that is handled after another has ended, because its thread stood still, is no error)
            let n = t.running.lock().unwrap().values().map(|r| r.1).max().unwrap_or_default();
            let _ = tx.send(Some(Outcome::Quiet));
            ensure!(n <= 1, "{n} handlers run at the same time for one address, port and identifier");
            // the next round may use the same identifier, after this one is over
            until("the server keeps references to a finished request", || tx.receiver_count() <= 1).await?;
            tokio::time::sleep(Duration::from_micros(300)).await;
        }
        task.abort();
        Ok(())
    });
    rt.shutdown_background();
    obs.nontrivial();
    r
}

pub fn c23(cx: &Cx) {
    cx.rule("outstanding: histories of up to 16 sends (4 peers that differ in address or port only, 5 identifiers), forged duplicates and handler endings (reply, quiet, error, panic), the run stopped and begun again; handlers wait for the harness; non-trivial when a duplicate of an outstanding request is sent; oracle: model of the outstanding set, compared after every step");
    cx.drive_opts("outstanding", cx.n(4_000, 80_000), 200, || (net::family(), vec(step(), 1..=16)), |(f, c): &(net::Family, Vec<Step>), obs| steady_obs(obs, |o| block_on(one_at_a_time(*f, c, o))));
    cx.rule("many: sweeps over up to 256 identifiers of four peers, hundreds of handlers unfinished at once, every n-th of them ended; oracle: model of the outstanding set");
    cx.drive_opts("many", cx.n(120, 3_000), 60, || (net::family(), vec(sweep(), 1..=8)), |(f, c): &(net::Family, Vec<Sweep>), obs| steady_obs(obs, |o| block_on(many(*f, c, o))));
    cx.rule("together: four requests with one identifier reach a five-threaded server at the same moment, round after round; oracle: exactly one handler");
    cx.drive_opts("together", cx.n(16, 200), 0, || vec(gen::octet().prop_map(|x| x % 4), 60..=60), |c: &Vec<u8>, obs| steady_obs(obs, |o| together(c, o)));
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hostile {
    Datagram(u8, Data),
    Secret(u8, SecretPlan),
    /// a valid request whose handler ends like this
    Handler(u8, u8, Outcome),
    /// a valid request whose handler never ends
    Stuck(u8, u8),
    /// a request from a peer that is gone when the reply comes
    Gone(u8),
    Burst(u8, Data),
    /// a valid request from a peer never seen before
    Fresh(u8, u8),
    /// so many milliseconds (as a power of two) go by
    Pass(u8),
}

fn hostile() -> BoxedStrategy<Hostile> {
    let out = prop_oneof![Just(Outcome::Quiet), Just(Outcome::Error), Just(Outcome::Panic), Just(Outcome::Reply)];
    let plan = prop_oneof![2 => secret_plan(), 1 => Just(SecretPlan::Panic)];
    prop_oneof![
        4 => (gen::octet(), data()).prop_map(|(i, d)| Hostile::Datagram(i, d)),
        1 => (gen::octet(), plan).prop_map(|(i, p)| Hostile::Secret(i, p)),
        3 => (gen::octet(), gen::octet(), out).prop_map(|(p, i, o)| Hostile::Handler(p, i, o)),
        2 => (gen::octet(), gen::octet()).prop_map(|(p, i)| Hostile::Stuck(p, i)),
        1 => gen::octet().prop_map(Hostile::Gone),
        1 => (1u8..=12, data()).prop_map(|(n, d)| Hostile::Burst(n, d)),
        2 => (gen::octet(), gen::code_of(&[1, 4, 12, 40, 43])).prop_map(|(i, c)| Hostile::Fresh(i, c)),
        1 => (4u8..=33).prop_map(Hostile::Pass),
    ]
    .boxed()
}

/// A valid request must be handled and its reply arrive.
async fn served(w: &World, s: &UdpSocket, code: u8, id: u8, n: u32, secret: &[u8]) -> Result<(), String> {
    let wire = request(code, id, n, b"", secret);
    send(s, &wire, w.addr).await?;
    loop {
        let r = w.recv(s, &format!("a valid request (code {code}, identifier {id}) gets no reply; run loop {}", if w.task.is_finished() { "ended" } else { "running" })).await?;
        if rf::is_authentic_response(&r, &wire, secret) {
            return Ok(());
        }
    }
}

async fn resilience(steps: &[Hostile], skip: bool, family: net::Family, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::start(Options { buffer: None, skip, family }).await?;
    let mut peers = vec![];
    let mut plans = vec![];
    for i in 0..3u8 {
        let s = w.bind(10 + i, 0).await?;
        let p = SecretPlan::Secret(B(vec![b's', i]));
        w.secret(w.seen(&s), p.clone());
        plans.push(p);
        peers.push(s);
    }
    let mut stuck: Vec<(SocketAddr, u8, watch::Sender<Option<Outcome>>)> = vec![];
    let mut n = 0u32;
    let mut fresh = 100u8;
    for st in steps {
        match st {
            Hostile::Datagram(i, d) | Hostile::Burst(i, d) => {
                let k = *i as usize % peers.len();
                let times = if matches!(st, Hostile::Burst(..)) { *i as usize } else { 1 };
                let secret = match &plans[k] {
                    SecretPlan::Secret(s) => s.0.clone(),
                    _ => vec![1],
                };
                let wire = d.bytes(&secret);
                for t in 0..times {
                    send(&peers[k], &wire, w.addr).await?;
                    if t % 3 == 2 || wire.len() > 5000 {
                        w.sync().await?;
                    }
                }
                obs.nontrivial();
            }
            Hostile::Secret(i, p) => {
                let i = *i as usize % peers.len();
                w.sync().await?;
                w.secret(w.seen(&peers[i]), p.clone());
                plans[i] = p.clone();
            }
            Hostile::Handler(p, id, o) => {
                let p = *p as usize % peers.len();
                if let SecretPlan::Secret(s) = &plans[p] {
                    let a = w.seen(&peers[p]);
                    if stuck.iter().any(|(x, i, _)| *x == a && i == id) {
                        continue;
                    }
                    w.unplan(a, *id);
                    w.plan(a, *id, *o);
                    n += 1;
                    let before = w.count();
                    send(&peers[p], &request(1, *id, n, b"", s), w.addr).await?;
                    w.wait_calls(before + 1, "a valid request is not handled").await?;
                    obs.label(format!("handler ends with {o:?}"));
                    obs.nontrivial();
                }
            }
            Hostile::Stuck(p, id) => {
                let p = *p as usize % peers.len();
                if let SecretPlan::Secret(s) = &plans[p] {
                    let a = w.seen(&peers[p]);
                    if stuck.iter().any(|(x, i, _)| *x == a && i == id) {
                        continue;
                    }
                    w.unplan(a, *id);
                    stuck.push((a, *id, w.gate(a, *id)));
                    n += 1;
                    let before = w.count();
                    send(&peers[p], &request(1, *id, n, b"", s), w.addr).await?;
                    w.wait_calls(before + 1, &format!("a valid request is not handled with {} others unfinished", stuck.len() - 1)).await?;
                    obs.label("unfinished handler");
                    obs.nontrivial();
                }
            }
            Hostile::Gone(id) => {
                let s = w.bind(90, 0).await?;
                let a = w.seen(&s);
                w.secret(a, SecretPlan::Secret(B(b"gone".to_vec())));
                let g = w.gate(a, *id);
                n += 1;
                let before = w.count();
                send(&s, &request(1, *id, n, b"", b"gone"), w.addr).await?;
                w.wait_calls(before + 1, "a valid request is not handled").await?;
                drop(s);
                let _ = g.send(Some(Outcome::Reply));
                obs.label("peer gone before the reply");
                obs.nontrivial();
            }
            Hostile::Pass(e) => {
                pass(*e).await;
                obs.label("time goes by");
            }
            Hostile::Fresh(id, code) => {
                fresh = fresh.wrapping_add(1).clamp(100, 240);
                let s = w.bind(fresh, 0).await?;
                w.secret(w.seen(&s), SecretPlan::Secret(B(b"fresh".to_vec())));
                n += 1;
                served(&w, &s, *code, *id, n, b"fresh").await?;
            }
        }
        w.sync().await.map_err(|e| format!("{e} after {st:?}"))?;
        ensure!(!w.task.is_finished(), "the run loop ended after {st:?}");
    }
    // the peers themselves are still served, under identifiers of theirs that are not outstanding
    for (i, s) in peers.iter().enumerate() {
        let a = w.seen(s);
        w.secret(a, SecretPlan::Secret(B(b"again".to_vec())));
        for id in [0u8, 1, 77] {
            if !stuck.iter().any(|(x, k, _)| *x == a && *k == id) {
                w.unplan(a, id);
                n += 1;
                served(&w, s, 1, id, n, b"again").await.map_err(|e| format!("{e} (peer {i}, at the end)"))?;
            }
        }
    }
    // and unfinished handlers finish when they can
    let before = w.calls().iter().filter(|c| c.ended).count();
    let k = stuck.len();
    for (_, _, g) in &stuck {
        let _ = g.send(Some(Outcome::Quiet));
    }
    until("unfinished handlers do not end when let", || w.calls().iter().filter(|c| c.ended).count() >= before + k).await?;
    Ok(())
}

async fn crowd(peers: u8, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::start(Options::default()).await?;
    let mut gates = vec![];
    let mut n = 0;
    for k in 0..peers {
        let s = w.bind(20 + k, 0).await?;
        let a = w.seen(&s);
        w.secret(a, SecretPlan::Secret(B(b"crowd".to_vec())));
        for id in 0..=255u8 {
            gates.push(w.gate(a, id));
            n += 1;
            send(&s, &request(1, id, n, b"", b"crowd"), w.addr).await?;
            if id % 16 == 15 {
                w.wait_calls(n as usize, &format!("a request is not handled with {n} handlers unfinished")).await?;
            }
        }
        w.sync().await.map_err(|e| format!("{e} with {n} handlers unfinished"))?;
    }
    obs.nontrivial();
    obs.label(format!("{n} unfinished handlers at once"));
    drop(gates);
    Ok(())
}

/// One server over thousands of events, for what adds up.
async fn endurance(seed: u64, events: usize, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::start(Options::default()).await?;
    let mut rng = net::Mix(seed);
    let mut peers = vec![];
    for i in 0..4u8 {
        let s = w.bind(10 + i / 2, 0).await?;
        w.secret(w.seen(&s), SecretPlan::Secret(B(vec![b's', i])));
        peers.push(s);
    }
    let bad = w.bind(40, 0).await?;
    let mut n = 0u32;
    let mut calls = 0;
    let mut handled = 0;
    let mut next_id = [0u8; 4];
    for k in 0..events {
        let p = rng.below(peers.len());
        let a = w.seen(&peers[p]);
        let secret = [b's', p as u8];
        // (so that a handler that is just ending is not in the way)
        next_id[p] = next_id[p].wrapping_add(1);
        let id = next_id[p];
        match rng.below(16) {
            0..=6 => {
                n += 1;
                served(&w, &peers[p], [1, 4, 12, 40, 43][rng.below(5)], id, n, &secret).await.map_err(|e| format!("{e}, as event {k}"))?;
                calls += 1;
                handled += 1;
            }
            7..=11 => {
                let o = [Outcome::Error, Outcome::Panic, Outcome::Quiet][rng.below(3)];
                w.plan(a, id, o);
                n += 1;
                send(&peers[p], &request(1, id, n, b"", &secret), w.addr).await?;
                calls += 1;
                until(&format!("a valid request is not handled to its end, as event {k}"), || {
                    let l = w.shared.calls.lock().unwrap();
                    l.len() >= calls && l.iter().rev().take(4).all(|c| c.ended)
                })
                .await?;
            }
            12 => {
                let mut wire = request(4, id, n, b"", &secret);
                wire[6] ^= 0x40;
                send(&peers[p], &wire, w.addr).await?;
            }
            13 => {
                let mut junk: Vec<u8> = (0..rng.below(60)).map(|_| rng.next() as u8).collect();
                if let Some(c) = junk.first_mut() {
                    *c = 4;
                }
                send(&peers[p], &junk, w.addr).await?;
            }
            14 => {
                w.secret(w.seen(&bad), [SecretPlan::Fail, SecretPlan::Empty, SecretPlan::Panic][rng.below(3)].clone());
                send(&bad, &request(1, id, n, b"", b"x"), w.addr).await?;
            }
            _ => {
                let mut wire = request(1, id, n, b"", &secret);
                let l = wire.len();
                wire[l - 1 - rng.below(4)] = 0;
                wire[21] = rng.below(3) as u8;
                send(&peers[p], &wire, w.addr).await?;
            }
        }
        if k % 512 == 0 {
            w.sync().await.map_err(|e| format!("{e}, after {k} events"))?;
            // (the sentinel's)
            calls += 2;
        }
        ensure!(!w.task.is_finished(), "the run loop ended after {k} events");
    }
    obs.nontrivial();
    obs.label(format!("{} thousand requests answered by one server", handled / 1000));
    Ok(())
}

struct Terse;

#[async_trait::async_trait]
impl RequestHandler<(), String> for Terse {
    async fn handle_radius_request(&self, conn: &UdpSocket, request: &radius::core::request::Request) -> Result<(), String> {
        let p = request.get_packet();
        match p.lookup(33).map(|a| a.encode_bytes()).unwrap_or_default().first() {
            Some(1) => Err("no".to_owned()),
            Some(2) => panic!("no"),
            _ => {
                let r = p.make_response_packet(gen::lib_code(2)).encode().map_err(|e| e.to_string())?;
                conn.send_to(&r, request.get_remote_addr()).await.map_err(|e| e.to_string())?;
                Ok(())
            }
        }
    }
}

/// Windows of requests and of datagrams to be dropped, one after the other.
async fn haul(seed: u64, windows: usize, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let mut s = Server::listen(&ip(netw, 1).to_string(), 0, Terse, crate::p_client::OneSecret(b"haul".to_vec())).await.map_err(|e| format!("the server cannot listen: {e}"))?;
    let to = s.get_listen_address().map_err(|e| e.to_string())?;
    let task = tokio::spawn(async move { s.run(std::future::pending::<()>()).await });
    let mut rng = net::Mix(seed);
    let mut peers = vec![];
    for k in 0..8 {
        peers.push(bind(ip(netw, 10 + k), 0).await?);
    }
    let mut forged = rf::signed(4, 9, &[0; 16], &[], b"another");
    forged.extend([0; 3]);
    let mut buf = vec![0; 5000];
    let mut id = 0u8;
    for w in 0..windows {
        let p = &peers[rng.below(peers.len())];
        let mut waiting = std::collections::BTreeSet::new();
        for k in 0..32 {
            id = id.wrapping_add(1);
            let how = if k % 8 == 3 { 1 + rng.below(2) as u8 } else { 0 };
            let wire = rf::build(1, id, &[w as u8; 16], &[33, 3, how]);
            p.send_to(&wire, to).await.map_err(|e| format!("harness send: {e}"))?;
            if how == 0 {
                waiting.insert(id);
            }
            let n = rng.below(forged.len());
            p.send_to(&forged[..if n < 3 { forged.len() } else { n }], to).await.map_err(|e| format!("harness send: {e}"))?;
        }
        while !waiting.is_empty() {
            let n = match tokio::time::timeout(net::patience(), p.recv(&mut buf)).await {
                Err(_) => return Err(format!("TIMEOUT: after {} requests and as many datagrams to be dropped, {} valid requests are not answered; run loop {}", w * 32, waiting.len(), if task.is_finished() { "ended" } else { "running" })),
                Ok(r) => r.map_err(|e| format!("harness receive: {e}"))?,
            };
            if n >= 2 {
                ensure!(waiting.remove(&buf[1]), "a reply {} that nothing asked for", hex(&buf[..n]));
            }
        }
    }
    ensure!(!task.is_finished(), "the run loop ended");
    task.abort();
    obs.nontrivial();
    if windows * 32 > 65_536 {
        obs.label("more than 65,536 requests");
    }
    Ok(())
}

pub fn c24(cx: &Cx) {
    cx.rule("resilience: histories of up to 14 hostile datagrams (malformed, forged, oversized, empty, bursts), provider errors and panics, handlers that fail, panic or never end, and peers that vanish; after every step an uninvolved peer's request goes through; non-trivial when a hostile step occurred; oracle: replies to valid requests");
    cx.drive_opts("resilience", cx.n(3_000, 60_000), 200, || (vec(hostile(), 1..=14), prop::bool::weighted(0.2), net::family()), |(c, skip, f): &(Vec<Hostile>, bool, net::Family), obs| steady_obs(obs, |o| block_on(resilience(c, *skip, *f, o))));
    cx.rule("endurance: one server over up to 6000 events (valid requests answered, handlers that fail, panic or stay quiet, forgeries, garbage, provider failures); oracle: every valid request is handled and answered");
    cx.drive_opts("endurance", cx.n(16, 200), 12, || (any::<u64>().no_shrink(), prop_oneof![1 => 1usize..=3000, 2 => 3000usize..=6000]), |(s, k): &(u64, usize), obs| steady_obs(obs, |o| {
        if s % 2 == 0 { net::block_on_threads(3, endurance(*s, *k, o)) } else { block_on(endurance(*s, *k, o)) }
    }));
    cx.rule("haul: one server over more valid requests, and more datagrams to be dropped, than 16 bits count; every request's identifier, source port and outcome (answered, failed, panicked) varies; oracle: every request that is to be answered is");
    cx.drive_opts("haul", cx.n(2, 8), 2, || (any::<u64>(), 2100usize..=2200), |(s, k): &(u64, usize), obs| steady_obs(obs, |o| block_on(haul(*s, *k, o))));
    cx.rule("crowd: up to 2048 unfinished handlers at once, and another peer's request goes through");
    cx.drive_opts("crowd", cx.n(8, 16), 8, || 1u8..=8, |k: &u8, obs| steady_obs(obs, |o| block_on(crowd(*k, o))));
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
    host: u8,
    fixed_port: bool,
    /// requests sent before the run loop starts
    early: u8,
    /// handled before the trigger
    handled: u8,
    /// unfinished when the trigger fires
    outstanding: Vec<Outcome>,
    /// sent right before the trigger, without waiting
    racing: u8,
    /// sent after run has returned
    late: u8,
    settings: bool,
    /// how often the same server is started again
    again: u8,
    /// milliseconds (as powers of two) that go by before and after the trigger
    idle: (u8, u8),
}

fn life() -> BoxedStrategy<Life> {
    let out = prop_oneof![2 => Just(Outcome::Reply), 1 => Just(Outcome::Quiet), 1 => Just(Outcome::Error), 1 => Just(Outcome::Panic)];
    (gen::octet(), any::<bool>(), 0u8..=4, 0u8..=4, vec(out, 0..=5), 0u8..=3, 0u8..=4, any::<bool>(), (prop_oneof![2 => Just(0u8), 1 => 1u8..=2], prop_oneof![3 => Just(0u8), 1 => 4u8..=33], prop_oneof![3 => Just(0u8), 1 => 4u8..=33]))
        .prop_map(|(host, fixed_port, early, handled, outstanding, racing, late, settings, (again, i, j))| Life { host, fixed_port, early, handled, outstanding, racing, late, settings, again, idle: (i, j) })
        .boxed()
}

async fn lifecycle(c: &Life, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let shared = Arc::new(Shared::default());
    // (host to ask for, address to expect, address to send to, local address of the peer)
    let own = ip(netw, 1).to_string();
    let me = ip(netw, 9).to_string();
    let (v6, both) = net::has_v6();
    let named = named_host();
    let (host, expect, target, from): (String, String, String, String) = match c.host % 8 {
        5 if named.is_some() => {
            let a = named.unwrap_or_else(|| harness_error("no name")).to_string();
            ("localhost".into(), a.clone(), a.clone(), a)
        }
        // the wildcard of both families, reached by either
        6 if both => ("[::]".into(), "::".into(), ip(netw, 1).to_string(), me),
        7 if both => ("::".into(), "::".into(), "::1".into(), "::1".into()),
        0 | 1 => (own.clone(), own.clone(), own, me),
        2 => ("0.0.0.0".into(), "0.0.0.0".into(), ip(netw, 1).to_string(), me),
        3 if v6 => ("::1".into(), "::1".into(), "::1".into(), "::1".into()),
        4 if v6 => ("[::1]".into(), "::1".into(), "::1".into(), "::1".into()),
        _ => ("127.0.0.1".into(), "127.0.0.1".into(), "127.0.0.1".into(), "127.0.0.1".into()),
    };
    obs.label(format!("listening on {}", if host.starts_with("127") { "an address of the loopback network" } else { &host }));
    let addr_of = |s: &str| -> std::net::IpAddr { s.parse().unwrap_or_else(|_| harness_error("address")) };
    let port = if c.fixed_port {
        let s = bind(addr_of(&expect), 0).await?;
        local(&s).port()
    } else {
        0
    };
    let srv = Srv::listen(&host, port, Handler(shared.clone()), Provider(shared.clone())).await;
    let mut srv = match srv {
        Ok(s) => s,
        // somebody else took the port in the meantime
        Err(e) if c.fixed_port && e.kind() == std::io::ErrorKind::AddrInUse => return Ok(()),
        Err(e) => return Err(format!("listening on {host}:{port} fails: {e}")),
    };
    let listen = srv.get_listen_address().map_err(|e| format!("no listening address: {e}"))?;
    ensure!(listen.ip() == addr_of(&expect), "asked to listen on {host}, the address is {listen}");
    ensure!(listen.port() != 0 && (port == 0 || listen.port() == port), "asked for port {port}, the address is {listen}");
    if c.settings {
        srv.set_buffer_size(4096);
        srv.set_skip_authenticity_validation(false);
        ensure!(srv.get_listen_address().ok() == Some(listen), "the listening address changes");
    }
    let to = SocketAddr::new(addr_of(&target), listen.port());
    let peer = bind(addr_of(&from), 0).await?;
    // (as the server sees it)
    let a = net::seen_as(if expect == "::" { net::Family::Dual } else { net::Family::V4 }, local(&peer));
    shared.secrets.lock().unwrap().insert(a, SecretPlan::Secret(B(b"shared".to_vec())));
    let calls = || shared.calls.lock().unwrap().iter().filter(|c| c.remote == a).count();
    let ended = || shared.calls.lock().unwrap().iter().filter(|c| c.remote == a && c.ended).count();
    let mut id = 0u8;
    let mut n = 0usize;
    for _ in 0..c.early {
        send(&peer, &request(1, id, n as u32, b"", b"shared"), to).await?;
        id = id.wrapping_add(1);
        n += 1;
    }
    for _ in 0..20 {
        tokio::task::yield_now().await;
    }
    ensure!(calls() == 0, "a request is handled before the server runs");
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    let (back_tx, mut back_rx) = tokio::sync::oneshot::channel();
    // the server object outlives the run call, with its socket open
    let task = tokio::spawn(async move {
        let r = srv.run(rx).await;
        let _ = back_tx.send(srv);
        r
    });
    until("requests sent before the run loop started are not served", || calls() >= n).await?;
    for _ in 0..c.handled {
        send(&peer, &request(1, id, n as u32, b"", b"shared"), to).await?;
        id = id.wrapping_add(1);
        n += 1;
        until("a valid request is not handled", || calls() >= n).await?;
    }
    until("handlers do not end", || ended() >= n).await?;
    let mut gates = vec![];
    for o in &c.outstanding {
        let (g, grx) = watch::channel(None);
        shared.plans.lock().unwrap().entry((a, id)).or_default().push_back(net::Plan { gate: Some(grx), outcome: Outcome::Reply });
        send(&peer, &request(1, id, n as u32, b"", b"shared"), to).await?;
        id = id.wrapping_add(1);
        n += 1;
        until("a valid request is not handled", || calls() >= n).await?;
        gates.push((g, *o));
        obs.nontrivial();
    }
    if c.idle.0 > 0 {
        pass(c.idle.0).await;
        obs.label("time goes by before the trigger");
    }
    ensure!(!task.is_finished(), "run returns before the trigger fires");
    for _ in 0..c.racing {
        send(&peer, &request(1, id, n as u32, b"r", b"shared"), to).await?;
        id = id.wrapping_add(1);
    }
    if tx.send(()).is_err() {
        return Err("the server dropped the trigger".to_owned());
    }
    until(&format!("run does not return after the trigger with {} handlers unfinished", gates.len()), || task.is_finished()).await?;
    match task.await {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("run fails at the trigger: {e}")),
        Err(e) => return Err(format!("run panics: {e}")),
    }
    let mut srv = back_rx.try_recv().map_err(|_| "run consumed the server".to_owned())?;
    // what came in before the trigger may still start
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
    let before = calls();
    ensure!(before >= n && before <= n + c.racing as usize, "{before} handler calls for {n} to {} requests", n + c.racing as usize);
    for _ in 0..c.late {
        send(&peer, &request(1, id, 0, b"late", b"shared"), to).await?;
        id = id.wrapping_add(1);
        for _ in 0..30 {
            tokio::task::yield_now().await;
        }
    }
    tokio::time::sleep(Duration::from_millis(2)).await;
    ensure!(marked(&shared, b"late") == 0, "a request that arrived after the server stopped is handled");
    ensure!(calls() <= n + c.racing as usize, "more handler calls than requests");
    if c.idle.1 > 0 {
        pass(c.idle.1).await;
        obs.label("time goes by after the trigger");
    }
    // handlers that were running still finish
    let done = ended();
    let mut replies = 0;
    // (drain what is there)
    let mut buf = vec![0; 4200];
    while peer.try_recv_from(&mut buf).is_ok() {}
    let k = gates.len();
    for (g, o) in &gates {
        let _ = g.send(Some(*o));
        replies += usize::from(*o == Outcome::Reply);
    }
    until("a handler that was running at the trigger never ends", || ended() >= done + k).await?;
    let mut got = 0;
    while got < replies {
        match tokio::time::timeout(net::patience(), peer.recv_from(&mut buf)).await {
            Err(_) => return Err("TIMEOUT: a handler that was running at the trigger cannot answer".to_owned()),
            // (a wildcard socket answers from an address of the kernel's choice)
            Ok(Ok((_, f))) if f.port() == to.port() => got += 1,
            Ok(Ok(_)) => {}
            Ok(Err(e)) => return Err(format!("harness receive: {e}")),
        }
    }
    ensure!(srv.get_listen_address().ok() == Some(listen), "the listening address changes");
    // the same server runs again
    for again in 0..c.again {
        let first = calls();
        let mut waiting = 0;
        if again == 0 {
            waiting = c.late as usize + c.racing as usize;
        }
        let early = c.early % 3;
        for _ in 0..early {
            send(&peer, &request(1, id, 0, b"again", b"shared"), to).await?;
            id = id.wrapping_add(1);
        }
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        let (back_tx, mut back_rx) = tokio::sync::oneshot::channel();
        let mut s = srv;
        let task = tokio::spawn(async move {
            let r = s.run(rx).await;
            let _ = back_tx.send(s);
            r
        });
        until("requests that wait when the run loop starts again are not served", || calls() >= first + early as usize).await?;
        for _ in 0..=c.handled {
            let before = calls();
            send(&peer, &request(1, id, 0, b"again", b"shared"), to).await?;
            id = id.wrapping_add(1);
            until("a valid request is not handled after the server was started again", || calls() > before).await?;
        }
        let got = calls() - first;
        let due = early as usize + c.handled as usize + 1;
        ensure!(got >= due && got <= due + waiting, "{got} handler calls after the server was started again, {due} requests were sent");
        ensure!(!task.is_finished(), "run returns before the trigger fires, when called again");
        let _ = tx.send(());
        until("run does not return after the trigger, when called again", || task.is_finished()).await?;
        match task.await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("run fails at the trigger, when called again: {e}")),
            Err(e) => return Err(format!("run panics when called again: {e}")),
        }
        srv = back_rx.try_recv().map_err(|_| "run consumed the server".to_owned())?;
        obs.label("run again");
        // a trigger that has fired already ends it at once
        let r = tokio::time::timeout(net::patience(), srv.run(std::future::ready(()))).await.map_err(|_| "TIMEOUT: run does not return for a trigger that has fired already".to_owned())?;
        ensure!(r.is_ok(), "run fails for a trigger that has fired already: {r:?}");
    }
    Ok(())
}

/// What the name "localhost" stands for here, where it stands for a single address.
fn named_host() -> Option<std::net::IpAddr> {
    static HOST: std::sync::OnceLock<Option<std::net::IpAddr>> = std::sync::OnceLock::new();
    *HOST.get_or_init(|| {
        use std::net::ToSocketAddrs;
        let mut l: Vec<_> = ("localhost", 0).to_socket_addrs().ok()?.map(|a| a.ip()).collect();
        l.dedup();
        match l[..] {
            [a] if a.is_loopback() && std::net::UdpSocket::bind((a, 0)).is_ok() => Some(a),
            _ => None,
        }
    })
}

/// How many handler calls were for requests with this marker.
fn marked(shared: &Shared, marker: &[u8]) -> usize {
    shared.calls.lock().unwrap().iter().filter(|c| c.attrs[33].iter().any(|v| v.len() >= 4 && v[4..] == *marker)).count()
}

/// The trigger fires while requests keep coming.
async fn flood(senders: u8, spread: u8, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let shared = Arc::new(Shared::default());
    *shared.otherwise.lock().unwrap() = Some(Outcome::Quiet);
    let mut srv = Srv::listen(&ip(netw, 1).to_string(), 0, Handler(shared.clone()), Provider(shared.clone())).await.map_err(|e| format!("the server cannot listen: {e}"))?;
    let to = srv.get_listen_address().map_err(|e| e.to_string())?;
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stopped = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut threads = vec![];
    for k in 0..senders {
        let s = std::net::UdpSocket::bind(SocketAddr::new(ip(netw, 10 + k), 0)).map_err(|e| format!("harness socket: {e}"))?;
        let a = s.local_addr().map_err(|e| e.to_string())?;
        // (one of them is a stranger)
        if k > 0 {
            shared.secrets.lock().unwrap().insert(a, SecretPlan::Secret(B(b"shared".to_vec())));
        }
        let (stop, stopped) = (stop.clone(), stopped.clone());
        threads.push(std::thread::spawn(move || {
            let mut i = 0u32;
            while !stop.load(Ordering::SeqCst) {
                let marker: &[u8] = if stopped.load(Ordering::SeqCst) { b"late" } else { b"" };
                let _ = s.send_to(&request(1, i as u8, i, marker, b"shared"), to);
                i += 1;
                if i % 5000 == 0 {
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
        }));
    }
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    let (back_tx, back_rx) = tokio::sync::oneshot::channel();
    let task = tokio::spawn(async move {
        let r = srv.run(rx).await;
        let _ = back_tx.send(srv);
        r
    });
    let seen = || shared.calls.lock().unwrap().len();
    let r = async {
        if senders > 1 {
            until("no request is handled", || seen() > spread as usize).await?;
        }
        let _ = tx.send(());
        let r = tokio::time::timeout(net::patience(), task).await.map_err(|_| "TIMEOUT: run does not return after the trigger while requests keep coming".to_owned())?;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("run fails at the trigger: {e}")),
            Err(e) => return Err(format!("run panics: {e}")),
        }
        let _srv = back_rx.await.map_err(|_| "run consumed the server".to_owned())?;
        stopped.store(true, Ordering::SeqCst);
        tokio::time::sleep(Duration::from_millis(8)).await;
        ensure!(marked(&shared, b"late") == 0, "requests that are sent after the server stopped are handled");
        Ok(())
    }
    .await;
    stop.store(true, Ordering::SeqCst);
    for t in threads {
        let _ = t.join();
    }
    obs.nontrivial();
    r
}

pub fn c25(cx: &Cx) {
    cx.rule("lifecycle: listening hosts (loopback addresses, a name, the wildcards of both families, IPv6), given and assigned ports, requests before the run loop, handled, unfinished, racing with and after the shutdown trigger; non-trivial when handlers are unfinished at the trigger; oracle: reported address, handler calls, result of run");
    cx.drive_opts("lifecycle", cx.n(3_000, 60_000), 200, life, |c, obs| steady_obs(obs, |o| block_on(lifecycle(c, o))));
    cx.rule("flood: the trigger fires while one to three threads keep sending, on one or several threads; oracle: run returns success, and no handler starts any more");
    cx.drive_opts("flood", cx.n(160, 3_000), 12, || (1u8..=3, gen::octet(), any::<bool>()), |(k, n, one): &(u8, u8, bool), obs| steady_obs(obs, |o| {
        if *one { block_on(flood(*k, *n, o)) } else { net::block_on_threads(3, flood(*k, *n, o)) }
    }));
    cx.rule("failures: ports in use and hosts that do not exist give an error; oracle: error, no panic");
    cx.drive_opts("failures", cx.n(200, 2_000), 50, || (gen::octet(), "[a-z]{0,6}[^a-z0-9. ]{1,3}"), |(k, junk): &(u8, String), obs| {
        obs.nontrivial();
        block_on(async {
            let sh = Arc::new(Shared::default());
            let netw = net::own_net();
            let s = bind(ip(netw, 1), 0).await?;
            let (host, port) = match k % 3 {
                0 => (ip(netw, 1).to_string(), local(&s).port()),
                1 => ("999.1.1.1".to_owned(), 0),
                _ => (junk.clone(), 0),
            };
            let r = Srv::listen(&host, port, Handler(sh.clone()), Provider(sh.clone())).await;
            ensure!(r.is_err(), "listening on {host:?}:{port} succeeds");
            Ok(())
        })
    });
}

/// Shared with the leak check.
pub fn plain_request(code: u8, id: u8, n: u32, secret: &[u8]) -> Vec<u8> {
    request(code, id, n, b"", secret)
}


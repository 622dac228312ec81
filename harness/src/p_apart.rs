//! C32: operations and instances do not influence each other.

use crate::engine::{harness_error, hex, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, bytes};
use crate::net::{self, bind, block_on, ip, local, send, until, Mix, Options, Outcome, SecretPlan, World};
use crate::p_twin::{exec, Op};
use crate::refimpl as rf;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::net::SocketAddr;
use tokio::sync::watch;

// ---------------------------------------------------------------- calls

/// Operations over a few arguments that resemble each other.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Calls {
    secrets: Vec<B>,
    auths: Vec<B>,
    texts: Vec<B>,
    /// kind, secret, authenticator, text, one more number
    ops: Vec<(u8, u8, u8, u8, u8)>,
    seed: u64,
}

/// The value and what is mistaken for it: another of the same length, of the same start or end, with one more or less.
fn alike(b: BoxedStrategy<B>, same_len: bool) -> BoxedStrategy<Vec<B>> {
    (b, vec((0u8..6, any::<u16>(), 1u8..=255), 2..=4))
        .prop_map(move |(b, changes)| {
            let mut l = vec![b.clone()];
            for (kind, at, x) in changes {
                let mut c = l[at as usize % l.len()].0.clone();
                let n = c.len();
                match kind {
                    0 if n > 0 => c[n - 1] ^= x,
                    1 if n > 0 => c[0] ^= x,
                    2 if n > 0 => c[at as usize % n] ^= x,
                    3 if !same_len => c.push(x),
                    4 if !same_len && n > 1 => {
                        c.pop();
                    }
                    5 if n > 1 => c.reverse(),
                    _ if n > 0 => c[n / 2] ^= x,
                    _ => c.push(x),
                }
                l.push(B(c));
            }
            l
        })
        .boxed()
}

fn calls() -> BoxedStrategy<Calls> {
    (alike(gen::secret(), false), alike(gen::auth(), true), alike(bytes(0..=50), false), vec(any::<(u8, u8, u8, u8, u8)>(), 2..=20), any::<u64>())
        .prop_map(|(secrets, auths, texts, ops, seed)| Calls { secrets, auths, texts, ops, seed })
        .boxed()
}

/// The operation, and its result where the reference says it.
fn operation(c: &Calls, o: &(u8, u8, u8, u8, u8)) -> (Op, Option<String>) {
    let pick = |l: &[B], i: u8| l[i as usize % l.len()].clone();
    let (kind, x) = (o.0 % 9, o.4);
    let (secret, auth, text) = (pick(&c.secrets, o.1), pick(&c.auths, o.2), pick(&c.texts, o.3));
    let id = x % 3;
    let attrs = vec![(1u8, text.clone())];
    let ab = gen::attrs_wire(&attrs);
    match kind {
        0 => {
            let code = [2u8, 5, 4, 40, 11][x as usize % 5];
            let wire = rf::signed(code, id, &auth, &ab, &secret);
            (Op::Encode { code, id, auth, attrs, secret }, Some(format!("ok {:?}", B(wire))))
        }
        1 => {
            let code = [4u8, 40, 43][x as usize % 3];
            let signer = pick(&c.secrets, o.1.wrapping_add(u8::from(x > 200)));
            let data = B(rf::signed(code, id, &auth, &ab, &signer));
            let want = rf::is_authentic_request(&data, &secret);
            (Op::VerifyRequest { data, secret }, Some(want.to_string()))
        }
        2 => {
            let request = rf::build(1, id, &auth, &ab);
            let signer = pick(&c.secrets, o.1.wrapping_add(u8::from(x > 200)));
            let over = pick(&c.auths, o.2.wrapping_add(u8::from(x % 4 == 3)));
            let data = rf::signed(2, id, &over, &ab, &signer);
            let want = rf::is_authentic_response(&data, &request, &secret);
            (Op::VerifyResponse { data: B(data), request: B(request), secret }, Some(want.to_string()))
        }
        3 => {
            let want = B(rf::hide_chain(&rf::pad16(&text), &secret, &auth));
            (Op::Hide { pw: text, secret, auth }, Some(format!("ok {want:?}")))
        }
        4 => {
            let data = B(rf::hide_chain(&rf::pad16(&text), &secret, &auth));
            // (revealed with what may be another secret or authenticator)
            let (s, a) = (pick(&c.secrets, o.1.wrapping_add(u8::from(x > 200))), pick(&c.auths, o.2.wrapping_add(u8::from(x % 4 == 3))));
            let want = B(rf::trim_nuls(&rf::reveal_chain(&data, &s, &a)).to_vec());
            (Op::Reveal { data, secret: s, auth: a }, Some(format!("ok {want:?}")))
        }
        5 => (Op::HideTunnel { tag: [None, Some(1), Some(2)][x as usize % 3], pw: text, secret, auth }, None),
        6 => {
            let salt = [0x80 | x, x];
            let mut data = vec![x % 3];
            data.extend(salt);
            data.extend(rf::hide_chain(&rf::pad16(&text), &secret, &[&auth[..], &salt].concat()));
            (Op::RevealTunnel { data: B(data), secret, auth }, None)
        }
        7 => (Op::Read { typ: x, data: text }, None),
        _ => {
            let data = B(rf::build(1, id, &auth, &ab));
            (Op::Respond { data, secret, code: 2 + x % 2, attrs }, None)
        }
    }
}

/// Runs the operation; what a random salt hides is shown revealed.
fn outcome(op: &Op) -> String {
    let (s, hidden) = exec(op);
    match (op, hidden) {
        (Op::HideTunnel { pw, secret, auth, .. }, Some(b)) => {
            if b.len() < 19 {
                return format!("{s}, too short");
            }
            let plain = rf::reveal_chain(&b[3..], secret, &[&auth[..], &b[1..3]].concat());
            let right = plain.len() >= pw.len() && plain[..pw.len()] == pw[..] && plain[pw.len()..].iter().all(|x| *x == 0);
            format!("{s}, hides {}", if right { "the password".to_owned() } else { hex(&plain) })
        }
        _ => s,
    }
}

fn calls_check(c: &Calls, obs: &mut Obs) -> Result<(), String> {
    let ops: Vec<(Op, Option<String>)> = c.ops.iter().map(|o| operation(c, o)).collect();
    let n = ops.len();
    let first: Vec<String> = ops.iter().map(|o| outcome(&o.0)).collect();
    for ((op, want), got) in ops.iter().zip(&first) {
        if let Some(w) = want {
            ensure!(got == w, "after other operations, {op:?} gives {got} instead of {w}");
        }
        ensure!(!matches!(op, Op::HideTunnel { .. }) || !got.starts_with("ok") || got.ends_with("the password"), "after other operations, {op:?} gives {got}");
    }
    let mut g = Mix(c.seed);
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, g.below(i + 1));
    }
    for i in &order {
        let again = outcome(&ops[*i].0);
        ensure!(again == first[*i], "in another order, {:?} gives {again} instead of {}", ops[*i].0, first[*i]);
    }
    // several threads, each from another place
    let wrong = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..3 {
            let (ops, first, order, wrong) = (&ops, &first, &order, &wrong);
            s.spawn(move || {
                for k in 0..2 * n {
                    let i = order[(k + t * n / 3) % n];
                    let r = outcome(&ops[i].0);
                    if r != first[i] {
                        *wrong.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("while other threads work, {:?} gives {r} instead of {}", ops[i].0, first[i]));
                        return;
                    }
                }
            });
        }
    });
    if let Some(e) = wrong.into_inner().unwrap_or_else(|e| e.into_inner()) {
        return Err(e);
    }
    if n > 2 {
        obs.nontrivial();
    }
    for o in &ops {
        obs.label(format!("{:?}", o.0).split(' ').next().unwrap_or_default().to_owned());
    }
    Ok(())
}

// ---------------------------------------------------------------- servers

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// server, peer, identifier, accounting or access, signed with the secret of this server, length of an attribute
    Send(u8, u8, u8, bool, u8, u8),
    /// the handler that was called so long ago ends
    Finish(u8, Outcome),
    /// the server ends
    Stop(u8),
    /// the peer gets another secret at one server
    Rekey(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Servers {
    /// skips validation, buffer size (0: the default)
    opts: Vec<(bool, u16)>,
    steps: Vec<Step>,
}

fn servers() -> BoxedStrategy<Servers> {
    let out = prop_oneof![Just(Outcome::Reply), Just(Outcome::Quiet), Just(Outcome::Error), Just(Outcome::Panic)];
    let step = prop_oneof![
        12 => (gen::octet(), gen::octet(), 0u8..3, any::<bool>(), gen::octet(), prop_oneof![3 => Just(4u8), 1 => Just(100u8)]).prop_map(|(s, p, i, c, k, l)| Step::Send(s, p, i, c, k, l)),
        6 => (gen::octet(), out).prop_map(|(k, o)| Step::Finish(k, o)),
        1 => gen::octet().prop_map(Step::Stop),
        1 => (gen::octet(), gen::octet(), gen::octet()).prop_map(|(s, p, x)| Step::Rekey(s, p, x)),
    ];
    (vec((prop::bool::weighted(0.3), prop_oneof![3 => Just(0u16), 1 => Just(64u16), 1 => Just(4096u16)]), 2..=3), vec(step, 2..=30)).prop_map(|(opts, steps)| Servers { opts, steps }).boxed()
}

struct Held {
    server: usize,
    peer: usize,
    id: u8,
    call: usize,
    gate: watch::Sender<Option<Outcome>>,
}

async fn servers_check(c: &Servers, obs: &mut Obs) -> Result<(), String> {
    let mut ws = vec![];
    for (skip, buffer) in &c.opts {
        ws.push(World::start(Options { buffer: if *buffer == 0 { None } else { Some(*buffer as usize) }, skip: *skip, ..Options::default() }).await?);
    }
    let n = ws.len();
    let net = ws[0].net;
    let peers = [bind(ip(net, 20), 0).await?, bind(ip(net, 21), 0).await?];
    let addrs: Vec<SocketAddr> = peers.iter().map(local).collect();
    let mut secrets: Vec<Vec<Vec<u8>>> = vec![];
    for (k, w) in ws.iter().enumerate() {
        secrets.push(vec![vec![b'k', k as u8], vec![b'k', k as u8, 1]]);
        for (p, a) in addrs.iter().enumerate() {
            w.secret(*a, SecretPlan::Secret(B(secrets[k][p].clone())));
        }
    }
    let mut held: Vec<Held> = vec![];
    let mut calls = vec![0usize; n];
    let mut running = vec![true; n];
    let mut serial = 0u32;
    for st in &c.steps {
        match st {
            Step::Send(s, p, id, acct, signer, len) => {
                let (s, p) = (*s as usize % n, *p as usize % 2);
                let signer = if *signer > 180 { *signer as usize % n } else { s };
                serial += 1;
                let mut auth = [3u8; 16];
                auth[..4].copy_from_slice(&serial.to_be_bytes());
                let wire = rf::signed(if *acct { 4 } else { 1 }, *id, &auth, &rf::attr_bytes(&[(25, vec![7; *len as usize])]), &secrets[signer][p]);
                let limit = if c.opts[s].1 == 0 { 1500 } else { c.opts[s].1 as usize };
                let cut = &wire[..wire.len().min(limit)];
                let fits = rf::parse(cut).is_ok();
                let authentic = c.opts[s].0 || rf::is_authentic_request(cut, &secrets[s][p]);
                let busy = held.iter().any(|h| (h.server, h.peer, h.id) == (s, p, *id));
                let elsewhere = held.iter().any(|h| h.server != s && (h.peer, h.id) == (p, *id));
                if running[s] && fits && authentic && !busy {
                    ws[s].unplan(addrs[p], *id);
                    let gate = ws[s].gate(addrs[p], *id);
                    send(&peers[p], &wire, ws[s].addr).await?;
                    let what = format!("server {s} does not handle a valid request with identifier {id}; {} are outstanding there, {} at the others", held.iter().filter(|h| h.server == s).count(), held.iter().filter(|h| h.server != s).count());
                    if let Err(e) = ws[s].wait_calls(calls[s] + 1, &what).await {
                        // a server that tidies up later gets a fair chance
                        let mut ok = false;
                        for _ in 0..20 {
                            send(&peers[p], &wire, ws[s].addr).await?;
                            ws[s].churn().await;
                            if ws[s].count() > calls[s] {
                                ok = true;
                                break;
                            }
                        }
                        ensure!(ok, "{e}");
                    }
                    let seen = ws[s].calls();
                    let call = &seen[calls[s]];
                    ensure!(call.secret == secrets[s][p], "server {s} shows the secret {} instead of {}", hex(&call.secret), hex(&secrets[s][p]));
                    ensure!(call.local == ws[s].addr && call.remote == addrs[p], "server {s} shows other addresses");
                    held.push(Held { server: s, peer: p, id: *id, call: calls[s], gate });
                    calls[s] += 1;
                    if elsewhere {
                        obs.nontrivial();
                        obs.label("the same peer and identifier outstanding at another server");
                    }
                } else {
                    send(&peers[p], &wire, ws[s].addr).await?;
                    obs.label(if !running[s] { "sent to a server that has ended" } else if busy { "outstanding" } else { "not valid there" });
                }
            }
            Step::Finish(k, o) => {
                if held.is_empty() {
                    continue;
                }
                let h = held.remove(*k as usize % held.len());
                let _ = h.gate.send(Some(*o));
                until("a handler does not end", || ws[h.server].calls().get(h.call).is_some_and(|c| c.ended)).await?;
                if *o == Outcome::Reply {
                    let w = &ws[h.server];
                    let d = w.recv(&peers[h.peer], &format!("the reply of server {} does not arrive", h.server)).await?;
                    let auth = &w.calls()[h.call].auth;
                    let req = rf::build(1, h.id, auth, &[]);
                    let s = &w.calls()[h.call].secret;
                    ensure!(d[1] == h.id && rf::is_authentic_response(&d, &req, s), "the reply of server {} is not authentic", h.server);
                }
            }
            Step::Stop(s) => {
                let s = *s as usize % n;
                if running.iter().filter(|r| **r).count() < 2 || !running[s] {
                    continue;
                }
                ws[s].sync().await?;
                ensure!(ws[s].count() == calls[s], "server {s} handles a request that it must not");
                if let Some(t) = ws[s].shutdown.take() {
                    let _ = t.send(());
                }
                until(&format!("server {s} does not end"), || ws[s].task.is_finished()).await?;
                running[s] = false;
                obs.nontrivial();
                obs.label("one server ended");
            }
            Step::Rekey(s, p, x) => {
                let (s, p) = (*s as usize % n, *p as usize % 2);
                if !running[s] {
                    continue;
                }
                ws[s].sync().await?;
                secrets[s][p] = vec![b'r', *x];
                ws[s].secret(addrs[p], SecretPlan::Secret(B(vec![b'r', *x])));
            }
        }
        for k in 0..n {
            if running[k] {
                ws[k].sync().await?;
            }
            ensure!(ws[k].count() == calls[k], "server {k} handles a request that it must not ({} calls instead of {})", ws[k].count(), calls[k]);
            ensure!(!running[k] || !ws[k].task.is_finished(), "server {k} has ended by itself");
        }
    }
    Ok(())
}

pub fn c32(cx: &Cx) {
    cx.rule("calls: up to 20 encodings, verdicts, hidings, revealings, readings and responses over pools of secrets, authenticators and texts that resemble each other, in one order, another, and on three threads at once; non-trivial with three and more; oracle: every result is the same each time, and the reference's");
    cx.drive("calls", cx.n(8_000, 400_000), calls, calls_check);
    cx.rule("servers: two or three servers in one process with secrets, flags and buffer sizes of their own, and two peers that use the same identifiers at all of them; handlers wait for the harness, servers end, secrets change; non-trivial when a peer's identifier is outstanding at another server, or a server has ended; oracle: a model of each server alone, compared after every step");
    cx.drive_opts("servers", cx.n(1_200, 40_000), 200, servers, |c: &Servers, obs| {
        let o = std::sync::Mutex::new(Obs::default());
        let r = net::steady(|| {
            let mut x = Obs::default();
            let r = block_on(servers_check(c, &mut x));
            *o.lock().unwrap_or_else(|e| harness_error(&e.to_string())) = x;
            r
        });
        *obs = o.into_inner().unwrap_or_else(|e| harness_error(&e.to_string()));
        r
    });
}

//! C31: finished work leaves nothing behind.

use crate::engine::{Cx, Obs};
use crate::ensure;
use crate::net::{self, bind, block_on, ip, local, own_net, until, Mix};
use crate::refimpl as rf;
use async_trait::async_trait;
use proptest::collection::vec;
use proptest::prelude::*;
use radius::client::Client;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, Weak};
use std::time::Duration;
use tokio::net::UdpSocket;
use tokio::sync::{oneshot, watch};

// ---------------------------------------------------------------- what the process holds

/// Counts the bytes in use while `COUNTING`.
pub struct Counter;
static COUNTING: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if COUNTING.load(Ordering::Relaxed) {
            BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if COUNTING.load(Ordering::Relaxed) {
            BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if COUNTING.load(Ordering::Relaxed) {
            BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if COUNTING.load(Ordering::Relaxed) {
            BYTES.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// The cases run one at a time: what is counted belongs to the process.
static ALONE: Mutex<()> = Mutex::new(());

fn alone() -> MutexGuard<'static, ()> {
    ALONE.lock().unwrap_or_else(|e| e.into_inner())
}

fn sockets() -> usize {
    std::fs::read_dir("/proc/self/fd")
        .map(|l| l.filter_map(|e| e.ok()).filter(|e| std::fs::read_link(e.path()).is_ok_and(|t| t.to_string_lossy().starts_with("socket:"))).count())
        .unwrap_or(0)
}

fn tasks() -> usize {
    tokio::runtime::Handle::current().metrics().num_alive_tasks()
}

/// Waits until the counts are back where they were.
async fn back(what: &str, base: (usize, usize)) -> Result<(), String> {
    until("", || sockets() <= base.0 && tasks() <= base.1)
        .await
        .map_err(|_| format!("TIMEOUT: {what}: {} sockets are open and {} tasks alive; before it were {} and {}", sockets(), tasks(), base.0, base.1))
}

// ---------------------------------------------------------------- the client's sends

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum How {
    Answered,
    /// that many datagrams to discard, then the answer
    Noisy(u8),
    Timeout(u8),
    /// the caller gives the send up after so many milliseconds; at 0 when it first has to wait
    Cancelled(u8),
    /// the caller gives the send up before it has started
    Unpolled,
    /// a request that cannot be encoded
    TooLarge,
    /// nobody listens there
    Refused,
    /// a destination that the socket cannot reach
    NoRoute,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sends {
    /// the sends of a group run at the same time
    groups: Vec<Vec<How>>,
    /// without a limit on the wait (but for `Timeout`)
    patient: bool,
    one_client: bool,
}

fn how() -> BoxedStrategy<How> {
    prop_oneof![
        4 => Just(How::Answered),
        2 => (1u8..20).prop_map(How::Noisy),
        2 => (1u8..4).prop_map(How::Timeout),
        2 => (0u8..3).prop_map(How::Cancelled),
        1 => Just(How::Unpolled),
        1 => Just(How::TooLarge),
        1 => Just(How::Refused),
        1 => Just(How::NoRoute),
    ]
    .boxed()
}

async fn one_send(c: &Client, how: How, n: u32, peer: SocketAddr, closed: SocketAddr, seen: &AtomicUsize) -> Result<(), String> {
    let mut p = Packet::new(Code::AccessRequest, b"a secret");
    // the peer answers as this attribute asks
    let plan = match how {
        How::Answered => vec![1],
        How::Noisy(k) => vec![1, k],
        _ => vec![0],
    };
    p.add(AVP::from_bytes(25, &plan));
    p.add(AVP::from_u32(26, n));
    if how == How::TooLarge {
        for _ in 0..20 {
            p.add(AVP::from_bytes(79, &[7; 253]));
        }
    }
    let to = match how {
        How::Refused => closed,
        How::NoRoute => SocketAddr::from(([255, 255, 255, 255], 9)),
        _ => peer,
    };
    let f = c.send_packet(&to, &p);
    match how {
        How::Unpolled => drop(f),
        How::Cancelled(0) => {
            let mut f = Box::pin(f);
            let _ = tokio::time::timeout(Duration::ZERO, &mut f).await;
        }
        How::Cancelled(ms) => {
            let _ = tokio::time::timeout(Duration::from_millis(ms as u64), f).await;
        }
        How::Answered | How::Noisy(_) => {
            let r = tokio::time::timeout(net::patience(), f).await.map_err(|_| "TIMEOUT: a send that is answered does not return".to_owned())?;
            seen.fetch_add(1, Ordering::Relaxed);
            r.map_err(|e| format!("a send that is answered fails: {e}"))?;
        }
        _ => {
            // how they end is C26's and C27's; here they only have to end
            let r = tokio::time::timeout(net::patience(), f).await.map_err(|_| format!("TIMEOUT: a send does not return ({how:?})"))?;
            ensure!(r.is_err() || how == How::NoRoute, "a send that is not answered succeeds ({how:?})");
        }
    }
    Ok(())
}

/// Answers requests as their first attribute asks.
async fn answering(s: Arc<UdpSocket>, got: Arc<AtomicUsize>) {
    let mut buf = vec![0; 66000];
    while let Ok((n, from)) = s.recv_from(&mut buf).await {
        got.fetch_add(1, Ordering::Relaxed);
        let req = &buf[..n];
        if n < 23 {
            continue;
        }
        let plan = &req[22..20 + req[21] as usize];
        if plan.first() == Some(&1) {
            for i in 0..plan.get(1).copied().unwrap_or(0) {
                let mut junk = rf::signed(2, req[1], &req[4..20], &rf::attr_bytes(&[(25, vec![i; 40])]), b"another secret");
                junk.truncate(if i % 3 == 0 { i as usize } else { 62 });
                let _ = s.send_to(&junk, from).await;
            }
            let r = rf::signed(2, req[1], &req[4..20], &[], b"a secret");
            let _ = s.send_to(&r, from).await;
        }
    }
}

async fn sends(c: &Sends, obs: &mut Obs) -> Result<(), String> {
    let net = own_net();
    let s = Arc::new(bind(ip(net, 1), 0).await?);
    let peer = local(&s);
    let closed = {
        let x = bind(ip(net, 2), 0).await?;
        local(&x)
    };
    let got = Arc::new(AtomicUsize::new(0));
    let answerer = tokio::spawn(answering(s.clone(), got.clone()));
    tokio::task::yield_now().await;
    let make = |t: Option<Duration>| Client::new(Some(Duration::from_secs(5)), t);
    let limit = if c.patient { None } else { Some(Duration::from_secs(30)) };
    let shared = make(limit);
    let base = (sockets(), tasks());
    let seen = AtomicUsize::new(0);
    let mut n = 0;
    for g in &c.groups {
        let mut fs: Vec<std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), String>>>>> = vec![];
        let (shared, seen) = (&shared, &seen);
        for h in g {
            n += 1;
            let own = match h {
                How::Timeout(ms) => Some(make(Some(Duration::from_millis(*ms as u64)))),
                _ if !c.one_client => Some(make(limit)),
                _ => None,
            };
            let (h, n) = (*h, n);
            // (where nobody answers and the platform does not say so, the limit of 3 ms ends the wait)
            let own = if matches!(h, How::Refused | How::NoRoute) { Some(make(Some(Duration::from_millis(3)))) } else { own };
            fs.push(Box::pin(async move { one_send(own.as_ref().unwrap_or(shared), h, n, peer, closed, seen).await }));
            obs.label(match h {
                How::Answered => "answered",
                How::Noisy(_) => "answered after discards",
                How::Timeout(_) => "timed out",
                How::Cancelled(_) | How::Unpolled => "given up",
                How::TooLarge => "not encodable",
                How::Refused | How::NoRoute => "unreachable",
            });
        }
        // all at the same time
        let mut done = vec![None; fs.len()];
        std::future::poll_fn(|cx| {
            for (f, d) in fs.iter_mut().zip(done.iter_mut()) {
                if d.is_none() {
                    if let std::task::Poll::Ready(r) = f.as_mut().poll(cx) {
                        *d = Some(r);
                    }
                }
            }
            if done.iter().all(|d| d.is_some()) { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
        })
        .await;
        drop(fs);
        for d in done {
            d.unwrap_or(Ok(()))?;
        }
        back(&format!("after the sends {g:?}"), base).await?;
    }
    answerer.abort();
    if c.groups.iter().flatten().any(|h| !matches!(h, How::Answered)) {
        obs.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- a server that has dealt with many requests

/// Answers, fails, panics or waits as the request's first attribute asks.
struct Act {
    gate: watch::Receiver<u8>,
    begun: Arc<AtomicUsize>,
    ended: Arc<AtomicUsize>,
}

struct Tick(Arc<AtomicUsize>);
impl Drop for Tick {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

#[async_trait]
impl RequestHandler<(), ()> for Act {
    async fn handle_radius_request(&self, conn: &UdpSocket, request: &Request) -> Result<(), ()> {
        self.begun.fetch_add(1, Ordering::SeqCst);
        let _tick = Tick(self.ended.clone());
        let p = request.get_packet();
        let mut what = p.lookup(25).map(|a| a.encode_bytes()).and_then(|v| v.first().copied()).unwrap_or(0);
        if what == 4 {
            // waits for the gate, then does as it says
            let mut g = self.gate.clone();
            loop {
                what = *g.borrow();
                if what != 0 {
                    break;
                }
                if g.changed().await.is_err() {
                    return Err(());
                }
            }
        }
        match what {
            1 => {
                let r = p.make_response_packet(Code::AccessAccept);
                let b = r.encode().map_err(|_| ())?;
                conn.send_to(&b, request.get_remote_addr()).await.map(|_| ()).map_err(|_| ())
            }
            2 => Err(()),
            3 => panic!("injected panic"),
            _ => Ok(()),
        }
    }
}

/// Peers at .11 are unknown, those at .12 have an empty secret, at .13 the provider panics.
struct Peers;
const KEY: &[u8] = b"the peers' secret";

impl SecretProvider for Peers {
    fn fetch_secret(&self, remote_addr: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        let host = match remote_addr.ip() {
            std::net::IpAddr::V4(a) => a.octets()[3],
            _ => 0,
        };
        match host {
            11 => Err(SecretProviderError::FailedFetchingError("unknown".to_owned())),
            12 => Ok(vec![]),
            13 => panic!("injected provider panic"),
            _ => Ok(KEY.to_vec()),
        }
    }
}

fn request(id: u8, n: u64, what: u8) -> Vec<u8> {
    let mut auth = [0u8; 16];
    auth[..8].copy_from_slice(&n.to_be_bytes());
    rf::build(1, id, &auth, &rf::attr_bytes(&[(25, vec![what]), (1, b"someone".to_vec())]))
}

/// One exchange with the server from a peer of its own; everything sent before has been received.
async fn sync(s: &UdpSocket, server: SocketAddr, n: &mut u64) -> Result<(), String> {
    for _ in 0..2 {
        *n += 1;
        let req = request(*n as u8, *n, 1);
        s.send_to(&req, server).await.map_err(|e| format!("harness send: {e}"))?;
        let mut buf = [0; 200];
        loop {
            match tokio::time::timeout(net::patience(), s.recv_from(&mut buf)).await {
                Err(_) => return Err("TIMEOUT: a valid request from an uninvolved peer is not answered".to_owned()),
                Ok(Err(e)) => return Err(format!("harness receive: {e}")),
                Ok(Ok((k, _))) if k >= 20 && buf[1] == *n as u8 => break,
                Ok(Ok(_)) => {}
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    /// how often each `KIND` comes
    weights: Vec<u8>,
    /// peers that come back, of 16 requests
    again: u8,
    skip: bool,
    seed: u64,
}

const KIND: [&str; 11] = ["answered", "quiet", "error", "panic", "repeated", "inauthentic", "undecodable", "unknown peer", "empty secret", "provider panics", "too short"];

async fn load(c: &Load, requests: usize, obs: &mut Obs) -> Result<(), String> {
    let net = own_net();
    let (gate_tx, gate) = watch::channel(0u8);
    let (begun, ended) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let mut srv = Server::<(), (), _, _>::listen(&ip(net, 1).to_string(), 0, Act { gate, begun: begun.clone(), ended: ended.clone() }, Peers)
        .await
        .map_err(|e| format!("the server cannot listen: {e}"))?;
    srv.set_skip_authenticity_validation(c.skip);
    let addr = srv.get_listen_address().map_err(|e| format!("no listening address: {e}"))?;
    let (stop, rx) = oneshot::channel::<()>();
    let task = tokio::spawn(async move { srv.run(rx).await });
    let sentinel = bind(ip(net, 250), 0).await?;
    let regulars = [bind(ip(net, 20), 0).await?, bind(ip(net, 21), 0).await?];
    let mut g = Mix(c.seed);
    let mut n = 0u64;
    sync(&sentinel, addr, &mut n).await?;
    until("", || tasks() <= 1).await.map_err(|_| format!("TIMEOUT: {} tasks are alive beside the server's, and nothing is handled", tasks() - 1))?;
    let base = (sockets(), tasks());
    let total: usize = c.weights.iter().map(|w| *w as usize).sum::<usize>().max(1);
    let mut level = 0;
    for phase in 0..2 {
        let amount = if phase == 0 { 1000 } else { requests };
        for i in 0..amount {
            let mut pick = g.below(total);
            let mut kind = 0;
            while kind + 1 < KIND.len() && pick >= c.weights.get(kind).copied().unwrap_or(0) as usize {
                pick -= c.weights.get(kind).copied().unwrap_or(0) as usize;
                kind += 1;
            }
            let host = match kind {
                7 => 11,
                8 => 12,
                9 => 13,
                _ => 10,
            };
            let own;
            let from = if host == 10 && g.below(16) < c.again as usize {
                &regulars[g.below(2)]
            } else {
                own = bind(ip(net, host), 0).await?;
                &own
            };
            let id = g.next() as u8;
            n += 1;
            let mut d = request(id, n, match kind {
                1 => 0,
                2 => 2,
                3 => 3,
                4 => 4,
                _ => 1,
            });
            match kind {
                5 => d[0] = 4,
                6 => {
                    // an attribute that ends beyond the packet
                    let k = d.len() - 8;
                    d[k] = 200;
                }
                10 => d.truncate(g.below(20)),
                _ => {}
            }
            net::send(from, &d, addr).await?;
            if kind == 4 {
                for _ in 0..1 + g.below(3) {
                    net::send(from, &d, addr).await?;
                }
            }
            if i % 16 == 15 || i + 1 == amount {
                sync(&sentinel, addr, &mut n).await?;
                // those that wait may end, each of the batch in the same way
                let _ = gate_tx.send(1 + g.below(3) as u8);
                until("", || begun.load(Ordering::SeqCst) == ended.load(Ordering::SeqCst)).await.map_err(|_| "TIMEOUT: handlers do not end although nothing holds them".to_owned())?;
                let _ = gate_tx.send(0);
                until("", || tasks() <= base.1).await.map_err(|_| format!("TIMEOUT: {} more tasks are alive than before the requests, and no handler runs", tasks() - base.1))?;
                for r in &regulars {
                    let mut b = [0; 100];
                    while r.try_recv(&mut b).is_ok() {}
                }
            }
        }
        back("after the requests were dealt with", base).await?;
        let now = BYTES.load(Ordering::Relaxed);
        if phase == 1 {
            let grown = now - level;
            ensure!(grown < 16 << 10, "the process has grown by {grown} bytes with {requests} requests that are over");
            obs.label(format!("grown by {} KB", grown.max(0) / 4096 * 4));
        }
        level = now;
    }
    let _ = stop.send(());
    tokio::time::timeout(net::patience(), task).await.map_err(|_| "TIMEOUT: run does not return after the trigger".to_owned())?.map_err(|e| format!("run: {e}"))?.map_err(|e| format!("run: {e}"))?;
    until("", || tasks() == 0).await.map_err(|_| "TIMEOUT: tasks are alive after run has returned and no handler runs".to_owned())?;
    obs.nontrivial();
    Ok(())
}

// ---------------------------------------------------------------- a server that is gone

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gone {
    /// what the handlers of the requests do
    acts: Vec<u8>,
    /// the server was run and stopped so often before
    runs: u8,
    /// how the last run ends: by its trigger, by dropping it
    dropped: bool,
    /// what the handlers that wait do at last
    last: u8,
    /// the requests are still unread when the run ends
    unread: u8,
}

async fn gone(c: &Gone, obs: &mut Obs) -> Result<(), String> {
    let net = own_net();
    let base = (sockets(), tasks());
    let (gate_tx, gate) = watch::channel(0u8);
    let (begun, ended) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let token = Arc::new(());
    struct Held<T>(T, #[allow(dead_code)] Arc<()>);
    #[async_trait]
    impl RequestHandler<(), ()> for Held<Act> {
        async fn handle_radius_request(&self, conn: &UdpSocket, request: &Request) -> Result<(), ()> {
            self.0.handle_radius_request(conn, request).await
        }
    }
    impl SecretProvider for Held<Peers> {
        fn fetch_secret(&self, a: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
            self.0.fetch_secret(a)
        }
    }
    let other = Arc::new(());
    let (wh, wp): (Weak<()>, Weak<()>) = (Arc::downgrade(&token), Arc::downgrade(&other));
    let mut srv = Server::<(), (), _, _>::listen(&ip(net, 1).to_string(), 0, Held(Act { gate, begun: begun.clone(), ended: ended.clone() }, token), Held(Peers, other))
        .await
        .map_err(|e| format!("the server cannot listen: {e}"))?;
    let addr = srv.get_listen_address().map_err(|e| format!("no listening address: {e}"))?;
    let peer = bind(ip(net, 10), 0).await?;
    let sentinel = bind(ip(net, 250), 0).await?;
    let mut n = 0u64;
    let mut waiting = 0;
    let mut sent = 0;
    for round in 0..=c.runs {
        let (stop, rx) = oneshot::channel::<()>();
        let task = tokio::spawn(async move {
            let r = srv.run(rx).await;
            (srv, r)
        });
        for (i, a) in c.acts.iter().enumerate() {
            if i % (c.runs as usize + 1) == round as usize {
                n += 1;
                net::send(&peer, &request(sent as u8, n, *a), addr).await?;
                sent += 1;
                waiting += usize::from(*a == 4);
            }
        }
        sync(&sentinel, addr, &mut n).await?;
        if round == c.runs {
            for i in 0..c.unread {
                n += 1;
                net::send(&peer, &request(200 + i % 50, n, 1), addr).await?;
            }
        }
        if round == c.runs && c.dropped {
            task.abort();
            let _ = task.await;
            break;
        }
        let _ = stop.send(());
        let (s, r) = tokio::time::timeout(net::patience(), task).await.map_err(|_| "TIMEOUT: run does not return after the trigger".to_owned())?.map_err(|e| format!("run: {e}"))?;
        r.map_err(|e| format!("run: {e}"))?;
        if round == c.runs {
            drop(s);
            break;
        }
        srv = s;
    }
    let _ = gate_tx.send(c.last.clamp(1, 3));
    until("", || wh.strong_count() == 0 && wp.strong_count() == 0).await.map_err(|_| {
        format!("TIMEOUT: the server is gone and no handler is held, but {} is still kept", if wh.strong_count() > 0 { "the request handler" } else { "the secret provider" })
    })?;
    ensure!(begun.load(Ordering::SeqCst) == ended.load(Ordering::SeqCst), "a handler is neither running nor ended");
    let mut again = None;
    for _ in 0..300 {
        match std::net::UdpSocket::bind(addr) {
            Ok(s) => {
                again = Some(s);
                break;
            }
            Err(_) => tokio::time::sleep(Duration::from_millis(10)).await,
        }
    }
    ensure!(again.is_some(), "TIMEOUT: the server is gone and its handlers have ended, but its address is still in use");
    drop(again);
    drop((peer, sentinel));
    back("after the server was gone", base).await?;
    if waiting > 0 || c.dropped || c.runs > 0 {
        obs.nontrivial();
    }
    obs.label(if c.dropped { "run dropped" } else { "run stopped" });
    if waiting > 0 {
        obs.label("handlers outlive the server");
    }
    Ok(())
}

// ---------------------------------------------------------------- C31

pub fn c31(cx: &Cx) {
    COUNTING.store(true, Ordering::SeqCst);
    cx.rule("sends: groups of simultaneous sends of a client that are answered (after discards), time out, are given up at any point, cannot be encoded or reach nobody; non-trivial when not all are simply answered; oracle: afterwards no socket is open and no task alive that was not before");
    cx.drive_opts(
        "sends",
        cx.n(600, 20_000),
        300,
        || (vec(vec(how(), 1..=8), 1..=4), any::<bool>(), any::<bool>()).prop_map(|(groups, patient, one_client)| Sends { groups, patient, one_client }),
        |c, obs| {
            let _g = alone();
            let o = Mutex::new(Obs::default());
            let r = net::steady(|| {
                let mut x = Obs::default();
                let r = block_on(sends(c, &mut x));
                *o.lock().unwrap() = x;
                r
            });
            *obs = o.into_inner().unwrap();
            r
        },
    );
    cx.rule("load: a server that deals with thousands of requests, most from peers of their own, in random proportions answered, ignored, failed, panicking, repeated while handled, inauthentic, undecodable, or without a usable secret, and one client's thousands of sends; non-trivial always; oracle: alive tasks are as many as unfinished handlers, and the memory in use does not grow with the requests that are over");
    let requests = if cx.thorough { 12_000 } else { 3000 };
    let run_load = |c: &Load, obs: &mut Obs| {
        let _g = alone();
        let o = Mutex::new(Obs::default());
        let r = net::steady(|| {
            let mut x = Obs::default();
            let r = block_on(load(c, requests, &mut x));
            *o.lock().unwrap() = x;
            r
        });
        *obs = o.into_inner().unwrap();
        r
    };
    let rest = || (prop_oneof![Just(0u8), 0u8..16], prop::bool::weighted(0.2), any::<u64>());
    for (k, name) in KIND.iter().enumerate() {
        let make = move || rest().prop_map(move |(again, skip, seed)| Load { weights: (0..KIND.len()).map(|i| u8::from(i == k)).collect(), again, skip, seed });
        cx.drive_opts(&format!("load, {name}"), if cx.thorough { 40 } else { 1 }, 2, make, run_load);
    }
    cx.drive_opts("load", cx.n(16, 400), 4, || (vec(0u8..=16, KIND.len()), rest()).prop_map(|(weights, (again, skip, seed))| Load { weights, again, skip, seed }), run_load);
    cx.drive_opts("client load", cx.n(8, 200), 4, || vec(how(), 1..=6).prop_map(|hows| Sends { groups: vec![hows], patient: false, one_client: true }), |c, obs| {
        let _g = alone();
        let mut c = c.clone();
        // (the same histories over and over, from one client)
        let hows: Vec<How> = c.groups.iter().flatten().map(|h| match h {
            How::Timeout(_) => How::Timeout(1),
            How::Cancelled(_) => How::Cancelled(0),
            h => *h,
        }).collect();
        c.groups = (0..60).map(|_| hows.clone()).collect();
        let mut levels = vec![];
        for _ in 0..4 {
            let mut x = Obs::default();
            net::steady(|| block_on(sends(&c, &mut Obs::default())))?;
            x.nontrivial();
            *obs = x;
            levels.push(BYTES.load(Ordering::Relaxed));
        }
        let grown = levels[3] - levels[1];
        ensure!(grown < 8 << 10, "the process has grown by {grown} bytes with {} sends that are over", 120 * hows.len());
        Ok(())
    });
    cx.rule("gone: servers that are stopped by the trigger or dropped, after several runs, while handlers are still at work and requests unread; non-trivial when a handler outlives the run, or the run is dropped or repeated; oracle: once the handlers end, handler and provider are released, the address can be bound again, and no socket or task is left");
    cx.drive_opts(
        "gone",
        cx.n(600, 20_000),
        300,
        || (vec(0u8..=4, 0..12), 0u8..3, any::<bool>(), 1u8..=3, 0u8..5).prop_map(|(acts, runs, dropped, last, unread)| Gone { acts, runs, dropped, last, unread }),
        |c, obs| {
            let _g = alone();
            let o = Mutex::new(Obs::default());
            let r = net::steady(|| {
                let mut x = Obs::default();
                let r = block_on(gone(c, &mut x));
                *o.lock().unwrap() = x;
                r
            });
            *obs = o.into_inner().unwrap();
            r
        },
    );
    COUNTING.store(false, Ordering::SeqCst);
}

//! A real server on a loopback address of its own, with scripted handlers and secrets, and peers that talk to it.

use crate::engine::B;
use crate::refimpl as rf;
use async_trait::async_trait;
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;
use tokio::sync::{oneshot, watch};
use tokio::task::JoinHandle;

/// What the secret provider says about a peer.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SecretPlan {
    Secret(B),
    Empty,
    Fail,
    Panic,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Outcome {
    /// answers with Access-Accept
    Reply,
    /// ends without answering
    Quiet,
    Error,
    Panic,
}

pub struct Plan {
    /// the handler waits until this holds an outcome
    pub gate: Option<watch::Receiver<Option<Outcome>>>,
    pub outcome: Outcome,
}

/// What a handler saw.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub remote: SocketAddr,
    pub local: SocketAddr,
    pub code: Code,
    pub id: u8,
    pub auth: Vec<u8>,
    pub secret: Vec<u8>,
    /// attributes by type
    pub attrs: Vec<Vec<Vec<u8>>>,
    /// attributes in wire order, from encoding the packet again
    pub wire: Option<Vec<u8>>,
    pub ended: bool,
}

#[derive(Default)]
pub struct Shared {
    pub calls: Mutex<Vec<Call>>,
    pub secrets: Mutex<HashMap<SocketAddr, SecretPlan>>,
    pub plans: Mutex<HashMap<(SocketAddr, u8), VecDeque<Plan>>>,
    /// outcome where no plan is set
    pub otherwise: Mutex<Option<Outcome>>,
}

pub struct Handler(pub Arc<Shared>);
pub struct Provider(pub Arc<Shared>);

struct Ended(Arc<Shared>, usize);
impl Drop for Ended {
    fn drop(&mut self) {
        if let Some(c) = self.0.calls.lock().unwrap_or_else(|e| e.into_inner()).get_mut(self.1) {
            c.ended = true;
        }
    }
}

pub fn view(request: &Request) -> Call {
    let p = request.get_packet();
    Call {
        remote: request.get_remote_addr(),
        local: request.get_local_addr(),
        code: p.get_code(),
        id: p.get_identifier(),
        auth: p.get_authenticator().clone(),
        secret: p.get_secret().clone(),
        attrs: crate::p_dict::contents(p),
        wire: p.encode().ok().map(|w| w[20..].to_vec()),
        ended: false,
    }
}

#[async_trait]
impl RequestHandler<(), String> for Handler {
    async fn handle_radius_request(&self, conn: &UdpSocket, request: &Request) -> Result<(), String> {
        let call = view(request);
        let key = (call.remote, call.id);
        let idx = {
            let mut l = self.0.calls.lock().unwrap();
            l.push(call);
            l.len() - 1
        };
        let _ended = Ended(self.0.clone(), idx);
        let plan = self.0.plans.lock().unwrap().get_mut(&key).and_then(|q| q.pop_front());
        let mut outcome = self.0.otherwise.lock().unwrap().unwrap_or(Outcome::Reply);
        if let Some(plan) = plan {
            outcome = plan.outcome;
            if let Some(mut g) = plan.gate {
                loop {
                    let v = *g.borrow();
                    if let Some(o) = v {
                        outcome = o;
                        break;
                    }
                    if g.changed().await.is_err() {
                        std::future::pending::<()>().await;
                    }
                }
            }
        }
        match outcome {
            Outcome::Reply => {
                let p = request.get_packet();
                let mut r = p.make_response_packet(Code::AccessAccept);
                r.add(AVP::from_bytes(33, p.get_authenticator()));
                let b = r.encode().map_err(|e| e.to_string())?;
                conn.send_to(&b, request.get_remote_addr()).await.map_err(|e| e.to_string())?;
                Ok(())
            }
            Outcome::Quiet => Ok(()),
            Outcome::Error => Err("injected error".to_owned()),
            Outcome::Panic => panic!("injected panic"),
        }
    }
}

impl SecretProvider for Provider {
    fn fetch_secret(&self, remote_addr: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        let plan = self.0.secrets.lock().unwrap().get(&remote_addr).cloned();
        match plan {
            Some(SecretPlan::Secret(s)) => Ok(s.0),
            Some(SecretPlan::Empty) => Ok(vec![]),
            Some(SecretPlan::Fail) => Err(SecretProviderError::FailedFetchingError("injected failure".to_owned())),
            Some(SecretPlan::Panic) => panic!("injected provider panic"),
            None => Err(SecretProviderError::GenericError("unknown peer".to_owned())),
        }
    }
}

pub type Srv = Server<(), String, Handler, Provider>;

/// Set once a failure that rests on a time limit is confirmed, so that shrinking it does not take for ever.
static IMPATIENT: AtomicBool = AtomicBool::new(false);

pub fn patience() -> Duration {
    if IMPATIENT.load(Ordering::Relaxed) {
        Duration::from_millis(600)
    } else {
        Duration::from_secs(6)
    }
}

/// Runs a check whose errors that start with TIMEOUT rest on a time limit; those must show three times in a row.
pub fn steady(f: impl Fn() -> Result<(), String>) -> Result<(), String> {
    let mut r = f();
    if IMPATIENT.load(Ordering::Relaxed) {
        return r;
    }
    for _ in 0..2 {
        match &r {
            Err(e) if e.starts_with("TIMEOUT") => r = f(),
            _ => return r,
        }
    }
    if matches!(&r, Err(e) if e.starts_with("TIMEOUT")) {
        IMPATIENT.store(true, Ordering::Relaxed);
    }
    r
}

/// Polls until the condition holds.
pub async fn until(what: &str, mut cond: impl FnMut() -> bool) -> Result<(), String> {
    let t0 = Instant::now();
    let mut n = 0u32;
    while !cond() {
        n += 1;
        if n < 200 {
            tokio::task::yield_now().await;
        } else if t0.elapsed() > patience() {
            return Err(format!("TIMEOUT: {what}"));
        } else {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    Ok(())
}

static NEXT_NET: AtomicU32 = AtomicU32::new(0);

/// A loopback network of its own for a case: 127.x.y.0/24.
pub fn own_net() -> [u8; 3] {
    let n = NEXT_NET.fetch_add(1, Ordering::Relaxed).wrapping_add(std::process::id().wrapping_mul(7919));
    [127, 1 + (n >> 8) as u8 % 250, n as u8]
}

pub fn ip(net: [u8; 3], host: u8) -> std::net::IpAddr {
    std::net::IpAddr::from([net[0], net[1], net[2], host])
}

pub fn host_ip(family: Family, net: [u8; 3], host: u8) -> std::net::IpAddr {
    if family == Family::V6 { std::net::Ipv6Addr::LOCALHOST.into() } else { ip(net, host) }
}

pub fn seen_as(family: Family, a: SocketAddr) -> SocketAddr {
    match (family, a) {
        (Family::Dual, SocketAddr::V4(v4)) => SocketAddr::new(v4.ip().to_ipv6_mapped().into(), v4.port()),
        _ => a,
    }
}

pub async fn bind(addr: impl Into<std::net::IpAddr>, port: u16) -> Result<UdpSocket, String> {
    UdpSocket::bind(SocketAddr::new(addr.into(), port)).await.map_err(|e| format!("harness socket: {e}"))
}

/// The port a peer uses.
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub enum Port {
    #[default]
    Any,
    /// that of the other side
    Theirs,
    /// that of the first peer
    First,
    /// its neighbour
    Next,
    Is(u16),
}

impl Port {
    fn number(self, theirs: u16, first: Option<u16>) -> u16 {
        match self {
            Port::Any => 0,
            Port::Theirs => theirs,
            Port::First => first.unwrap_or(0),
            Port::Next => first.unwrap_or(0).wrapping_add(1),
            Port::Is(n) => n,
        }
    }
}

pub fn port() -> proptest::strategy::BoxedStrategy<Port> {
    use proptest::prelude::*;
    let known = vec![1u16, 2, 53, 80, 123, 255, 256, 512, 1023, 1024, 1645, 1646, 1812, 1813, 2083, 3799, 32_767, 32_768, 49_152, 65_534, 65_535];
    prop_oneof![
        6 => Just(Port::Any),
        1 => Just(Port::Theirs),
        2 => Just(Port::First),
        1 => Just(Port::Next),
        1 => prop::sample::select(known).prop_map(Port::Is),
        1 => any::<u64>().prop_map(|x| Port::Is(crate::lits::within(x, 1, 65_535).unwrap_or(0) as u16)),
    ]
    .boxed()
}

/// A socket with this port, or with any if it is not to be had.
pub async fn bind_near(addr: std::net::IpAddr, port: u16) -> Result<UdpSocket, String> {
    match UdpSocket::bind(SocketAddr::new(addr, port)).await {
        Ok(s) => Ok(s),
        Err(_) => bind(addr, 0).await,
    }
}

pub async fn bind_at(addr: std::net::IpAddr, port: Port) -> Result<UdpSocket, String> {
    bind_near(addr, port.number(0, None)).await
}

pub fn local(s: &UdpSocket) -> SocketAddr {
    s.local_addr().unwrap_or_else(|e| crate::engine::harness_error(&e.to_string()))
}

pub const SENTINEL: &[u8] = b"sentinel secret";

pub struct World {
    pub net: [u8; 3],
    /// where to send
    pub addr: SocketAddr,
    /// what the server listens on
    pub listen: SocketAddr,
    family: Family,
    pub shared: Arc<Shared>,
    pub task: JoinHandle<std::io::Result<()>>,
    pub shutdown: Option<oneshot::Sender<()>>,
    back: Option<oneshot::Receiver<Srv>>,
    sentinel: UdpSocket,
    sentinel_addr: SocketAddr,
    sentinel_n: u32,
}

/// What the server listens on.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Family {
    /// an address of the IPv4 loopback network
    #[default]
    V4,
    /// the IPv6 wildcard; its peers use IPv4, and it sees them as mapped addresses
    Dual,
    /// the IPv6 loopback address
    V6,
}

#[derive(Default)]
pub struct Options {
    pub buffer: Option<usize>,
    pub skip: bool,
    pub family: Family,
}

pub fn family() -> proptest::strategy::BoxedStrategy<Family> {
    use proptest::prelude::*;
    prop_oneof![4 => Just(Family::V4), 1 => Just(Family::Dual), 1 => Just(Family::V6)].boxed()
}

/// Whether this machine has IPv6 sockets, and such that serve IPv4 as well.
pub fn has_v6() -> (bool, bool) {
    static HAS: std::sync::OnceLock<(bool, bool)> = std::sync::OnceLock::new();
    *HAS.get_or_init(|| {
        let alone = std::net::UdpSocket::bind("[::1]:0").is_ok();
        let both = || -> std::io::Result<bool> {
            let s = std::net::UdpSocket::bind("[::]:0")?;
            s.set_read_timeout(Some(Duration::from_millis(500)))?;
            let c = std::net::UdpSocket::bind("127.0.0.1:0")?;
            c.send_to(b"x", SocketAddr::from(([127, 0, 0, 1], s.local_addr()?.port())))?;
            let mut b = [0; 4];
            Ok(s.recv_from(&mut b)?.1.ip() == std::net::IpAddr::V6(std::net::Ipv4Addr::LOCALHOST.to_ipv6_mapped()))
        };
        (alone, both().unwrap_or(false))
    })
}

impl World {
    pub async fn start(o: Options) -> Result<World, String> {
        let net = own_net();
        let shared = Arc::new(Shared::default());
        let family = match (o.family, has_v6()) {
            (Family::V6, (true, _)) => Family::V6,
            (Family::Dual, (_, true)) => Family::Dual,
            _ => Family::V4,
        };
        let host = match family {
            Family::V4 => ip(net, 1).to_string(),
            Family::Dual => "[::]".to_owned(),
            Family::V6 => "[::1]".to_owned(),
        };
        let mut srv: Srv = Server::listen(&host, 0, Handler(shared.clone()), Provider(shared.clone()))
            .await
            .map_err(|e| format!("the server cannot listen: {e}"))?;
        if let Some(b) = o.buffer {
            srv.set_buffer_size(b);
        }
        if o.skip {
            srv.set_skip_authenticity_validation(true);
        }
        let listen = srv.get_listen_address().map_err(|e| format!("no listening address: {e}"))?;
        let addr = if family == Family::Dual { SocketAddr::new(ip(net, 1), listen.port()) } else { listen };
        let (tx, back, task) = Self::run(srv);
        let sentinel = bind(host_ip(family, net, 250), 0).await?;
        let sentinel_addr = seen_as(family, local(&sentinel));
        shared.secrets.lock().unwrap().insert(sentinel_addr, SecretPlan::Secret(B(SENTINEL.to_vec())));
        Ok(World { net, addr, listen, family, shared, task, shutdown: Some(tx), back: Some(back), sentinel, sentinel_addr, sentinel_n: 0 })
    }

    /// A peer's socket; on IPv6 they all have one address.
    pub async fn bind(&self, host: u8, port: u16) -> Result<UdpSocket, String> {
        bind(host_ip(self.family, self.net, host), port).await
    }

    /// A peer's socket on a port of the kind, if it is free.
    pub async fn bind_at(&self, host: u8, port: Port, first: Option<u16>) -> Result<UdpSocket, String> {
        bind_near(host_ip(self.family, self.net, host), port.number(self.addr.port(), first)).await
    }

    /// The peer's address as the server sees it.
    pub fn seen(&self, s: &UdpSocket) -> SocketAddr {
        seen_as(self.family, local(s))
    }

    /// Whether a datagram from there is the server's (a wildcard socket answers from an address of the kernel's choice).
    fn mine(&self, from: SocketAddr) -> bool {
        from == self.addr || self.family == Family::Dual && from.port() == self.addr.port()
    }

    fn run(mut srv: Srv) -> (oneshot::Sender<()>, oneshot::Receiver<Srv>, JoinHandle<std::io::Result<()>>) {
        let (tx, rx) = oneshot::channel::<()>();
        let (back_tx, back) = oneshot::channel();
        let task = tokio::spawn(async move {
            let r = srv.run(rx).await;
            let _ = back_tx.send(srv);
            r
        });
        (tx, back, task)
    }

    /// Stops the run, changes the settings that are given, and runs the same server again.
    pub async fn restart(&mut self, buffer: Option<usize>, skip: Option<bool>) -> Result<(), String> {
        let Some(tx) = self.shutdown.take() else { return Err("harness: no trigger".to_owned()) };
        if tx.send(()).is_err() {
            return Err("the server dropped the trigger".to_owned());
        }
        until("run does not return after the trigger", || self.task.is_finished()).await?;
        match (&mut self.task).await {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("run fails at the trigger: {e}")),
            Err(e) => return Err(format!("run panics: {e}")),
        }
        let srv = self.back.take().and_then(|mut b| b.try_recv().ok());
        let Some(mut srv) = srv else { return Err("harness: the server did not come back".to_owned()) };
        if let Some(b) = buffer {
            srv.set_buffer_size(b);
        }
        if let Some(s) = skip {
            srv.set_skip_authenticity_validation(s);
        }
        let (tx, back, task) = Self::run(srv);
        self.shutdown = Some(tx);
        self.back = Some(back);
        self.task = task;
        Ok(())
    }

    pub fn secret(&self, peer: SocketAddr, s: SecretPlan) {
        self.shared.secrets.lock().unwrap().insert(peer, s);
    }

    /// A gate for the next request with this identifier from this peer.
    pub fn gate(&self, peer: SocketAddr, id: u8) -> watch::Sender<Option<Outcome>> {
        let (tx, rx) = watch::channel(None);
        self.shared.plans.lock().unwrap().entry((peer, id)).or_default().push_back(Plan { gate: Some(rx), outcome: Outcome::Reply });
        tx
    }

    pub fn plan(&self, peer: SocketAddr, id: u8, outcome: Outcome) {
        self.shared.plans.lock().unwrap().entry((peer, id)).or_default().push_back(Plan { gate: None, outcome });
    }

    pub fn unplan(&self, peer: SocketAddr, id: u8) {
        self.shared.plans.lock().unwrap().remove(&(peer, id));
    }

    /// The calls so far, without the sentinel's.
    pub fn calls(&self) -> Vec<Call> {
        self.shared.calls.lock().unwrap().iter().filter(|c| c.remote != self.sentinel_addr).cloned().collect()
    }

    pub fn count(&self) -> usize {
        self.shared.calls.lock().unwrap().iter().filter(|c| c.remote != self.sentinel_addr).count()
    }

    pub async fn wait_calls(&self, n: usize, what: &str) -> Result<(), String> {
        until(what, || self.count() >= n).await
    }

    /// A valid request of its own goes all the way through the server; whatever was sent before has been dealt with.
    pub async fn sync(&mut self) -> Result<(), String> {
        for _ in 0..2 {
            self.sentinel_n += 1;
            let id = self.sentinel_n as u8;
            let mut auth = [0u8; 16];
            auth[..4].copy_from_slice(&self.sentinel_n.to_be_bytes());
            let req = rf::build(1, id, &auth, &[]);
            self.sentinel.send_to(&req, self.addr).await.map_err(|e| format!("harness send: {e}"))?;
            let mut buf = vec![0; 4200];
            loop {
                let r = tokio::time::timeout(patience(), self.sentinel.recv_from(&mut buf)).await;
                let (n, from) = match r {
                    Err(_) => return Err(format!("TIMEOUT: a valid request from an uninvolved peer is not answered (run loop {})", if self.task.is_finished() { "ended" } else { "running" })),
                    Ok(r) => r.map_err(|e| format!("harness receive: {e}"))?,
                };
                if self.mine(from) && n >= 20 && buf[1] == id {
                    if !rf::is_authentic_response(&buf[..n], &req, SENTINEL) {
                        return Err("an uninvolved peer got a response that is not authentic".to_owned());
                    }
                    break;
                }
            }
        }
        Ok(())
    }

    /// A sentinel round trip that may fail; used while waiting for something else.
    pub async fn churn(&mut self) {
        let _ = self.sync().await;
    }

    /// Everything the peer's socket holds from the server.
    pub fn drain(&self, s: &UdpSocket) -> Vec<Vec<u8>> {
        let mut out = vec![];
        let mut buf = vec![0; 66000];
        while let Ok((n, from)) = s.try_recv_from(&mut buf) {
            if self.mine(from) {
                out.push(buf[..n].to_vec());
            }
        }
        out
    }

    /// The next datagram from the server.
    pub async fn recv(&self, s: &UdpSocket, what: &str) -> Result<Vec<u8>, String> {
        let mut buf = vec![0; 66000];
        loop {
            match tokio::time::timeout(patience(), s.recv_from(&mut buf)).await {
                Err(_) => return Err(format!("TIMEOUT: {what}")),
                Ok(Err(e)) => return Err(format!("harness receive: {e}")),
                Ok(Ok((n, from))) if self.mine(from) => return Ok(buf[..n].to_vec()),
                Ok(Ok(_)) => {}
            }
        }
    }
}

pub async fn send(s: &UdpSocket, data: &[u8], to: SocketAddr) -> Result<(), String> {
    s.send_to(data, to).await.map(|_| ()).map_err(|e| format!("harness send: {e}"))
}

pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap_or_else(|e| crate::engine::harness_error(&e.to_string()));
    let r = rt.block_on(f);
    rt.shutdown_background();
    r
}

/// As `block_on`, on several threads.
pub fn block_on_threads<T>(threads: usize, f: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(threads)
        .enable_all()
        .build()
        .unwrap_or_else(|e| crate::engine::harness_error(&e.to_string()));
    let r = rt.block_on(f);
    rt.shutdown_background();
    r
}

/// Numbers for long histories that are made from a seed.
pub struct Mix(pub u64);

impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

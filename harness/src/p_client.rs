//! C26, C27: the client against scripted peers; C28: client and server together.

use crate::clock;
use crate::engine::{harness_error, hex, Cx, Obs, B};
use crate::ensure;
use crate::lits;
use crate::gen::{self, bytes, lib_code, Mutation};
use crate::net::{self, bind, block_on, ip, local, patience, Family};
use crate::p_server::{pass, steady_obs};
use crate::p_dict::{contents, model_contents, seed, Added, Seed};
use crate::refimpl as rf;
use crate::table::{Api, Table};
use async_trait::async_trait;
use proptest::collection::vec;
use proptest::prelude::*;
use radius::client::{Client, ClientError};
use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::net::{IpAddr, SocketAddr};
use std::os::fd::AsFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;

// ---------------------------------------------------------------- datagrams a peer sends

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Key {
    Right,
    Longer,
    Other(B),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Peer,
    OtherPort,
    OtherAddress,
}

/// A datagram sent to a waiting client.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    /// a response like the genuine one but for what is given here
    Response {
        code: u8,
        /// added to the request's identifier
        id_off: u8,
        /// the authenticator of another request
        stale: Option<B>,
        key: Key,
        attrs: Vec<(u8, B)>,
        mutations: Vec<Mutation>,
        pad: B,
    },
    /// authentic, with an attribute area of its own
    Area { code: u8, area: B },
    /// authentic, with this Length
    Big(u16),
    /// signed as a request is
    AsRequest { code: u8, attrs: Vec<(u8, B)> },
    /// the request comes back, with a code of its own
    Echo(Option<u8>),
    /// the authenticator field of the request, unsigned
    Unsigned { code: u8, attrs: Vec<(u8, B)> },
    Raw(B),
    Huge(u16, u8),
}

impl Item {
    fn bytes(&self, req: &[u8], secret: &[u8]) -> Vec<u8> {
        let id = req[1];
        let auth = &req[4..20];
        match self {
            Item::Response { code, id_off, stale, key, attrs, mutations, pad } => {
                let key = match key {
                    Key::Right => secret.to_vec(),
                    Key::Longer => [secret, &[0]].concat(),
                    Key::Other(k) => k.0.clone(),
                };
                let a = stale.as_ref().map_or(auth, |b| &b[..]);
                let at = gen::attrs_wire(attrs);
                let mut w = rf::build(*code, id.wrapping_add(*id_off), &[0; 16], &at);
                let m = [&w[..4], a, &at, &key].concat();
                w[4..20].copy_from_slice(&rf::md5(&m));
                w.extend(&pad.0);
                mutations.iter().for_each(|m| gen::mutate(&mut w, m));
                w
            }
            Item::Area { code, area } => {
                let mut w = rf::build(*code, id, &[0; 16], area);
                let m = [&w[..4], auth, area, secret].concat();
                w[4..20].copy_from_slice(&rf::md5(&m));
                w
            }
            Item::Big(n) => {
                let n = (*n as usize).clamp(4097, 65_000);
                let area = vec![2; n - 20];
                Item::Area { code: 2, area: B(area) }.bytes(req, secret)
            }
            Item::AsRequest { code, attrs } => {
                let a = gen::attrs_wire(attrs);
                let mut w = rf::build(*code, id, &[0; 16], &a);
                let m = [&w[..], secret].concat();
                w[4..20].copy_from_slice(&rf::md5(&m));
                w
            }
            Item::Echo(code) => {
                let mut w = req.to_vec();
                if let Some(c) = code {
                    w[0] = *c;
                }
                w
            }
            Item::Unsigned { code, attrs } => rf::build(*code, id, auth, &gen::attrs_wire(attrs)),
            Item::Raw(b) => b.0.clone(),
            Item::Huge(n, x) => vec![*x; (*n as usize).min(65_000)],
        }
    }

    fn genuine() -> BoxedStrategy<Item> {
        (gen::code_of(&rf::RESP), prop_oneof![8 => gen::attrs(0..=4), 1 => gen::filled(3900..=4096)], prop_oneof![4 => Just(B(vec![])), 1 => bytes(1..=30)])
            .prop_map(|(code, attrs, pad)| Item::Response { code, id_off: 0, stale: None, key: Key::Right, attrs, mutations: vec![], pad })
            .boxed()
    }

    fn any() -> BoxedStrategy<Item> {
        let code = || prop_oneof![6 => gen::code_of(&rf::RESP), 1 => gen::any_code_octet()];
        let near = prop_oneof![
            // one thing wrong
            3 => Just((1u8, None, Key::Right, vec![])),
            2 => (1u8..=255).prop_map(|d| (d, None, Key::Right, vec![])),
            3 => gen::auth().prop_map(|a| (0, Some(a), Key::Right, vec![])),
            2 => Just((0, None, Key::Longer, vec![])),
            3 => prop_oneof![gen::secret(), Just(B(vec![]))].prop_map(|k| (0, None, Key::Other(k), vec![])),
            6 => vec(gen::mutation(), 1..=2).prop_map(|m| (0, None, Key::Right, m)),
        ];
        prop_oneof![
            10 => (code(), near, gen::attrs(0..=3), prop_oneof![4 => Just(B(vec![])), 1 => bytes(1..=30)])
                .prop_map(|(code, (id_off, stale, key, mutations), attrs, pad)| Item::Response { code, id_off, stale, key, attrs, mutations, pad }),
            2 => (code(), gen::attrs(0..=3)).prop_map(|(code, attrs)| Item::AsRequest { code, attrs }),
            2 => prop::option::of(code()).prop_map(Item::Echo),
            2 => (code(), gen::attrs(0..=3)).prop_map(|(code, attrs)| Item::Unsigned { code, attrs }),
            2 => bytes(0..=60).prop_map(Item::Raw),
            1 => Just(Item::Raw(B(vec![]))),
            1 => (any::<u16>(), gen::octet()).prop_map(|(n, x)| Item::Huge(n, x)),
        ]
        .boxed()
    }

    /// Authentic, though it does not decode (mostly).
    fn broken() -> BoxedStrategy<Item> {
        prop_oneof![
            3 => (gen::code_of(&rf::RESP), bytes(1..=12)).prop_map(|(code, area)| Item::Area { code, area }),
            2 => (gen::code_of(&rf::RESP), gen::attrs(0..=3), 0u8..=1).prop_map(|(code, at, n)| Item::Area { code, area: B([&gen::attrs_wire(&at)[..], &[1, n]].concat()) }),
            1 => prop_oneof![4097u16..=4110, 4097u16..=65_000].prop_map(Item::Big),
        ]
        .boxed()
    }
}

fn answers(d: &[u8], req: &[u8], secret: &[u8]) -> bool {
    rf::is_authentic_response(d, req, secret) && d[1] == req[1]
}

/// The client's result against the datagram that answers the request.
fn judge(r: Result<Packet, ClientError>, d: &[u8], secret: &[u8]) -> Result<(), String> {
    match (rf::parse(d), r) {
        (Ok(want), Ok(p)) => {
            let code = if rf::ALL_CODES.contains(&want.code) { lib_code(want.code) } else { Code::Invalid };
            ensure!(p.get_code() == code, "the response's code {} is returned as {:?}", want.code, p.get_code());
            ensure!(p.get_identifier() == want.id, "the response's identifier {} is returned as {}", want.id, p.get_identifier());
            ensure!(contents(&p) == model_contents(&want.attrs), "the attributes returned differ from those of {}", hex(d));
            ensure!(p.get_authenticator()[..] == want.auth[..], "the authenticator returned is {}", hex(p.get_authenticator()));
            ensure!(p.get_secret()[..] == *secret, "the secret of the returned packet differs");
            Ok(())
        }
        (Err(_), Err(ClientError::FailedDecodingRadiusResponseError(_))) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("the send ends with {e:?} where {} answers the request", hex(d))),
        (Err(_), r) => Err(format!("the send ends with {r:?} where {} is authentic and does not decode", hex(d))),
    }
}

fn request_packet(code: u8, id: u8, auth: &B, attrs: &[(u8, B)], secret: &[u8]) -> Result<Packet, String> {
    let base = Packet::decode(&rf::build(1, id, auth, &[]), secret).map_err(|e| e.to_string())?;
    let mut p = base.make_response_packet(lib_code(code));
    for (t, v) in attrs {
        p.add(AVP::from_bytes(*t, v));
    }
    Ok(p)
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    family: Family,
    #[serde(default)]
    port: net::Port,
    code: u8,
    id: u8,
    auth: B,
    secret: B,
    attrs: Vec<(u8, B)>,
    items: Vec<(Src, Item)>,
    last: Item,
    /// what comes right after the datagram that answers, before the client has had its turn
    after: Vec<(Src, Item)>,
    /// all of it comes before the client has its turn
    burst: bool,
    timeouts: (bool, bool),
    /// milliseconds before each datagram (as powers of two)
    pauses: Vec<u8>,
}

fn talk() -> BoxedStrategy<Talk> {
    let from = prop_oneof![6 => Just(Src::Peer), 1 => Just(Src::OtherPort), 1 => Just(Src::OtherAddress)];
    let other = prop_oneof![Just(Src::OtherPort), Just(Src::OtherAddress)];
    let item = prop_oneof![
        8 => (from.clone(), Item::any()),
        2 => (other, Item::genuine()),
        1 => (Just(Src::Peer), Item::broken()),
    ];
    let after = prop_oneof![3 => (from.clone(), Item::any()), 4 => (from, Item::genuine()), 1 => (Just(Src::Peer), Item::broken())];
    let after = prop_oneof![2 => Just(vec![]), 1 => vec(after, 1..=3)];
    (
        ((net::family(), net::port()), prop_oneof![5 => gen::code_of(&[1, 4, 12, 40, 43]), 1 => gen::code_of(&rf::ENCODABLE)], gen::octet(), gen::auth()),
        (gen::secret(), prop_oneof![8 => gen::attrs(0..=4), 1 => gen::filled(3900..=4096)]),
        (vec(item, 0..=6), Item::genuine(), (any::<bool>(), any::<bool>()), vec(prop_oneof![5 => Just(0u8), 1 => 4u8..=18], 7)),
        (after, prop::bool::weighted(0.2)),
    )
        .prop_map(|(((family, port), code, id, auth), (secret, attrs), (items, last, timeouts, pauses), (after, burst))| Talk { family, port, code, id, auth, secret, attrs, items, last, after, burst, timeouts, pauses })
        .boxed()
}

fn home(v6: bool, netw: [u8; 3], host: u8) -> IpAddr {
    if v6 {
        IpAddr::from(std::net::Ipv6Addr::LOCALHOST)
    } else {
        ip(netw, host)
    }
}

async fn talks(c: &Talk, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let (alone, both) = net::has_v6();
    let family = match c.family {
        Family::V6 if !alone => Family::V4,
        Family::Dual if !both => Family::V4,
        f => f,
    };
    obs.label(format!("{family:?}"));
    let peer = net::bind_at(net::host_ip(family, netw, 1), c.port).await?;
    let other_port = bind(net::host_ip(family, netw, 1), 0).await?;
    // (with the same port, where there is another address)
    let other_address = net::bind_near(net::host_ip(family, netw, 2), local(&peer).port()).await?;
    // (an IPv4 peer may be named by its mapped address)
    let to = net::seen_as(family, local(&peer));
    let p = request_packet(c.code, c.id, &c.auth, &c.attrs, &c.secret)?;
    let due = p.encode().map_err(|e| format!("does not encode: {e}"))?;
    let long = Duration::from_secs(3600);
    let cl = Client::new(c.timeouts.0.then_some(long), c.timeouts.1.then_some(long));
    let before = p.clone();
    let task = tokio::spawn(async move {
        let r = cl.send_packet(&to, &p).await;
        (r, p)
    });
    let mut buf = vec![0; 66_000];
    let (n, from) = match tokio::time::timeout(patience(), peer.recv_from(&mut buf)).await {
        Err(_) => return Err("TIMEOUT: nothing is sent to the given address".to_owned()),
        Ok(r) => r.map_err(|e| format!("harness receive: {e}"))?,
    };
    ensure!(buf[..n] == due[..], "{} is sent, the packet's encoding is {}", hex(&buf[..n]), hex(&due));
    let mut answer: Option<Vec<u8>> = None;
    // (these send at once, without giving way to the client)
    let at_once = |s: &UdpSocket| s.as_fd().try_clone_to_owned().map(std::net::UdpSocket::from).map_err(|e| format!("harness socket: {e}"));
    let now = [at_once(&peer)?, at_once(&other_port)?, at_once(&other_address)?];
    let sender = |s: &Src| match s {
        Src::Peer => &now[0],
        Src::OtherPort => &now[1],
        Src::OtherAddress => &now[2],
    };
    for (k, (src, it)) in c.items.iter().map(|(f, i)| (f, i)).chain([(&Src::Peer, &c.last)]).enumerate() {
        let d = it.bytes(&due, &c.secret);
        // (what is waiting to be received must not get too much)
        let small = d.len() <= 5000;
        if c.burst && small {
            obs.label("all at once");
        } else if let Some(e) = c.pauses.get(k).filter(|e| **e > 0) {
            // (without a timeout, any time)
            pass(if c.timeouts.1 { (*e).min(18) } else { 2 * e }).await;
            obs.label("time goes by");
            if task.is_finished() {
                let (r, _) = task.await.map_err(|e| format!("the client panics: {e}"))?;
                return Err(format!("the send ends with {r:?} by itself, with the timeouts {:?} of an hour", c.timeouts));
            }
        }
        // (what comes from elsewhere may be refused)
        let r = sender(src).send_to(&d, from);
        if matches!(src, Src::Peer) {
            r.map_err(|e| format!("harness send: {e}"))?;
            if answers(&d, &due, &c.secret) {
                answer = Some(d.clone());
            } else {
                obs.nontrivial();
                obs.label("discarded");
            }
        } else {
            obs.nontrivial();
            obs.label("from elsewhere");
        }
        if answer.is_some() {
            for (src, it) in &c.after {
                let d = it.bytes(&due, &c.secret);
                if d.len() <= 5000 {
                    let _ = sender(src).send_to(&d, from);
                    obs.label("more right after the answer");
                }
            }
            break;
        }
        if c.burst && small {
            continue;
        }
        for _ in 0..6 {
            tokio::task::yield_now().await;
        }
        if !small {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        if task.is_finished() {
            let (r, _) = task.await.map_err(|e| format!("the client panics: {e}"))?;
            return Err(format!("the send ends with {r:?} after {} from {src:?}, which does not answer {}", hex(&d), hex(&due)));
        }
    }
    let Some(d) = answer else { harness_error("the last datagram is not authentic") };
    let (r, p) = match tokio::time::timeout(patience(), task).await {
        Err(_) => return Err(format!("TIMEOUT: the send does not end although {} answers {}", hex(&d), hex(&due))),
        Ok(r) => r.map_err(|e| format!("the client panics: {e}"))?,
    };
    if rf::parse(&d).is_err() {
        obs.label("authentic, undecodable");
    }
    judge(r, &d, &c.secret)?;
    ensure!(p == before, "sending changes the packet");
    // (errors reported by the client's closed socket come first)
    for _ in 0..20 {
        match now[0].recv_from(&mut buf) {
            Ok((n, _)) => return Err(format!("a second datagram is sent: {}", hex(&buf[..n]))),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
            Err(_) => {}
        }
    }
    Ok(())
}

/// One client, several sends to one peer: what answers one send is no answer to the next, however many datagrams
/// come in between.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Series {
    secrets: Vec<B>,
    /// (code, identifier, authenticator, which secret, datagrams to be discarded and how often, response); a datagram
    /// comes after so many milliseconds (as a power of two)
    sends: Vec<(u8, u8, B, u8, Vec<(u8, Item, u16)>, Item)>,
    /// milliseconds between the sends (as powers of two)
    gaps: Vec<u8>,
}

fn series() -> BoxedStrategy<Series> {
    let times = prop_oneof![12 => Just(1u16), 4 => 2u16..=20, 2 => 60u16..=300, 1 => any::<u64>().prop_map(|x| lits::within(x, 1, 1500).unwrap_or(1) as u16)];
    let one = (
        prop_oneof![5 => gen::code_of(&[1, 4, 12, 40, 43]), 1 => gen::code_of(&rf::ENCODABLE)],
        prop_oneof![3 => 0u8..=1, 1 => gen::octet()],
        gen::auth(),
        gen::octet(),
        vec((prop_oneof![4 => Just(0u8), 1 => 4u8..=18], Item::any(), times), 0..=3),
        prop_oneof![6 => Item::genuine(), 1 => Item::broken()],
    );
    let gap = prop_oneof![3 => Just(0u8), 1 => 4u8..=33];
    (vec(gen::secret(), 1..=2), vec(one, 1..=5), vec(gap, 5)).prop_map(|(secrets, sends, gaps)| Series { secrets, sends, gaps }).boxed()
}

async fn serial(c: &Series, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let peer = bind(ip(netw, 1), 0).await?;
    let to = local(&peer);
    let cl = Arc::new(Client::new(Some(Duration::from_secs(3600)), Some(Duration::from_secs(3600))));
    let mut old: Vec<Vec<u8>> = vec![];
    let mut buf = vec![0; 66_000];
    for (k, (code, id, auth, s, junk, last)) in c.sends.iter().enumerate() {
        if let Some(e) = c.gaps.get(k).filter(|e| **e > 0) {
            pass(*e).await;
        }
        let secret = c.secrets[*s as usize % c.secrets.len()].0.clone();
        let p = request_packet(*code, *id, auth, &[(33, B(vec![k as u8]))], &secret)?;
        let due = p.encode().map_err(|e| format!("does not encode: {e}"))?;
        let task = {
            let cl = cl.clone();
            tokio::spawn(async move { cl.send_packet(&to, &p).await })
        };
        let (n, from) = match tokio::time::timeout(patience(), peer.recv_from(&mut buf)).await {
            Err(_) => return Err(format!("TIMEOUT: nothing is sent by send {k} of one client")),
            Ok(r) => r.map_err(|e| format!("harness receive: {e}"))?,
        };
        ensure!(buf[..n] == due[..], "send {k} of one client: {} is sent, the packet's encoding is {}", hex(&buf[..n]), hex(&due));
        let mut sent = 0;
        let mut over = false;
        let mut answer = None;
        // the responses to the sends before, then what else there is
        let stale = old.iter().map(|d| (0, d.clone(), 1)).collect::<Vec<_>>();
        let fresh = junk.iter().map(|(t, i, n)| (*t, i.bytes(&due, &secret), *n)).collect::<Vec<_>>();
        'all: for (wait, d, times) in stale.into_iter().chain(fresh).chain([(0, last.bytes(&due, &secret), 1)]) {
            if wait > 0 {
                pass(wait.min(18)).await;
                obs.label("time goes by");
                if task.is_finished() {
                    over = true;
                    break 'all;
                }
            }
            let good = answers(&d, &due, &secret);
            for _ in 0..if d.len() > 2000 { times.min(8) } else { times } {
                peer.send_to(&d, from).await.map_err(|e| format!("harness send: {e}"))?;
                sent += 1;
                if good {
                    answer = Some(d.clone());
                    break 'all;
                }
                obs.nontrivial();
                if sent % 8 == 0 || d.len() > 2000 {
                    for _ in 0..6 {
                        tokio::task::yield_now().await;
                    }
                    if d.len() > 5000 {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                }
                if task.is_finished() {
                    over = true;
                    break 'all;
                }
            }
        }
        if over {
            let r = task.await.map_err(|e| format!("the client panics: {e}"))?;
            return Err(format!("send {k} of one client ends with {r:?} although nothing answers {}; {sent} datagrams were sent to it", hex(&due)));
        }
        let Some(d) = answer else { harness_error("the last datagram is not authentic") };
        let r = match tokio::time::timeout(patience(), task).await {
            Err(_) => return Err(format!("TIMEOUT: send {k} of one client does not end although {} answers {}, after {} others", hex(&d), hex(&due), sent - 1)),
            Ok(r) => r.map_err(|e| format!("the client panics: {e}"))?,
        };
        judge(r, &d, &secret).map_err(|e| format!("send {k} of one client: {e}"))?;
        if sent > 100 {
            obs.label("over a hundred discarded");
        }
        // it may come twice, late, or where the client is no longer
        let _ = peer.send_to(&d, from).await;
        old.push(d);
    }
    if c.sends.len() > 1 {
        obs.label("several sends of one client");
    }
    let s = peer.into_std().map_err(|e| e.to_string())?;
    if let Ok((n, _)) = s.recv_from(&mut buf) {
        return Err(format!("a further datagram is sent: {}", hex(&buf[..n])));
    }
    Ok(())
}

async fn flood(junk: &Item, last: &Item, times: u32, id: u8, obs: &mut Obs) -> Result<(), String> {
    let peer = bind(ip(net::own_net(), 1), 0).await?;
    let to = local(&peer);
    let secret = b"flooded".to_vec();
    let p = request_packet(1, id, &B(vec![id; 16]), &[], &secret)?;
    let due = p.encode().map_err(|e| format!("does not encode: {e}"))?;
    let task = tokio::spawn(async move { Client::new(Some(Duration::from_secs(3600)), Some(Duration::from_secs(3600))).send_packet(&to, &p).await });
    let mut buf = vec![0; 66_000];
    let (_, from) = match tokio::time::timeout(patience(), peer.recv_from(&mut buf)).await {
        Err(_) => return Err("TIMEOUT: nothing is sent".to_owned()),
        Ok(r) => r.map_err(|e| format!("harness receive: {e}"))?,
    };
    let mut d = junk.bytes(&due, &secret);
    d.truncate(200);
    if answers(&d, &due, &secret) {
        d.clear();
    }
    let sender = peer.as_fd().try_clone_to_owned().map(std::net::UdpSocket::from).map_err(|e| format!("harness socket: {e}"))?;
    for k in 1..=times {
        sender.send_to(&d, from).map_err(|e| format!("harness send: {e}"))?;
        if k % 32 == 0 {
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
            ensure!(!task.is_finished(), "the send ends after {k} datagrams {}, which do not answer {}", hex(&d), hex(&due));
        }
    }
    obs.nontrivial();
    obs.label("more than 65,536 discarded");
    // (what is still waiting may leave it no room)
    pass(6).await;
    let d = last.bytes(&due, &secret);
    sender.send_to(&d, from).map_err(|e| format!("harness send: {e}"))?;
    let r = match tokio::time::timeout(patience(), task).await {
        Err(_) => return Err(format!("TIMEOUT: the send does not end although {} answers {}, after {times} others", hex(&d), hex(&due))),
        Ok(r) => r.map_err(|e| format!("the client panics: {e}"))?,
    };
    judge(r, &d, &secret).map_err(|e| format!("after {times} others: {e}"))
}

pub fn has_v6() -> bool {
    std::net::UdpSocket::bind("[::1]:0").is_ok()
}

pub fn c26(cx: &Cx) {
    cx.rule("talk: a peer of IPv4, IPv6 or IPv4 named by its mapped address, a request of any encodable code, then up to six datagrams (responses with another identifier, another request's authenticator, another secret, mutations, wrong lengths; request-style signatures, echoes, garbage, oversized; from the peer, another port, another address), then a genuine response; non-trivial when a datagram must be discarded; oracle: independent authenticity rule, the datagram that answers, and the exact octets sent");
    cx.drive_opts("talk", cx.n(8_000, 160_000), 300, talk, |c, obs| steady_obs(obs, |o| block_on(talks(c, o))));
    cx.rule("series: up to five sends of one client object, each first met with the responses to those before and up to 300 datagrams of a kind that must be discarded; oracle: the same");
    cx.drive_opts("series", cx.n(2_500, 50_000), 200, series, |c, obs| steady_obs(obs, |o| block_on(serial(c, o))));
    cx.rule("flood: one send that is met with more datagrams to be discarded than 16 bits count; oracle: the same");
    cx.drive_opts("flood", cx.n(2, 16), 2, || (Item::any(), Item::genuine(), 65_540u32..=70_000, gen::octet()), |(junk, last, n, id): &(Item, Item, u32, u8), obs| steady_obs(obs, |o| block_on(flood(junk, last, *n, *id, o))));
}

// ---------------------------------------------------------------- C27

/// Runs on a clock that moves only when told.
fn on_stopped_clock<T>(f: impl std::future::Future<Output = T>) -> T {
    clock::stopped(|| block_on(f))
}

async fn advance(ms: u64) {
    clock::pass(Duration::from_millis(ms));
    pump(4).await;
}

/// Lets other tasks run, without moving the clock.
async fn pump(n: u32) {
    for i in 0..n {
        tokio::task::yield_now().await;
        if i % 16 == 15 {
            std::thread::sleep(Duration::from_micros(20));
        }
    }
}

/// As `until`, by the real clock.
async fn until_real(what: &str, mut cond: impl FnMut() -> bool) -> Result<(), String> {
    let t0 = clock::RealTime::now();
    while !cond() {
        pump(16).await;
        if t0.elapsed() > patience() {
            return Err(format!("TIMEOUT: {what}"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wait {
    connection_ms: Option<u64>,
    /// (None: no timeout; Some(None): the longest duration there is)
    socket_ms: Option<Option<u64>>,
    code: u8,
    id: u8,
    secret: B,
    /// (distance from the one before in thousandths of the timeout, datagram)
    junk: Vec<(u16, Item)>,
    /// when the genuine response comes, in thousandths of the timeout; beyond 1000 it is late
    answer: Option<(u16, Item)>,
}

fn wait() -> BoxedStrategy<Wait> {
    let ms = || prop_oneof![
        2 => 5u64..=100, 3 => 100u64..=5_000, 2 => 5_000u64..=120_000, 1 => 120_000u64..=90_000_000,
        // numbers that the code mentions, as milliseconds or seconds
        1 => any::<u64>().prop_map(|x| lits::within(x >> 1, 5, 90_000).unwrap_or(1000) as u64 * if x & 1 == 0 { 1 } else { 1000 }),
    ];
    let socket = prop_oneof![7 => ms().prop_map(|m| Some(Some(m))), 1 => (0u64..=4).prop_map(|m| Some(Some(m))), 1 => Just(None), 1 => Just(Some(None))];
    let at = prop_oneof![2 => 0u16..=950, 1 => Just(0u16), 1 => 900u16..=1000, 1 => 1001u16..=3000];
    (
        prop::option::of(prop_oneof![3 => ms(), 1 => Just(u64::MAX)]),
        socket,
        gen::code_of(&[1, 4, 12, 40, 43]),
        gen::octet(),
        gen::secret(),
        vec((0u16..=700, Item::any()), 0..=5),
        prop::option::weighted(0.6, (at, prop_oneof![5 => Item::genuine(), 1 => Item::broken()])),
    )
        .prop_map(|(connection_ms, socket_ms, code, id, secret, junk, answer)| Wait { connection_ms, socket_ms, code, id, secret, junk, answer })
        .boxed()
}

async fn waits(c: &Wait, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let peer = bind(ip(netw, 1), 0).await?.into_std().map_err(|e| e.to_string())?;
    let to = peer.local_addr().map_err(|e| e.to_string())?;
    let p = Packet::new_with_identifier(lib_code(c.code), &c.secret, c.id);
    let dur = |m: u64| if m == u64::MAX { Duration::MAX } else { Duration::from_millis(m) };
    let socket = c.socket_ms.map(|m| m.map_or(Duration::MAX, Duration::from_millis));
    let cl = Client::new(c.connection_ms.map(dur), socket);
    let limit = match c.socket_ms {
        Some(Some(m)) => Some(m),
        _ => None,
    };
    // what the scale of a wait without a limit is: beyond the connection timeout and any usual one
    let scale = limit.unwrap_or(40 * 86_400_000);
    let task = tokio::spawn(async move { cl.send_packet(&to, &p).await });
    let mut buf = vec![0; 66_000];
    let mut got = None;
    until_real("nothing is sent", || {
        if let Ok(x) = peer.recv_from(&mut buf) {
            got = Some(x);
        }
        // (no time at all may be too little to send)
        got.is_some() || limit == Some(0) && task.is_finished()
    })
    .await?;
    if got.is_none() {
        obs.label("no time at all");
        let r = task.await.map_err(|e| format!("the client panics: {e}"))?;
        ensure!(matches!(r, Err(ClientError::SocketTimeoutError())), "with a timeout of 0 ms the send ends with {r:?}");
        return Ok(());
    }
    let (n, from) = got.unwrap_or_else(|| harness_error("no datagram"));
    let req = buf[..n].to_vec();
    ensure!(n >= 20, "{} is sent", hex(&req));
    // events in order of time
    let mut t = 0u64;
    let mut events: Vec<(u64, Vec<u8>)> = vec![];
    for (d, it) in &c.junk {
        t += scale / 1000 * *d as u64 + scale % 1000 * *d as u64 / 1000;
        events.push((t, it.bytes(&req, &c.secret)));
    }
    if let Some((at, it)) = &c.answer {
        events.push((scale / 1000 * *at as u64 + scale % 1000 * *at as u64 / 1000, it.bytes(&req, &c.secret)));
    }
    events.sort_by_key(|e| e.0);
    if let Some(l) = limit {
        // two milliseconds around the end belong to neither side
        for e in &mut events {
            if e.0 + 2 > l && e.0 < l + 3 {
                e.0 = l.saturating_sub(3);
            }
        }
        events.retain(|e| l >= 4 || e.0 > l);
        events.sort_by_key(|e| e.0);
    }
    let mut now = 0u64;
    let end = limit.map(|l| (l.saturating_sub(2), l + 2));
    let mut expired = false;
    for (at, d) in events.iter().map(|e| (e.0, Some(&e.1))).chain([(u64::MAX, None)]) {
        // the timeout comes first
        if let Some((last, over)) = end {
            if at > last && !expired {
                if last > now {
                    advance(last - now).await;
                    now = last;
                    pump(32).await;
                    ensure!(!task.is_finished(), "the send ends before its timeout of {} ms: at {now} ms with {:?}", limit.unwrap_or_default(), task.await);
                }
                advance(over - now).await;
                now = over;
                expired = true;
                until_real(&format!("the send does not end with its timeout of {} ms", limit.unwrap_or_default()), || task.is_finished()).await?;
                break;
            }
        }
        let Some(d) = d else { break };
        if at > now {
            // in steps, as time does
            for k in 1..=3u64 {
                let next = if k == 3 { at } else { now + (at - now) / 3 };
                advance(next - now).await;
                now = next;
            }
            pump(32).await;
        }
        ensure!(!task.is_finished(), "the send ends at {now} ms, with a timeout of {:?}, before anything answers: {:?}", c.socket_ms, task.await);
        peer.send_to(d, from).map_err(|e| format!("harness send: {e}"))?;
        if answers(d, &req, &c.secret) {
            until_real(&format!("the send does not end although {} answers {} at {now} ms", hex(d), hex(&req)), || task.is_finished()).await?;
            obs.label("answered in time");
            obs.nontrivial();
            let r = task.await.map_err(|e| format!("the client panics: {e}"))?;
            return judge(r, d, &c.secret).map_err(|e| format!("{e}; at {now} ms of {:?}", c.socket_ms));
        }
        pump(if d.len() > 5000 { 128 } else { 32 }).await;
        obs.label("discarded while waiting");
        ensure!(!task.is_finished(), "the send ends with {:?} after {} at {now} ms of {:?}", task.await, hex(d), c.socket_ms);
    }
    if expired {
        obs.label("timed out");
        obs.nontrivial();
        return match task.await.map_err(|e| format!("the client panics: {e}"))? {
            Err(ClientError::SocketTimeoutError()) => Ok(()),
            r => Err(format!("the send ends with {r:?} at its timeout")),
        };
    }
    // no limit: it still waits much later, and an answer still ends it
    advance(90 * 86_400_000).await;
    pump(64).await;
    ensure!(!task.is_finished(), "without a timeout ({:?}) the send ends by itself with {:?}", c.socket_ms, task.await);
    let d = Item::Area { code: 2, area: B(vec![]) }.bytes(&req, &c.secret);
    peer.send_to(&d, from).map_err(|e| format!("harness send: {e}"))?;
    until_real("the send does not end although it is answered after a long time", || task.is_finished()).await?;
    obs.label("without a limit");
    obs.nontrivial();
    judge(task.await.map_err(|e| format!("the client panics: {e}"))?, &d, &c.secret)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// more than fits into an attribute or a packet, or a code that has no encoding
    LongAttribute(u16),
    LongPacket(u8),
    NoCode(u8),
    ClosedPort,
    Address(u8, u16),
    EmptySecret(Vec<Item>),
}

fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        3 => (254u16..=2000).prop_map(Fault::LongAttribute),
        3 => (17u8..=60).prop_map(Fault::LongPacket),
        3 => gen::code_of(&[0, 13, 255]).prop_map(Fault::NoCode),
        4 => Just(Fault::ClosedPort),
        3 => (gen::octet(), any::<u16>()).prop_map(|(k, p)| Fault::Address(k, p)),
        2 => vec(Item::any(), 0..=3).prop_map(Fault::EmptySecret),
    ]
    .boxed()
}

async fn faults(f: &Fault, id: u8, secret: &B, socket: Option<u64>, v6: bool, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let peer = bind(home(v6, netw, 1), 0).await?;
    let to = local(&peer);
    // (timeouts that the clock does not reach)
    let cl = Client::new(socket.map(Duration::from_secs), socket.map(Duration::from_secs));
    let mut code = 1;
    let mut at: Vec<(u8, B)> = vec![];
    match f {
        Fault::LongAttribute(n) => at.push((1, B(vec![1; *n as usize]))),
        Fault::LongPacket(n) => at.extend((0..*n).map(|i| (i, B(vec![2; 253])))),
        Fault::NoCode(c) => code = *c,
        _ => {}
    }
    obs.label(format!("{f:?}").split(['(', ' ']).next().unwrap_or_default().to_owned());
    obs.nontrivial();
    match f {
        Fault::LongAttribute(_) | Fault::LongPacket(_) | Fault::NoCode(_) => {
            let p = request_packet(code, id, &B(vec![id; 16]), &at, secret)?;
            let r = tokio::time::timeout(patience(), cl.send_packet(&to, &p)).await.map_err(|_| "TIMEOUT: sending a packet that cannot be encoded does not end".to_owned())?;
            ensure!(matches!(r, Err(ClientError::FailedRadiusPacketEncodingError(_))), "sending a packet that cannot be encoded ends with {r:?}");
            let s = peer.into_std().map_err(|e| e.to_string())?;
            let mut buf = vec![0; 66_000];
            if let Ok((n, _)) = s.recv_from(&mut buf) {
                return Err(format!("of a packet that cannot be encoded {} is sent", hex(&buf[..n])));
            }
            Ok(())
        }
        Fault::ClosedPort => {
            drop(peer);
            let p = request_packet(1, id, &B(vec![id; 16]), &[], secret)?;
            let r = tokio::time::timeout(patience(), cl.send_packet(&to, &p)).await.map_err(|_| "TIMEOUT: sending to a port nobody listens on does not end".to_owned())?;
            match r {
                Ok(_) => Err("a closed port answers".to_owned()),
                Err(ClientError::SocketTimeoutError()) | Err(ClientError::ConnectionTimeoutError()) => Err("sending to a port nobody listens on ends with a timeout before the timeout".to_owned()),
                Err(_) => Ok(()),
            }
        }
        Fault::Address(k, port) => {
            let to: SocketAddr = match k % 5 {
                0 => SocketAddr::new(home(v6, netw, 1), 0),
                1 => SocketAddr::from(([255, 255, 255, 255], (*port).max(1))),
                2 => SocketAddr::from(([127, 255, 255, 255], (*port).max(1))),
                3 => SocketAddr::from(([0u16; 8], 0)),
                _ => SocketAddr::from(([0u8; 4], 0)),
            };
            let p = request_packet(1, id, &B(vec![id; 16]), &[], secret)?;
            let r = tokio::time::timeout(patience(), Client::new(None, Some(Duration::from_millis(20))).send_packet(&to, &p)).await.map_err(|_| format!("TIMEOUT: sending to {to} does not end"))?;
            ensure!(r.is_err(), "{to} answers");
            Ok(())
        }
        Fault::EmptySecret(items) => {
            // nothing authenticates under an empty secret
            let p = request_packet(1, id, &B(vec![id; 16]), &[], &[])?;
            let cl = Client::new(None, Some(Duration::from_millis(8)));
            let answer = async {
                let mut buf = vec![0; 66_000];
                if let Ok(Ok((n, from))) = tokio::time::timeout(Duration::from_millis(500), peer.recv_from(&mut buf)).await {
                    let req = buf[..n].to_vec();
                    let good = Item::Area { code: 2, area: B(vec![]) };
                    for it in items.iter().chain([&good]) {
                        let _ = peer.send_to(&it.bytes(&req, &[]), from).await;
                    }
                }
            };
            let (r, _) = tokio::join!(tokio::time::timeout(patience(), cl.send_packet(&to, &p)), answer);
            let r = r.map_err(|_| "TIMEOUT: sending with an empty secret does not end".to_owned())?;
            ensure!(matches!(r, Err(ClientError::SocketTimeoutError())), "with an empty secret the send ends with {r:?}");
            Ok(())
        }
    }
}

pub fn c27(cx: &Cx) {
    let v6 = has_v6();
    cx.rule("wait: socket timeouts from 0 ms to a day, none and the longest, connection timeouts apart from them, up to five datagrams to be discarded at any times, and a genuine (or authentic but undecodable) response in time, late or never, on a clock moved by the check; non-trivial when the wait ended by answer or timeout as predicted; oracle: not ended two milliseconds before the timeout, ended with the timeout error two after it");
    cx.drive_opts("wait", cx.n(6_000, 120_000), 300, wait, |c, obs| steady_obs(obs, |o| on_stopped_clock(waits(c, o))));
    cx.rule("faults: packets that cannot be encoded, ports nobody listens on, addresses that cannot be sent to, empty secrets; oracle: kind of error, nothing sent, no panic");
    cx.drive_opts(
        "faults",
        cx.n(2_000, 30_000),
        200,
        || (fault(), gen::octet(), gen::secret(), prop::option::of(3600u64..=7200), any::<bool>()),
        |(f, id, secret, socket, six): &(Fault, u8, B, Option<u64>, bool), obs| steady_obs(obs, |o| block_on(faults(f, *id, secret, *socket, *six && v6, o))),
    );
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Exchange {
    server: u8,
    code: u8,
    id: Option<u8>,
    request: Vec<(u16, Seed)>,
    rcode: u8,
    response: Vec<(u16, Seed)>,
    /// how long the handler takes: yields, and milliseconds
    yields: u8,
    millis: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Meeting {
    servers: Vec<(bool, B)>,
    buffer: bool,
    one_client: bool,
    /// each inner list is sent in turn, the lists at once
    lanes: Vec<Vec<Exchange>>,
}

fn exchange() -> BoxedStrategy<Exchange> {
    let content = || vec((any::<u16>(), seed()), 0..=8);
    (
        gen::octet(),
        prop_oneof![3 => Just(1u8), 1 => gen::code_of(&[4, 12, 40, 43])],
        prop::option::weighted(0.7, prop_oneof![3 => 0u8..=2, 1 => gen::octet()]),
        content(),
        gen::code_of(&rf::RESP),
        content(),
        0u8..=20,
        prop_oneof![4 => Just(0u8), 1 => 1u8..=3],
    )
        .prop_map(|(server, code, id, request, rcode, response, yields, millis)| Exchange { server, code, id, request, rcode, response, yields, millis })
        .boxed()
}

fn meeting() -> BoxedStrategy<Meeting> {
    let lanes = prop_oneof![
        2 => vec(exchange(), 1..=3).prop_map(|l| vec![l]),
        3 => vec(vec(exchange(), 1..=3), 2..=8),
    ];
    (vec((prop::bool::weighted(0.3), gen::secret()), 1..=2), any::<bool>(), any::<bool>(), lanes)
        .prop_map(|(servers, buffer, one_client, lanes)| Meeting { servers, buffer, one_client, lanes })
        .boxed()
}

type Model = Vec<(u8, Vec<u8>)>;

/// The attribute that carries the number of the exchange.
const MARK: u8 = 251;

/// Adds values by the accessors until the packet is nearly full.
fn fill(t: &Table, p: &mut Packet, model: &mut Model, values: &[(u16, Seed)], limit: usize, passwords: (bool, bool)) -> Result<Vec<usize>, String> {
    let mut used = vec![];
    for (i, s) in values {
        let i = gen::at(*i, t.attrs.len());
        let a = &t.attrs[i];
        let fits = match a.api {
            Api::UserPw { .. } => passwords.0,
            Api::TunPw { .. } => passwords.1,
            _ => a.num != MARK,
        };
        if !fits || 20 + rf::attr_bytes(model).len() + 920 > limit {
            continue;
        }
        if let Added::Contents(l) = a.add(p, s)? {
            model.extend(l.into_iter().map(|v| (a.num, v)));
        }
        used.push(i);
    }
    Ok(used)
}

struct Plan {
    x: Exchange,
    /// what the request holds and which accessors were used
    request: Mutex<(Model, Vec<usize>)>,
    /// the response as the handler made it, and the request's authenticator
    response: Mutex<Option<(Model, Vec<usize>, Vec<u8>)>>,
    calls: std::sync::atomic::AtomicU32,
}

struct Desk {
    table: Table,
    plans: HashMap<u32, Plan>,
    errors: Mutex<Vec<String>>,
}

struct Host(Arc<Desk>);
pub struct OneSecret(pub Vec<u8>);

impl SecretProvider for OneSecret {
    fn fetch_secret(&self, _: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        Ok(self.0.clone())
    }
}

impl Host {
    fn reply(&self, request: &Request) -> Result<(Vec<u8>, u8, u8), String> {
        let d = &self.0;
        let p = request.get_packet();
        let mark = p.lookup(MARK).map(|a| a.encode_bytes()).ok_or("a request without the mark")?;
        let n = u32::from_be_bytes(mark[..].try_into().map_err(|_| "a damaged mark")?);
        let plan = d.plans.get(&n).ok_or("an unknown mark")?;
        plan.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let (model, used) = plan.request.lock().unwrap().clone();
        ensure!(p.get_code() == lib_code(plan.x.code), "the handler sees code {:?}, {} was sent", p.get_code(), plan.x.code);
        ensure!(contents(p) == model_contents(&model), "the handler sees other attributes than were sent");
        for i in used {
            d.table.attrs[i].agree(p, &model).map_err(|e| format!("in the handler: {e}"))?;
        }
        let mut r = p.make_response_packet(lib_code(plan.x.rcode));
        let mut m: Model = vec![];
        r.add(AVP::from_bytes(MARK, &mark));
        m.push((MARK, mark));
        let used = fill(&d.table, &mut r, &mut m, &plan.x.response, 4096, (false, true))?;
        let b = r.encode().map_err(|e| format!("the response does not encode: {e}"))?;
        *plan.response.lock().unwrap() = Some((m, used, p.get_authenticator().clone()));
        Ok((b, plan.x.yields, plan.x.millis))
    }
}

#[async_trait]
impl RequestHandler<(), String> for Host {
    async fn handle_radius_request(&self, conn: &UdpSocket, request: &Request) -> Result<(), String> {
        match crate::engine::guard(|| self.reply(request)).and_then(|r| r) {
            Err(e) => self.0.errors.lock().unwrap().push(e),
            Ok((b, yields, millis)) => {
                for _ in 0..yields {
                    tokio::task::yield_now().await;
                }
                if millis > 0 {
                    tokio::time::sleep(Duration::from_millis(millis as u64)).await;
                }
                if let Err(e) = conn.send_to(&b, request.get_remote_addr()).await {
                    self.0.errors.lock().unwrap().push(format!("harness send: {e}"));
                }
            }
        }
        Ok(())
    }
}

async fn one_exchange(desk: Arc<Desk>, n: u32, to: SocketAddr, secret: Vec<u8>, cl: Arc<Client>, limit: usize) -> Result<(bool, usize), String> {
    let plan = &desk.plans[&n];
    let x = &plan.x;
    let mut p = match x.id {
        Some(id) => Packet::new_with_identifier(lib_code(x.code), &secret, id),
        None => Packet::new(lib_code(x.code), &secret),
    };
    let mut m: Model = vec![(MARK, n.to_be_bytes().to_vec())];
    p.add(AVP::from_bytes(MARK, &n.to_be_bytes()));
    // (passwords are hidden with the authenticator that is sent only where that is not a signature)
    let plain = rf::REQ_PLAIN.contains(&x.code);
    let used = fill(&desk.table, &mut p, &mut m, &x.request, limit, (plain, plain))?;
    *plan.request.lock().unwrap() = (m, used);
    let r = match cl.send_packet(&to, &p).await {
        Ok(r) => r,
        Err(ClientError::SocketTimeoutError()) => return Err(format!("TIMEOUT: exchange {n} gets no response; {:?}", desk.errors.lock().unwrap().first())),
        Err(e) => return Err(format!("exchange {n} fails: {e}")),
    };
    let Some((m, used, auth)) = plan.response.lock().unwrap().clone() else { return Err(format!("exchange {n} gets {r:?} before its handler answered")) };
    ensure!(r.get_code() == lib_code(x.rcode), "exchange {n}: the client sees code {:?}, {} was sent", r.get_code(), x.rcode);
    ensure!(r.get_identifier() == p.get_identifier(), "exchange {n}: the response has another identifier");
    ensure!(contents(&r) == model_contents(&m), "exchange {n}: the client sees other attributes than its handler sent, mark {:?}", r.lookup(MARK).map(|a| a.encode_bytes()));
    let mut tunnel = false;
    for i in &used {
        let a = &desk.table.attrs[*i];
        if let Api::TunPw { .. } = a.api {
            let Some(c) = m.iter().find(|(t, _)| *t == a.num) else { continue };
            let want = a.expect(&c.1, &secret, &auth);
            if a.get(&r) != Some(want) {
                tunnel = true;
            }
            continue;
        }
        a.agree(&r, &m).map_err(|e| format!("exchange {n}, at the client: {e}"))?;
    }
    Ok((tunnel, used.len()))
}

async fn meet(c: &Meeting, v6: bool, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let mut plans = HashMap::new();
    let mut n = 0u32;
    for l in &c.lanes {
        for x in l {
            plans.insert(n, Plan { x: x.clone(), request: Default::default(), response: Default::default(), calls: Default::default() });
            n += 1;
        }
    }
    let desk = Arc::new(Desk { table: crate::table::shipped::table(), plans, errors: Default::default() });
    let mut servers = vec![];
    for (i, (six, secret)) in c.servers.iter().enumerate() {
        let host = if *six && v6 { "[::1]".to_owned() } else { ip(netw, 1 + i as u8).to_string() };
        let mut s: Server<(), String, Host, OneSecret> = Server::listen(&host, 0, Host(desk.clone()), OneSecret(secret.0.clone())).await.map_err(|e| format!("the server cannot listen on {host}: {e}"))?;
        if c.buffer {
            s.set_buffer_size(4096);
        }
        let addr = s.get_listen_address().map_err(|e| e.to_string())?;
        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
        let task = tokio::spawn(async move { s.run(rx).await });
        servers.push((addr, secret.0.clone(), tx, task));
    }
    let limit = if c.buffer { 4096 } else { 1500 };
    let client = || Arc::new(Client::new(Some(patience()), Some(patience())));
    let shared = client();
    let mut lanes = vec![];
    let mut n = 0u32;
    for l in &c.lanes {
        let first = n;
        n += l.len() as u32;
        let desk = desk.clone();
        let cl = if c.one_client { shared.clone() } else { client() };
        let route: Vec<(SocketAddr, Vec<u8>)> = l.iter().map(|x| { let s = &servers[x.server as usize % servers.len()]; (s.0, s.1.clone()) }).collect();
        lanes.push(tokio::spawn(async move {
            let mut tunnel = false;
            let mut values = 0;
            for (k, (to, secret)) in route.into_iter().enumerate() {
                let (t, v) = one_exchange(desk.clone(), first + k as u32, to, secret, cl.clone(), limit).await?;
                tunnel |= t;
                values += v;
            }
            Ok::<_, String>((tunnel, values))
        }));
    }
    let count = lanes.len();
    for l in lanes {
        let r = l.await.map_err(|e| format!("a client panics: {e}"))?;
        if let Some(e) = desk.errors.lock().unwrap().first() {
            return Err(e.clone());
        }
        let (tunnel, values) = r?;
        if tunnel {
            obs.finding("tunnel-password-in-response");
        }
        if values > 0 {
            obs.nontrivial();
            obs.label("values read back");
        }
    }
    if count > 1 {
        obs.nontrivial();
        obs.label("at once");
    }
    for (n, p) in &desk.plans {
        let k = p.calls.load(std::sync::atomic::Ordering::SeqCst);
        ensure!(k == 1, "the handler was called {k} times for exchange {n}");
    }
    for (addr, _, tx, task) in servers {
        obs.label(if addr.is_ipv4() { "IPv4" } else { "IPv6" });
        let _ = tx.send(());
        match tokio::time::timeout(patience(), task).await {
            Err(_) => return Err("TIMEOUT: the server does not stop".to_owned()),
            Ok(Ok(Ok(()))) => {}
            Ok(r) => return Err(format!("the server ends with {r:?}")),
        }
    }
    Ok(())
}

/// Answers with the request's proxy states.
pub struct Mirror;

#[async_trait]
impl RequestHandler<(), String> for Mirror {
    async fn handle_radius_request(&self, conn: &UdpSocket, request: &Request) -> Result<(), String> {
        let p = request.get_packet();
        let mut r = p.make_response_packet(Code::AccessAccept);
        for a in p.lookup_all(33) {
            r.add(AVP::from_bytes(33, &a.encode_bytes()));
        }
        if p.get_identifier() % 5 == 0 {
            tokio::task::yield_now().await;
        }
        conn.send_to(&r.encode().map_err(|e| e.to_string())?, request.get_remote_addr()).await.map_err(|e| e.to_string())?;
        Ok(())
    }
}

/// Thousands of exchanges through one server and one client, several at a time.
async fn endurance(lanes: usize, each: usize, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let mut s: Server<(), String, Mirror, OneSecret> = Server::listen(&ip(netw, 1).to_string(), 0, Mirror, OneSecret(b"shared".to_vec())).await.map_err(|e| format!("the server cannot listen: {e}"))?;
    let to = s.get_listen_address().map_err(|e| e.to_string())?;
    let task = tokio::spawn(async move { s.run(std::future::pending::<()>()).await });
    let cl = Arc::new(Client::new(Some(patience()), Some(patience())));
    let mut l = vec![];
    for k in 0..lanes {
        let cl = cl.clone();
        l.push(tokio::spawn(async move {
            for i in 0..each {
                let mut p = Packet::new(Code::AccessRequest, b"shared");
                let mark = format!("{k} {i}").into_bytes();
                p.add(AVP::from_bytes(33, &mark));
                let r = match cl.send_packet(&to, &p).await {
                    Err(ClientError::SocketTimeoutError()) => return Err(format!("TIMEOUT: exchange {i} of {k} gets no response")),
                    r => r.map_err(|e| format!("exchange {i} of {k} fails: {e}"))?,
                };
                let got: Vec<Vec<u8>> = r.lookup_all(33).iter().map(|a| a.encode_bytes()).collect();
                ensure!(r.get_identifier() == p.get_identifier() && got == [mark.clone()], "exchange {i} of {k} receives {got:?}");
            }
            Ok(())
        }));
    }
    for t in l {
        t.await.map_err(|e| format!("a client panics: {e}"))??;
    }
    ensure!(!task.is_finished(), "the run loop ended");
    task.abort();
    obs.nontrivial();
    obs.label(format!("{} thousand exchanges", lanes * each / 1000));
    Ok(())
}

/// How many sockets a process may have, less some.
fn sockets() -> usize {
    std::fs::read_to_string("/proc/self/limits")
        .ok()
        .and_then(|s| s.lines().find(|l| l.starts_with("Max open files")).and_then(|l| l.split_whitespace().nth(3).and_then(|n| n.parse::<usize>().ok())))
        .unwrap_or(1024)
        .saturating_sub(300)
        / 2
}

/// Many sends of one client (or one each) wait at the same time; the answers come in another order.
async fn crowd(n: usize, own: bool, step: usize, obs: &mut Obs) -> Result<(), String> {
    let n = n.min(sockets());
    let peer = bind(ip(net::own_net(), 1), 0).await?;
    let to = local(&peer);
    let cl = Arc::new(Client::new(None, Some(4 * patience())));
    let mut tasks = vec![];
    let mut waiting: Vec<(Vec<u8>, SocketAddr)> = vec![];
    let mut buf = vec![0; 5000];
    for k in 0..n {
        let cl = if own { Arc::new(Client::new(None, Some(4 * patience()))) } else { cl.clone() };
        tasks.push(tokio::spawn(async move {
            let mut p = Packet::new(Code::AccessRequest, b"shared");
            p.add(AVP::from_u32(5, k as u32));
            let r = cl.send_packet(&to, &p).await;
            (r, p)
        }));
        while tasks.len() - waiting.len() >= 32 || tasks.len() == n && waiting.len() < n {
            match tokio::time::timeout(patience(), peer.recv_from(&mut buf)).await {
                Err(_) => {
                    for (k, t) in tasks.iter_mut().enumerate() {
                        if t.is_finished() {
                            let (r, _) = t.await.map_err(|e| format!("a client panics: {e}"))?;
                            return Err(format!("send {k} of {n} that wait at the same time ends with {r:?} before there is any answer"));
                        }
                    }
                    return Err(format!("TIMEOUT: with {} sends waiting, another's request does not arrive", waiting.len()));
                }
                Ok(r) => {
                    let (l, from) = r.map_err(|e| format!("harness receive: {e}"))?;
                    waiting.push((buf[..l].to_vec(), from));
                }
            }
        }
    }
    for i in 0..n {
        let (d, from) = &waiting[(i * step + 1) % n];
        let q = rf::parse(d).map_err(|e| format!("a request that does not parse: {e:?}"))?;
        let a = rf::attr_bytes(&q.attrs);
        let mut w = rf::build(2, q.id, &[0; 16], &a);
        let m = [&w[..4], &q.auth[..], &a, b"shared"].concat();
        w[4..20].copy_from_slice(&rf::md5(&m));
        peer.send_to(&w, *from).await.map_err(|e| format!("harness send: {e}"))?;
    }
    for (k, t) in tasks.into_iter().enumerate() {
        let (r, p) = t.await.map_err(|e| format!("a client panics: {e}"))?;
        let r = match r {
            Err(ClientError::SocketTimeoutError()) => return Err(format!("TIMEOUT: send {k} of {n} at the same time gets no response")),
            r => r.map_err(|e| format!("send {k} of {n} at the same time fails: {e}"))?,
        };
        let got: Vec<Vec<u8>> = r.lookup_all(5).iter().map(|a| a.encode_bytes()).collect();
        ensure!(r.get_identifier() == p.get_identifier() && got == [(k as u32).to_be_bytes().to_vec()], "send {k} of {n} at the same time receives {got:?}");
    }
    if n > 1 {
        obs.nontrivial();
    }
    obs.label(match n {
        0..=99 => "tens at once",
        100..=999 => "hundreds at once",
        _ => "thousands at once",
    });
    Ok(())
}

pub fn c28(cx: &Cx) {
    let v6 = has_v6();
    cx.rule("endurance: up to 4800 exchanges of one client object with one server, up to eight at a time; oracle: every response carries its own request's mark");
    cx.drive_opts("endurance", cx.n(16, 200), 12, || (1usize..=8, 100usize..=600), |(k, n): &(usize, usize), obs| steady_obs(obs, |o| net::block_on_threads(3, endurance(*k, *n, o))));
    cx.rule("crowd: up to thousands of sends that wait at the same time, of one client object or of one each, answered in another order when all have arrived; non-trivial when they are several; oracle: every send receives its own mark, and none ends before");
    cx.drive_opts(
        "crowd",
        cx.n(24, 400),
        12,
        || (prop_oneof![6 => 2usize..=300, 2 => 300usize..=1500, 1 => 1500usize..=4000], any::<bool>(), prop::sample::select(vec![1usize, 9973, 100_003])),
        |(n, own, step): &(usize, bool, usize), obs| steady_obs(obs, |o| net::block_on_threads(2, crowd(*n, *own, *step, o))),
    );
    cx.rule("many: more exchanges of one client object with one server than 16 bits count; oracle: the same");
    cx.drive_opts("many", 1, 1, || Just((16usize, 4150usize)), |(k, n): &(usize, usize), obs| steady_obs(obs, |o| net::block_on_threads(4, endurance(*k, *n, o))));
    cx.rule("meeting: one or two servers (IPv4, IPv6; secrets of their own), up to eight clients at once with up to three exchanges each, identifiers that overlap, up to eight values by any accessor in each direction, handlers that take their time, several threads; non-trivial when values were read back or clients ran at once; oracle: the attribute model of C13 on both sides, correlation by a mark in every packet");
    cx.drive_opts("meeting", cx.n(2_500, 50_000), 200, meeting, |c, obs| {
        steady_obs(obs, |o| {
            let rt = tokio::runtime::Builder::new_multi_thread()
                .worker_threads(3)
                .enable_all()
                .build()
                .unwrap_or_else(|e| harness_error(&e.to_string()));
            let r = rt.block_on(meet(c, v6, o));
            rt.shutdown_background();
            r
        })
    });
}

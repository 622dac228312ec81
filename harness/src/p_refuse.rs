//! C33: what is refused is refused for a reason that the input really has.

use crate::engine::{harness_error, hex, Cx, Obs, B};
use crate::ensure;
use crate::gen::{self, bytes, lib_code, Mutation};
use crate::net::{self, bind, block_on, ip, local, patience};
use crate::p_server::steady_obs;
use crate::refimpl as rf;
use crate::table::{shipped, Api};
use proptest::collection::vec;
use proptest::prelude::*;
use radius::client::{Client, ClientError};
use radius::core::avp::{AVPError, AVP};
use radius::core::packet::{Packet, PacketError};
use radius::core::tag::Tag;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::net::SocketAddr;
use std::time::Duration;

/// A reason an input may give.
#[derive(Clone, Debug)]
enum Why {
    /// the length is wrong; the bounds that hold instead
    Length(usize, Vec<usize>),
    TooLongPassword(usize),
    NoSecret,
    Authenticator,
    NoTag,
    TagOfInteger,
    TagOfString,
    Salt(u8),
    NotText,
}

/// The numbers in a text.
fn numbers(s: &str) -> Vec<u128> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).filter_map(|w| w.parse().ok()).collect()
}

fn tells(e: &impl ToString, n: &[usize]) -> Result<(), String> {
    let t = e.to_string();
    let l = numbers(&t);
    for x in n {
        ensure!(l.contains(&(*x as u128)), "{x} is missing from the message {t:?}");
    }
    Ok(())
}

fn apt(e: &AVPError, why: &[Why]) -> Result<(), String> {
    let r = match e {
        AVPError::InvalidAttributeLengthError(_, n) => why.iter().find_map(|w| match w {
            Why::Length(m, bounds) if m == n => Some([&[*m][..], bounds].concat()),
            _ => None,
        }),
        AVPError::UserPasswordPlainTextMaximumLengthExceededError(n) => why.iter().any(|w| matches!(w, Why::TooLongPassword(m) if m == n)).then(|| vec![*n, 128]),
        AVPError::PasswordSecretMissingError() => why.iter().any(|w| matches!(w, Why::NoSecret)).then(Vec::new),
        AVPError::InvalidRequestAuthenticatorLength() => why.iter().any(|w| matches!(w, Why::Authenticator)).then(Vec::new),
        AVPError::TagMissingError() => why.iter().any(|w| matches!(w, Why::NoTag)).then(Vec::new),
        AVPError::InvalidTagForIntegerValueError() => why.iter().any(|w| matches!(w, Why::TagOfInteger)).then(Vec::new),
        AVPError::InvalidTagForStringValueError() => why.iter().any(|w| matches!(w, Why::TagOfString)).then(Vec::new),
        AVPError::InvalidSaltMSBError(b) => why.iter().any(|w| matches!(w, Why::Salt(x) if x == b)).then(|| vec![*b as usize]),
        AVPError::DecodingError(_) => why.iter().any(|w| matches!(w, Why::NotText)).then(Vec::new),
        _ => None,
    };
    match r {
        None => Err(format!("the reason given is {e:?} ({e}), what is wrong is {why:?}")),
        Some(n) => tells(e, &n),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    U32,
    U16,
    TagU32,
    Text,
    TagText,
    Ip4,
    Pfx4,
    Ip6,
    Pfx6,
    UserPw,
    Date,
    TunPw,
}

const KINDS: [Kind; 12] = [Kind::U32, Kind::U16, Kind::TagU32, Kind::Text, Kind::TagText, Kind::Ip4, Kind::Pfx4, Kind::Ip6, Kind::Pfx6, Kind::UserPw, Kind::Date, Kind::TunPw];

/// What keeps this from being read as a value of the kind.
fn reading(k: Kind, v: &[u8], secret: &[u8], auth: &[u8]) -> Vec<Why> {
    let n = v.len();
    let mut w = vec![];
    let exactly = |m: usize| if n == m { vec![] } else { vec![Why::Length(n, vec![m])] };
    match k {
        Kind::U32 | Kind::Ip4 | Kind::Date => w.extend(exactly(4)),
        Kind::U16 => w.extend(exactly(2)),
        Kind::Ip6 => w.extend(exactly(16)),
        Kind::Pfx4 => w.extend(exactly(6)),
        Kind::Pfx6 if n < 2 => w.push(Why::Length(n, vec![2])),
        Kind::Pfx6 => {}
        Kind::TagU32 => {
            w.extend(exactly(5));
            match v.first() {
                None => w.push(Why::NoTag),
                Some(t) if *t > 0x1f => w.push(Why::TagOfInteger),
                _ => {}
            }
        }
        Kind::Text => {
            if std::str::from_utf8(v).is_err() {
                w.push(Why::NotText)
            }
        }
        Kind::TagText => match v.first() {
            None => w.push(Why::NoTag),
            Some(0) => w.push(Why::TagOfString),
            Some(t) => {
                if std::str::from_utf8(if *t <= 0x1f { &v[1..] } else { v }).is_err() {
                    w.push(Why::NotText)
                }
            }
        },
        Kind::UserPw | Kind::TunPw => {
            if secret.is_empty() {
                w.push(Why::NoSecret);
            }
            if auth.len() != 16 {
                w.push(Why::Authenticator);
            }
            if k == Kind::UserPw && !(16..=128).contains(&n) {
                w.push(Why::Length(n, vec![16, 128]));
            }
            if k == Kind::TunPw {
                if !(19..=243).contains(&n) || (n - 3) % 16 != 0 {
                    w.push(Why::Length(n, vec![19, 243]));
                }
                if n > 1 && v[1] & 0x80 == 0 {
                    w.push(Why::Salt(v[1]));
                }
            }
        }
    }
    w
}

fn read(k: Kind, a: &AVP, secret: &[u8], auth: &[u8]) -> Result<(), AVPError> {
    match k {
        Kind::U32 => a.encode_u32().map(drop),
        Kind::U16 => a.encode_u16().map(drop),
        Kind::TagU32 => a.encode_tagged_u32().map(drop),
        Kind::Text => a.encode_string().map(drop),
        Kind::TagText => a.encode_tagged_string().map(drop),
        Kind::Ip4 => a.encode_ipv4().map(drop),
        Kind::Pfx4 => a.encode_ipv4_prefix().map(drop),
        Kind::Ip6 => a.encode_ipv6().map(drop),
        Kind::Pfx6 => a.encode_ipv6_prefix().map(drop),
        Kind::UserPw => a.encode_user_password(secret, auth).map(drop),
        Kind::Date => a.encode_date().map(drop),
        Kind::TunPw => a.encode_tunnel_password(secret, auth).map(drop),
    }
}

/// Judges a result: a refusal must be due, and for one of the reasons.
fn judged(r: Result<(), AVPError>, why: &[Why], obs: &mut Obs) -> Result<(), String> {
    match r {
        Ok(()) => {
            ensure!(why.is_empty(), "accepted in spite of {why:?}");
        }
        Err(e) => {
            apt(&e, why)?;
            obs.nontrivial();
            obs.label(format!("{e:?}").split('(').next().unwrap_or_default().to_owned());
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Read { kind: Kind, value: B, secret: B, auth: B },
    HideUser { pw: B, secret: B, auth: B },
    HideTunnel { tag: Option<u8>, pw: B, secret: B, auth: B },
    MakePrefix { six: bool, prefix: B },
    /// through the accessors of every attribute; several values
    Access { values: Vec<B>, secret: B },
    /// through the adders
    Add { attr: u16, value: B, secret: B },
    Decode { data: B, mutations: Vec<Mutation> },
    Encode { code: u8, attrs: Vec<(u8, B)> },
}

fn value() -> BoxedStrategy<B> {
    let long = prop_oneof![
        bytes(0..=7),
        bytes(15..=20),
        bytes(126..=131),
        bytes(236..=253),
        (0usize..=15).prop_flat_map(|k| bytes(3 + 16 * k..=3 + 16 * k)),
    ];
    prop_oneof![
        4 => long.clone(),
        2 => bytes(0..=253),
        1 => gen::utf8(60).prop_map(|s| B(s.into_bytes())),
        2 => (0u8..=0x21, long).prop_map(|(t, mut v)| {
            if let Some(x) = v.0.first_mut() {
                *x = t;
            }
            v
        }),
    ]
    .boxed()
}

fn call() -> BoxedStrategy<Call> {
    let secret = || prop_oneof![5 => gen::secret(), 1 => Just(B(vec![]))];
    let auth = || prop_oneof![5 => gen::auth(), 1 => bytes(0..=33)];
    let pw = || prop_oneof![2 => bytes(0..=20), 3 => bytes(120..=140), 3 => bytes(230..=260), 1 => bytes(0..=700)];
    let data = prop_oneof![
        2 => bytes(0..=60),
        4 => (gen::octet(), gen::octet(), gen::auth(), gen::attrs(0..=6)).prop_map(|(c, i, a, l)| B(rf::build(c, i, &a, &gen::attrs_wire(&l)))),
        1 => (gen::octet(), gen::octet(), gen::auth(), gen::filled(4000..=4096)).prop_map(|(c, i, a, l)| B(rf::build(c, i, &a, &gen::attrs_wire(&l)))),
    ];
    let many = prop_oneof![
        4 => gen::attrs(0..=6),
        2 => vec((gen::octet(), prop_oneof![3 => bytes(0..=253), 1 => bytes(250..=300)]), 0..=20),
        1 => gen::filled(4090..=4110),
    ];
    prop_oneof![
        6 => (prop::sample::select(&KINDS[..]), value(), secret(), auth()).prop_map(|(kind, value, secret, auth)| Call::Read { kind, value, secret, auth }),
        1 => (pw(), secret(), auth()).prop_map(|(pw, secret, auth)| Call::HideUser { pw, secret, auth }),
        1 => (prop::option::of(0u8..=0x1f), pw(), secret(), auth()).prop_map(|(tag, pw, secret, auth)| Call::HideTunnel { tag, pw, secret, auth }),
        1 => (any::<bool>(), bytes(0..=20)).prop_map(|(six, prefix)| Call::MakePrefix { six, prefix }),
        2 => (vec(value(), 1..=3), secret()).prop_map(|(values, secret)| Call::Access { values, secret }),
        2 => (any::<u16>(), value(), secret()).prop_map(|(attr, value, secret)| Call::Add { attr, value, secret }),
        4 => (data, vec(gen::mutation(), 0..=3)).prop_map(|(data, mutations)| Call::Decode { data, mutations }),
        3 => (gen::any_code_octet(), many).prop_map(|(code, attrs)| Call::Encode { code, attrs }),
    ]
    .boxed()
}

fn hiding(user: bool, n: usize, secret: &[u8], auth: &[u8]) -> Vec<Why> {
    let mut w = vec![];
    if user && n > 128 {
        w.push(Why::TooLongPassword(n));
    }
    if !user && n > 240 {
        w.push(Why::Length(n, vec![240]));
    }
    if secret.is_empty() {
        w.push(Why::NoSecret);
    }
    if auth.len() != 16 {
        w.push(Why::Authenticator);
    }
    w
}

fn one(c: &Call, table: &crate::table::Table, obs: &mut Obs) -> Result<(), String> {
    match c {
        Call::Read { kind, value, secret, auth } => {
            let w = reading(*kind, value, secret, auth);
            judged(read(*kind, &AVP::from_bytes(7, value), secret, auth), &w, obs).map_err(|e| format!("reading {} as {kind:?}: {e}", hex(value)))
        }
        Call::HideUser { pw, secret, auth } => judged(AVP::from_user_password(2, pw, secret, auth).map(drop), &hiding(true, pw.len(), secret, auth), obs).map_err(|e| format!("hiding a user password: {e}")),
        Call::HideTunnel { tag, pw, secret, auth } => {
            let tag = tag.map(Tag::new);
            judged(AVP::from_tunnel_password(69, tag.as_ref(), pw, secret, auth).map(drop), &hiding(false, pw.len(), secret, auth), obs).map_err(|e| format!("hiding a tunnel password: {e}"))
        }
        Call::MakePrefix { six, prefix } => {
            let n = prefix.len();
            let (r, w) = if *six {
                (AVP::from_ipv6_prefix(97, prefix).map(drop), if n > 16 { vec![Why::Length(n, vec![16])] } else { vec![] })
            } else {
                (AVP::from_ipv4_prefix(97, prefix).map(drop), if n != 4 { vec![Why::Length(n, vec![4])] } else { vec![] })
            };
            judged(r, &w, obs).map_err(|e| format!("a prefix of {n} octets: {e}"))
        }
        Call::Access { values, secret } => {
            let auth = [0x5a; 16];
            for a in &table.attrs {
                let mut p = Packet::decode(&rf::build(1, 1, &auth, &[]), secret).map_err(|e| e.to_string())?;
                p.extend(values.iter().map(|v| AVP::from_bytes(a.num, v)).collect());
                let (k, get, all): (Kind, Option<Result<(), AVPError>>, Result<(), AVPError>) = match a.api {
                    Api::Str { get, all, .. } => (Kind::Text, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::TagStr { get, all, .. } => (Kind::TagText, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::UserPw { get, all, .. } => (Kind::UserPw, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::TunPw { get, all, .. } => (Kind::TunPw, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Ip4 { get, all, .. } => (Kind::Ip4, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Ip6 { get, all, .. } => (Kind::Ip6, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Pfx4 { get, all, .. } => (Kind::Pfx4, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Pfx6 { get, all, .. } => (Kind::Pfx6, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Date { get, all, .. } => (Kind::Date, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Int { get, all, .. } => (Kind::U32, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::TagInt { get, all, .. } => (Kind::TagU32, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Short { get, all, .. } => (Kind::U16, get(&p).map(|r| r.map(drop)), all(&p).map(drop)),
                    Api::Octets { .. } | Api::Fixed { .. } | Api::Concat { .. } | Api::Vsa { .. } => continue,
                };
                let w: Vec<Vec<Why>> = values.iter().map(|v| reading(k, v, secret, &auth)).collect();
                let Some(get) = get else { return Err(format!("{}: a value is not found", a.name)) };
                judged(get, &w[0], obs).map_err(|e| format!("looking up {} with {}: {e}", a.name, hex(&values[0])))?;
                judged(all, &w.concat(), obs).map_err(|e| format!("looking up all of {} with {values:?}: {e}", a.name))?;
            }
            Ok(())
        }
        Call::Add { attr, value, secret } => {
            let l: Vec<_> = table.attrs.iter().filter(|a| matches!(a.api, Api::Fixed { .. } | Api::Pfx4 { .. } | Api::Pfx6 { .. } | Api::UserPw { .. } | Api::TunPw { .. })).collect();
            let a = l[*attr as usize % l.len()];
            let auth = [0x5a; 16];
            let mut p = Packet::decode(&rf::build(1, 1, &auth, &[]), secret).map_err(|e| e.to_string())?;
            let n = value.len();
            let unless = |ok: bool, m: usize| if ok { vec![] } else { vec![Why::Length(n, vec![m])] };
            let (r, w) = match a.api {
                Api::Fixed { n: m, add, .. } => (add(&mut p, value), unless(n == m, m)),
                Api::Pfx4 { add, .. } => (add(&mut p, value), unless(n == 4, 4)),
                Api::Pfx6 { add, .. } => (add(&mut p, value), unless(n <= 16, 16)),
                Api::UserPw { add, .. } => (add(&mut p, value), hiding(true, n, secret, &auth)),
                Api::TunPw { add, .. } => (add(&mut p, None, value), hiding(false, n, secret, &auth)),
                _ => harness_error("attribute without a failing adder"),
            };
            judged(r, &w, obs).map_err(|e| format!("adding {} as {}: {e}", hex(value), a.name))
        }
        Call::Decode { data, mutations } => {
            let mut d = data.0.clone();
            for m in mutations {
                gen::mutate(&mut d, m);
            }
            decoded(&d, obs).map_err(|e| format!("decoding {}: {e}", hex(&d)))
        }
        Call::Encode { code, attrs } => {
            let base = Packet::decode(&rf::build(1, 1, &[9; 16], &[]), b"x").map_err(|e| e.to_string())?;
            let mut p = base.make_response_packet(lib_code(*code));
            p.extend(attrs.iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
            let long = attrs.iter().any(|(_, v)| v.len() > 253) || 20 + attrs.iter().map(|(_, v)| v.len() + 2).sum::<usize>() > 4096;
            let unknown = !rf::ENCODABLE.contains(code);
            match p.encode() {
                Ok(_) => {
                    ensure!(!long && !unknown, "encoding succeeds");
                    return Ok(());
                }
                Err(PacketError::EncodingError(t)) => {
                    ensure!(long, "encoding is refused because of its contents ({t}), with the code {code}");
                    obs.label("EncodingError");
                }
                Err(e @ PacketError::UnknownCodeError(_)) => {
                    ensure!(unknown, "encoding is refused because of its code {code}: {e}");
                    obs.label("UnknownCodeError");
                }
                Err(e) => return Err(format!("encoding is refused for no reason: {e:?}")),
            }
            obs.nontrivial();
            Ok(())
        }
    }
}

fn decoded(d: &[u8], obs: &mut Obs) -> Result<(), String> {
    let n = d.len();
    let field = (n >= 4).then(|| u16::from_be_bytes([d[2], d[3]]) as usize);
    let e = match Packet::decode(d, b"s") {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    obs.nontrivial();
    obs.label(format!("{e:?}").split('(').next().unwrap_or_default().to_owned());
    match &e {
        PacketError::InsufficientPacketPayloadLengthError(need, have) => {
            ensure!(*have == n && (*need == 20 && n < 20 || Some(*need) == field && n < *need), "{n} octets whose header says {field:?}: {e:?}");
            tells(&e, &[*need, n])
        }
        PacketError::InsufficientHeaderDefinedPacketLengthError(says, need) => {
            ensure!(*need == 20 && Some(*says) == field && *says < 20, "{n} octets whose header says {field:?}: {e:?}");
            tells(&e, &[*says, 20])
        }
        PacketError::HeaderDefinedPacketLengthExceedsMaximumLimitError(says, limit) => {
            ensure!(*limit == 4096 && Some(*says) == field && *says > 4096, "{n} octets whose header says {field:?}: {e:?}");
            tells(&e, &[*says, 4096])
        }
        PacketError::DecodingError(t) => {
            let l = field.unwrap_or_default();
            ensure!((20..=4096).contains(&l) && l <= n && rf::parse(d).is_err(), "{n} octets whose header says {field:?} and whose attributes are well-formed: {e:?}");
            ensure!(!t.is_empty(), "no reason is given");
            Ok(())
        }
        _ => Err(format!("refused for no reason: {e:?}")),
    }
}

/// What the client reports names the peer, or holds what is wrong with the packet.
async fn client(kind: u8, code: u8, id: u8, attrs: &[(u8, B)], junk: &B, obs: &mut Obs) -> Result<(), String> {
    let netw = net::own_net();
    let peer = bind(ip(netw, 1), 0).await?;
    let to = local(&peer);
    let base = Packet::decode(&rf::build(1, id, &[id; 16], &[]), b"x").map_err(|e| e.to_string())?;
    let mut p = base.make_response_packet(lib_code(code));
    p.extend(attrs.iter().map(|(t, v)| AVP::from_bytes(*t, v)).collect());
    let cl = Client::new(None, Some(Duration::from_secs(3600)));
    obs.nontrivial();
    let says = |e: &ClientError, what: &str| -> Result<(), String> {
        ensure!(e.to_string().contains(what), "the report {:?} does not name {what:?}", e.to_string());
        Ok(())
    };
    let mut buf = vec![0; 66_000];
    if kind % 8 == 7 {
        return nowhere(kind / 8, id, obs).await;
    }
    match (kind % 2, p.encode()) {
        (_, Err(why)) => {
            let r = tokio::time::timeout(patience(), cl.send_packet(&to, &p)).await.map_err(|_| "TIMEOUT: sending a packet that cannot be encoded does not end".to_owned())?;
            obs.label("cannot be encoded");
            match r {
                Err(e @ ClientError::FailedRadiusPacketEncodingError(_)) => says(&e, &why.to_string()),
                r => Err(format!("sending a packet that cannot be encoded ends with {r:?}")),
            }
        }
        (0, Ok(_)) => {
            drop(peer);
            let r = tokio::time::timeout(patience(), cl.send_packet(&to, &p)).await.map_err(|_| "TIMEOUT: sending to a port nobody listens on does not end".to_owned())?;
            obs.label("nobody listens");
            match r {
                Err(e @ (ClientError::FailedReceivingResponseError(..) | ClientError::FailedSendingRadiusPacketError(..) | ClientError::FailedEstablishingUdpConnectionError(..))) => says(&e, &to.to_string()),
                r => Err(format!("sending to a port nobody listens on ends with {r:?}")),
            }
        }
        (_, Ok(due)) => {
            // an authentic response with attributes that are none
            let area = [&[26u8, 200][..], junk].concat();
            let answer = async {
                let (_, from) = peer.recv_from(&mut buf).await.map_err(|e| format!("harness receive: {e}"))?;
                let mut auth = [0; 16];
                auth.copy_from_slice(&due[4..20]);
                let d = rf::signed(2, due[1], &auth, &area, b"x");
                peer.send_to(&d, from).await.map_err(|e| format!("harness send: {e}"))?;
                Ok::<_, String>(d)
            };
            let (r, d) = tokio::join!(tokio::time::timeout(patience(), cl.send_packet(&to, &p)), tokio::time::timeout(patience(), answer));
            let r = r.map_err(|_| "TIMEOUT: an authentic response does not end the send".to_owned())?;
            let d = d.map_err(|_| "TIMEOUT: nothing is sent".to_owned())??;
            obs.label("response cannot be decoded");
            let why = match Packet::decode(&d, b"x") {
                Err(e) => e.to_string(),
                Ok(_) => harness_error("the response is well-formed"),
            };
            match r {
                Err(e @ ClientError::FailedDecodingRadiusResponseError(_)) => says(&e, &why),
                r => Err(format!("a response that cannot be decoded ({}) ends the send with {r:?}", hex(&d))),
            }
        }
    }
}

/// Addresses that nothing can be sent to from here: what an ordinary socket refuses, the client has to report.
async fn nowhere(kind: u8, id: u8, obs: &mut Obs) -> Result<(), String> {
    let to: SocketAddr = match kind % 2 {
        0 => SocketAddr::from(([255, 255, 255, 255], 1024 + id as u16)),
        _ => SocketAddr::from(([0xfe80, 0, 0, 0, 0, 0, 0, id as u16], 3799)),
    };
    let p = Packet::new_with_identifier(lib_code(1), b"x", id);
    let plain = match std::net::UdpSocket::bind(if to.is_ipv4() { "0.0.0.0:0" } else { "[::]:0" }) {
        Ok(s) => s.connect(to),
        Err(_) => return Ok(()),
    };
    if plain.is_ok() {
        obs.label("an address that can be sent to");
        return Ok(());
    }
    obs.label(format!("{} cannot be sent to", if to.is_ipv4() { "broadcast" } else { "an address of another link" }));
    let cl = Client::new(Some(Duration::from_secs(3600)), Some(Duration::from_secs(3600)));
    let r = tokio::time::timeout(patience(), cl.send_packet(&to, &p)).await.map_err(|_| format!("TIMEOUT: sending to {to}, which is not possible, does not end"))?;
    match r {
        Err(e @ (ClientError::FailedReceivingResponseError(..) | ClientError::FailedSendingRadiusPacketError(..) | ClientError::FailedEstablishingUdpConnectionError(..))) => {
            ensure!(e.to_string().contains(&to.to_string()), "the report {:?} does not name {to}", e.to_string());
            Ok(())
        }
        r => Err(format!("sending to {to}, which is not possible, ends with {r:?}")),
    }
}

pub fn c33(cx: &Cx) {
    let table = shipped::table();
    cx.rule("refusals: reading values of every kind, hiding passwords, making prefixes, the accessors and adders of every attribute, decoding and encoding packets, with inputs around every limit and with several things wrong at once; non-trivial when something is refused; oracle: the set of reasons the input gives, independent of the code, and the numbers the message must hold");
    cx.drive("refusals", cx.n(120_000, 2_400_000), call, |c: &Call, obs| one(c, &table, obs));
    cx.rule("client: packets that cannot be encoded, ports nobody listens on, addresses nothing can be sent to (an ordinary socket tells), responses that cannot be decoded; oracle: the report holds the address, or what encoding or decoding says");
    cx.drive_opts(
        "client",
        cx.n(800, 16_000),
        100,
        || (gen::octet(), prop_oneof![4 => Just(1u8), 1 => gen::any_code_octet()], gen::octet(), gen::attrs(0..=3), bytes(0..=40)),
        |(kind, code, id, attrs, junk): &(u8, u8, u8, Vec<(u8, B)>, B), obs| steady_obs(obs, |o| block_on(client(*kind, *code, *id, attrs, junk, o))),
    );
}

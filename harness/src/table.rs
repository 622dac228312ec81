//! The accessors of the RFC modules, as the dictionaries call for them.

use chrono::{DateTime, Utc};
use radius::core::avp::AVPError;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use radius::core::vsa::VSA;
use std::net::{Ipv4Addr, Ipv6Addr};

type R<T> = Result<T, AVPError>;

#[derive(Clone, Copy)]
pub enum Api {
    Str { add: fn(&mut Packet, &str), get: fn(&Packet) -> Option<R<String>>, all: fn(&Packet) -> R<Vec<String>> },
    TagStr { add: fn(&mut Packet, Option<&Tag>, &str), get: fn(&Packet) -> Option<R<(String, Option<Tag>)>>, all: fn(&Packet) -> R<Vec<(String, Option<Tag>)>> },
    UserPw { add: fn(&mut Packet, &[u8]) -> R<()>, get: fn(&Packet) -> Option<R<Vec<u8>>>, all: fn(&Packet) -> R<Vec<Vec<u8>>> },
    TunPw { add: fn(&mut Packet, Option<&Tag>, &[u8]) -> R<()>, get: fn(&Packet) -> Option<R<(Vec<u8>, Tag)>>, all: fn(&Packet) -> R<Vec<(Vec<u8>, Tag)>> },
    Octets { add: fn(&mut Packet, &[u8]), get: fn(&Packet) -> Option<Vec<u8>>, all: fn(&Packet) -> Vec<Vec<u8>> },
    Fixed { n: usize, add: fn(&mut Packet, &[u8]) -> R<()>, get: fn(&Packet) -> Option<Vec<u8>>, all: fn(&Packet) -> Vec<Vec<u8>> },
    Concat { add: fn(&mut Packet, &[u8]), get: fn(&Packet) -> Option<Vec<u8>> },
    Ip4 { add: fn(&mut Packet, &Ipv4Addr), get: fn(&Packet) -> Option<R<Ipv4Addr>>, all: fn(&Packet) -> R<Vec<Ipv4Addr>> },
    Ip6 { add: fn(&mut Packet, &Ipv6Addr), get: fn(&Packet) -> Option<R<Ipv6Addr>>, all: fn(&Packet) -> R<Vec<Ipv6Addr>> },
    Pfx4 { add: fn(&mut Packet, &[u8]) -> R<()>, get: fn(&Packet) -> Option<R<Vec<u8>>>, all: fn(&Packet) -> R<Vec<Vec<u8>>> },
    Pfx6 { add: fn(&mut Packet, &[u8]) -> R<()>, get: fn(&Packet) -> Option<R<Vec<u8>>>, all: fn(&Packet) -> R<Vec<Vec<u8>>> },
    Date { add: fn(&mut Packet, &DateTime<Utc>), get: fn(&Packet) -> Option<R<DateTime<Utc>>>, all: fn(&Packet) -> R<Vec<DateTime<Utc>>> },
    Int { add: fn(&mut Packet, u32), get: fn(&Packet) -> Option<R<u32>>, all: fn(&Packet) -> R<Vec<u32>> },
    TagInt { add: fn(&mut Packet, Option<&Tag>, u32), get: fn(&Packet) -> Option<R<(u32, Tag)>>, all: fn(&Packet) -> R<Vec<(u32, Tag)>> },
    Short { add: fn(&mut Packet, u16), get: fn(&Packet) -> Option<R<u16>>, all: fn(&Packet) -> R<Vec<u16>> },
    Vsa { add: fn(&mut Packet, &dyn VSA) },
}

#[derive(Clone, Copy)]
pub struct Attr {
    pub module: &'static str,
    pub name: &'static str,
    /// the number in the dictionary
    pub num: u8,
    /// the number in the module
    pub konst: u8,
    pub delete: fn(&mut Packet),
    pub api: Api,
}

#[derive(Clone, Copy)]
pub struct Val {
    pub module: &'static str,
    pub attr: &'static str,
    pub name: &'static str,
    pub num: u32,
    pub konst: u32,
}

/// A table of accessors, with what the dictionaries call for and the code does not offer.
pub struct Table {
    pub attrs: Vec<Attr>,
    pub values: Vec<Val>,
    pub missing: Vec<&'static str>,
}

pub mod shipped {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/table.rs"));
    pub fn table() -> Table {
        Table { attrs: attrs(), values: values(), missing: missing() }
    }
}

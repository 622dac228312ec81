PK = "radius/src/core/packet.rs"; AT = "radius/src/core/attributes.rs"; AV = "radius/src/core/avp.rs"
TG = "radius/src/core/tag.rs"; VS = "radius/src/core/vsa.rs"; SV = "radius/src/server.rs"; CL = "radius/src/client.rs"
CO = "radius/src/core/code.rs"; RQ = "radius/src/core/request.rs"; CG = "code-generator/src/main.rs"
C = "radius/src/core/"

USE = """use radius::core::avp::AVP;
use radius::core::code::Code;
use radius::core::packet::Packet;
"""
A = "#![allow(dead_code, unused_imports)]\n" + USE

SERVER = A + """use radius::core::request::Request;
use radius::core::{rfc2865, rfc2866};
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;

pub struct Provider;
impl SecretProvider for Provider {
    fn fetch_secret(&self, _: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        Ok(b"s3cr3t".to_vec())
    }
}
"""

SEEDS = {}
def seed(id, property, edits, needs, breaks, **k):
    SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, **k)

seed("c01-attribute-255", "C01", [(AT, "!(2..=255).contains(&length)", "!(2..u8::MAX as usize).contains(&length)")],
     "a received packet with an attribute of the greatest length, 255",
     "decoding refuses attributes whose length octet is 255, which are well-formed",
     demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_bytes(11, &[7; 253]));
    let bs = p.encode().unwrap();
    assert_eq!(Packet::decode(&bs, b"x").unwrap().lookup(11).unwrap().encode_bytes().len(), 253);
}
""")
seed("c01-trailing-octet", "C01", [(AT, "            if bs[i..].len() < 2 {\n                return Err(\"short buffer\".to_owned());\n            }\n",
     "            if bs[i..].len() < 2 {\n                if attrs.is_empty() {\n                    return Err(\"short buffer\".to_owned());\n                }\n                break;\n            }\n")],
     "a datagram whose attributes are followed by one lone octet inside its Length",
     "a malformed packet is accepted, its last octet silently dropped",
     demo=A + """fn main() {
    let mut bs = vec![1u8, 9, 0, 26, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    bs.extend([1u8, 5, b'a', b'b', b'c', 2]);
    assert!(Packet::decode(&bs, b"x").is_err());
}
""")
seed("c02-empty-values", "C02", [(AT, "        for avp in &self.0 {", "        for avp in self.0.iter().filter(|avp| !avp.value.is_empty()) {")],
     "a packet holding an attribute with an empty value",
     "the encoded datagram lacks the attributes that have no octets",
     demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_bytes(25, b"a"));
    p.add(AVP::from_string(18, ""));
    let q = Packet::decode(&p.encode().unwrap(), b"x").unwrap();
    assert!(q.lookup(18).is_some());
}
""")
seed("c03-long-secret", "C03", [(PK, "buf.extend(&self.secret);", "buf.extend(self.secret.iter().take(128));", 2)],
     "a shared secret longer than 128 octets and a signed packet",
     "the authenticator is computed over a truncated secret",
     demo=A + """fn main() {
    let secret = [0x61u8; 129];
    let p = Packet::new(Code::AccountingRequest, &secret);
    assert!(Packet::is_authentic_request(&p.encode().unwrap(), &secret));
}
""")
seed("c03-coa-nak-zero", "C03", [(PK, "                    | Code::CoARequest // same as \"RFC2866\"; https://tools.ietf.org/html/rfc5176#section-2.3\n",
     "                    | Code::CoARequest // same as \"RFC2866\"; https://tools.ietf.org/html/rfc5176#section-2.3\n                    | Code::CoANAK\n", 2)],
     "encoding a CoA-NAK that answers a request",
     "CoA-NAK responses are signed as if they were requests, so the requester discards them",
     demo=A + """fn main() {
    let req = Packet::new(Code::CoARequest, b"k").encode().unwrap();
    let nak = Packet::decode(&req, b"k").unwrap().make_response_packet(Code::CoANAK).encode().unwrap();
    assert!(Packet::is_authentic_response(&nak, &req, b"k"));
}
""")
FOLD_OLD_MD5 = """        .to_vec()
        .eq(&response[4..RADIUS_PACKET_HEADER_LENGTH].to_vec())"""
FOLD_NEW_MD5 = """        .iter()
        .zip(&response[4..RADIUS_PACKET_HEADER_LENGTH])
        .fold(0u8, |acc, (a, b)| acc.wrapping_add(a ^ b))
            == 0"""
FOLD_OLD_SSL = """        enc.to_vec()
            .eq(&response[4..RADIUS_PACKET_HEADER_LENGTH].to_vec())"""
FOLD_NEW_SSL = """        enc.iter()
            .zip(&response[4..RADIUS_PACKET_HEADER_LENGTH])
            .fold(0u8, |acc, (a, b)| acc.wrapping_add(a ^ b))
            == 0"""
seed("c04-comparison-by-sum", "C04", [(PK, FOLD_OLD_MD5, FOLD_NEW_MD5), (PK, FOLD_OLD_SSL, FOLD_NEW_SSL)],
     "a response whose authenticator is wrong in two octets, each in the top bit (or any differences that sum to 256)",
     "a forged response passes the authenticity check",
     demo=A + """fn main() {
    let req = Packet::new(Code::AccessRequest, b"k").encode().unwrap();
    let mut res = Packet::decode(&req, b"k").unwrap().make_response_packet(Code::AccessReject).encode().unwrap();
    assert!(Packet::is_authentic_response(&res, &req, b"k"));
    res[6] ^= 0x80;
    res[13] ^= 0x80;
    assert!(!Packet::is_authentic_response(&res, &req, b"k"));
}
""")
seed("c04-status-client", "C04", [(PK, "            Code::AccessRequest | Code::StatusServer => true,", "            Code::AccessRequest | Code::StatusServer | Code::StatusClient => true,", 2)],
     "a datagram of the code Status-Client",
     "an unsigned Status-Client datagram counts as an authentic request",
     demo=A + """fn main() {
    let mut bs = vec![13u8, 1, 0, 20];
    bs.extend([7u8; 16]);
    assert!(!Packet::is_authentic_request(&bs, b"k"));
}
""")
seed("c05-proxy-state", "C05", [(PK, """            secret: self.secret.clone(),
            attributes: Attributes(vec![]),""", """            secret: self.secret.clone(),
            attributes: Attributes(
                self.lookup_all(33) // Proxy-State
                    .into_iter()
                    .cloned()
                    .collect(),
            ),""")],
     "a request that carries Proxy-State",
     "the response does not start without attributes; a handler that copies Proxy-State itself, as documented, sends it twice",
     demo=A + """fn main() {
    let mut req = Packet::new(Code::AccessRequest, b"k");
    req.add(AVP::from_bytes(33, b"st"));
    let res = req.make_response_packet(Code::AccessAccept);
    assert!(res.lookup(33).is_none());
}
""")
seed("c06-full-length", "C06", [(AV, "if self.value.len() < 16 || self.value.len() > 128 {", "if self.value.len() < 16 || self.value.len() >= 128 {", 2)],
     "a password of 113 to 128 octets",
     "the hidden value of the longest passwords cannot be revealed",
     demo=A + """fn main() {
    let avp = AVP::from_user_password(2, &[b'p'; 120], b"k", &[3; 16]).unwrap();
    assert_eq!(avp.encode_user_password(b"k", &[3; 16]).unwrap(), vec![b'p'; 120]);
}
""")
seed("c06-first-seven-blocks", "C06", [(AV, """        let mut enc: Vec<u8> = Vec::new();
        for chunk in plain_text.chunks(16) {""", """        let mut enc: Vec<u8> = Vec::new();
        for chunk in plain_text.chunks(16).take(7) {""", 2)],
     "a password longer than 112 octets",
     "passwords are silently truncated",
     demo=A + """fn main() {
    let avp = AVP::from_user_password(2, &[b'p'; 113], b"k", &[3; 16]).unwrap();
    assert_eq!(avp.encode_user_password(b"k", &[3; 16]).unwrap(), vec![b'p'; 113]);
}
""")
seed("c07-tag-masked", "C07", [(AV, """        let tag = Tag {
            value: self.value[0],
        };
        let mut dec: Vec<u8> = Vec::new();""", """        let tag = Tag {
            value: self.value[0] & 0x1f,
        };
        let mut dec: Vec<u8> = Vec::new();""", 2)],
     "a tunnel password whose tag octet is above 0x1f",
     "revealing returns another tag than was hidden",
     demo=A + """use radius::core::tag::Tag;
fn main() {
    let avp = AVP::from_tunnel_password(69, Some(&Tag::new(0x45)), b"pw", b"k", &[3; 16]).unwrap();
    let (pw, tag) = avp.encode_tunnel_password(b"k", &[3; 16]).unwrap();
    assert_eq!(pw, b"pw");
    assert_eq!(tag.get_value(), 0x45);
}
""")
seed("c08-date-signed", "C08", [(AV, "let timestamp = u32::from_be_bytes(boxed_array);", "let timestamp = i32::from_be_bytes(boxed_array);")],
     "a date after 19 January 2038",
     "such dates are read as dates before 1970",
     demo=A + """use chrono::TimeZone;
fn main() {
    let d = chrono::Utc.timestamp_opt(3_000_000_000, 0).unwrap();
    assert_eq!(AVP::from_date(55, &d).encode_date().unwrap(), d);
}
""")
seed("c08-lossy-text", "C08", [(AV, """        match String::from_utf8(self.value.to_vec()) {
            Ok(str) => Ok(str),
            Err(e) => Err(AVPError::DecodingError(e.to_string())),
        }""", """        match String::from_utf8(self.value.to_vec()) {
            Ok(str) => Ok(str),
            // an attribute holds at most 253 octets; the text may be cut in the middle of a character
            Err(e) if e.utf8_error().error_len().is_none() => {
                let valid_up_to = e.utf8_error().valid_up_to();
                Ok(String::from_utf8_lossy(&self.value[..valid_up_to]).into_owned())
            }
            Err(e) => Err(AVPError::DecodingError(e.to_string())),
        }""")],
     "a text that ends within a multi-octet UTF-8 character",
     "a string that is not valid UTF-8 is returned shortened and not refused",
     demo=A + """fn main() {
    assert!(AVP::from_bytes(1, b"user\\xe3\\x81").encode_string().is_err());
}
""")
seed("c09-highest-tag", "C09", [(TG, "1 <= self.value && self.value <= 0x1f", "(1..0x1f).contains(&self.value)")],
     "the tag 0x1f",
     "the highest valid tag is taken for text in strings and refused in integers",
     demo=A + """use radius::core::tag::Tag;
fn main() {
    let avp = AVP::from_tagged_string(66, Some(&Tag::new(0x1f)), "x");
    assert_eq!(avp.encode_tagged_string().unwrap(), ("x".to_owned(), Some(Tag::new(0x1f))));
}
""")
seed("c11-characters", "C11", [(VS, "length: (Self::BYTE_SIZE_OFFSET + value.len()) as u8,\n            value:", "length: (Self::BYTE_SIZE_OFFSET + value.chars().count()) as u8,\n            value:")],
     "a vendor-specific text with a character of more than one octet",
     "the vendor length does not count the octets of the text",
     demo=A + """use radius::core::vsa::{StringVSA, VSA};
fn main() {
    let v = StringVSA::new(3561, 1, "h\\u{e9}");
    assert_eq!(v.len(), 5);
    assert_eq!(v.message()[5], 5);
}
""")
seed("c12-adjacent", "C12", [(AT, "        self.0.retain(|avp| avp.typ != typ);", """        let mut i = 0;
        while i < self.0.len() {
            if self.0[i].typ == typ {
                self.0.remove(i);
            }
            i += 1;
        }""")],
     "deleting a type of which two attributes are adjacent",
     "the second of two adjacent attributes survives the deletion",
     demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"k");
    p.extend(vec![AVP::from_u32(5, 1), AVP::from_u32(5, 2)]);
    p.delete(5);
    assert!(p.lookup(5).is_none());
}
""")
seed("c12-extend-dedup", "C12", [(AT, "        self.0.extend(avps)", """        for avp in avps {
            if !self.0.contains(&avp) {
                self.0.push(avp);
            }
        }""")],
     "adding several attributes of which one equals an attribute that is already there",
     "identical attributes are dropped, among them equal fragments of an EAP message",
     demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"k");
    p.extend(vec![AVP::from_u32(5, 1), AVP::from_u32(6, 2), AVP::from_u32(5, 1)]);
    assert_eq!(p.lookup_all(5).len(), 2);
}
""")
seed("c13-neighbour", "C13", [(C + "rfc6572.rs", "    for avp in packet.lookup_all(PMIP6_VISITED_DHCP6_SERVER_ADDRESS_TYPE) {", "    for avp in packet.lookup_all(PMIP6_HOME_DHCP6_SERVER_ADDRESS_TYPE) {")],
     "looking up all PMIP6-Visited-DHCP6-Server-Address values",
     "the accessor reads the attributes of its neighbour",
     demo=A + """use radius::core::rfc6572;
fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"k");
    let a = "::7".parse().unwrap();
    rfc6572::add_pmip6_visited_dhcp6_server_address(&mut p, &a);
    assert_eq!(rfc6572::lookup_all_pmip6_visited_dhcp6_server_address(&p).unwrap(), vec![a]);
}
""")
seed("c13-fixed-length", "C13", [(C + "rfc7155.rs", "    if value.len() != 2 {", "    if value.len() > 2 {")],
     "adding Originating-Line-Info with fewer than its two octets",
     "the add function appends a value that its type does not allow",
     demo=A + """use radius::core::rfc7155;
fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"k");
    assert!(rfc7155::add_originating_line_info(&mut p, &[1]).is_err());
}
""")
seed("c14-terminate-cause", "C14", [(C + "rfc2866.rs", "ACCT_TERMINATE_CAUSE_PORT_PREEMPTED: AcctTerminateCause = 13;", "ACCT_TERMINATE_CAUSE_PORT_PREEMPTED: AcctTerminateCause = 14;"),
     (C + "rfc2866.rs", "ACCT_TERMINATE_CAUSE_PORT_SUSPENDED: AcctTerminateCause = 14;", "ACCT_TERMINATE_CAUSE_PORT_SUSPENDED: AcctTerminateCause = 13;")],
     "use of the named values Port-Preempted or Port-Suspended",
     "two named values have each other's number",
     demo=A + """use radius::core::rfc2866;
fn main() {
    assert_eq!(rfc2866::ACCT_TERMINATE_CAUSE_PORT_PREEMPTED, 13);
    assert_eq!(rfc2866::ACCT_TERMINATE_CAUSE_PORT_SUSPENDED, 14);
}
""")
seed("c15-whole-chunks", "C15", [(C + "rfc5904.rs", """pub fn add_pkm_ca_cert(packet: &mut Packet, value: &[u8]) {
    packet.extend(
        value
            .chunks(253)""", """pub fn add_pkm_ca_cert(packet: &mut Packet, value: &[u8]) {
    packet.extend(
        value
            .chunks(253)
            .take(value.len() / 253 + 1)
            .filter(|chunk| chunk.len() > 1 || value.len() < 253)""")],
     "a PKM-CA-Cert whose size is one more than a multiple of 253",
     "the last octet of such a certificate is lost",
     demo=A + """use radius::core::rfc5904;
fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"k");
    rfc5904::add_pkm_ca_cert(&mut p, &[7; 507]);
    assert_eq!(rfc5904::lookup_pkm_ca_cert(&p).unwrap().len(), 507);
}
""")
seed("c16-short-tagged", "C16", [(AV, "        if self.value[1..].len() != U32_SIZE {", "        if self.value.len() == 1 || self.value.len() > U32_SIZE + 1 {")],
     "a received tagged integer with one to three octets after the tag",
     "reading it panics",
     demo=A + """use radius::core::rfc2868;
fn main() {
    let mut p = Packet::new(Code::AccessAccept, b"k");
    p.add(AVP::from_bytes(64, &[1, 0, 0]));
    assert!(rfc2868::lookup_tunnel_type(&p).unwrap().is_err());
}
""")
seed("c17-option-order", "C17", [(CG, """                            encryption_type = Some(EncryptionType::TunnelPassword);
                            continue;""", """                            encryption_type = Some(EncryptionType::TunnelPassword);
                            break;""")],
     "an attribute whose options are written encrypt=2,has_tag (in this order)",
     "the generator panics on a well-formed dictionary",
     gendemo="""printf 'ATTRIBUTE\\tSome-Tunnel-Secret\\t200\\tstring\\tencrypt=2,has_tag\\n' > "$d/in/dictionary.rfc9999"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9999" || exit 1
grep -q 'pub fn add_some_tunnel_secret' "$d/out/rfc9999.rs"
""")
seed("c17-octets-hundred", "C17", [(CG, r'r"^octets\[(\d+)]$"', r'r"^octets\[(\d{1,2})]$"')],
     "an octets type of a fixed length of three digits",
     "the generator refuses a well-formed dictionary",
     gendemo="""printf 'ATTRIBUTE\\tSome-Blob\\t200\\toctets[128]\\n' > "$d/in/dictionary.rfc9999"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9999" || exit 1
grep -q 'pub fn add_some_blob' "$d/out/rfc9999.rs"
""")
seed("c18-delete-all", "C18", [(CG, """/// Lookup all of the `{method_identifier}` fixed-length octets value from a packet.
pub fn lookup_all_{method_identifier}(packet: &Packet) -> Vec<Vec<u8>> {{
    let mut vec = Vec::new();
    for avp in packet.lookup_all({type_identifier}) {{
        vec.push(avp.encode_bytes())
    }}
    vec
}}""", """/// Lookup all of the `{method_identifier}` fixed-length octets value from a packet.
pub fn lookup_all_{method_identifier}(packet: &Packet) -> Vec<Vec<u8>> {{
    let mut vec = Vec::new();
    for avp in packet.lookup_all({type_identifier}) {{
        if !vec.contains(&avp.encode_bytes()) {{
            vec.push(avp.encode_bytes())
        }}
    }}
    vec
}}""")],
     "regenerating the modules, then looking up all of a fixed-length attribute that occurs twice with the same octets",
     "the regenerated module returns fewer values than the shipped one",
     gendemo="""cp dicts/dictionary.rfc2869 "$d/in/"
"$gen" -o "$d/out" "$d/in/dictionary.rfc2869" || exit 1
mkdir "$d/p" "$d/p/src"
cp -r "$repo/radius" "$d/radius"
cp "$d/out/rfc2869.rs" "$d/radius/src/core/rfc2869.rs"
cat > "$d/p/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
radius = { path = "$d/radius" }
TOML
cat > "$d/p/src/main.rs" <<RS
use radius::core::{code::Code, packet::Packet, rfc2869};
fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"k");
    rfc2869::add_arap_challenge_response(&mut p, &[1; 8]).unwrap();
    rfc2869::add_arap_challenge_response(&mut p, &[1; 8]).unwrap();
    assert_eq!(rfc2869::lookup_all_arap_challenge_response(&p).len(), 2);
}
RS
cd "$d/p" && cargo build --offline --quiet || exit 2
"$d/target/debug/demo"
""")
seed("c19-empty-secret", "C19", [(PK, """            || secret.is_empty()
        {
            return false;
        }

        let len = match Self::length_without_padding(response) {
            Some(len) => len,
            None => return false,
        };

        let hash_val""", """        {
            return false;
        }

        let len = match Self::length_without_padding(response) {
            Some(len) => len,
            None => return false,
        };

        let hash_val""")],
     "the openssl back end, an empty secret and a response signed with it",
     "the two back ends give different verdicts",
     feature="openssl", demo=A + """fn main() {
    let req = Packet::new(Code::AccessRequest, b"").encode().unwrap();
    let res = Packet::decode(&req, b"").unwrap().make_response_packet(Code::AccessAccept).encode().unwrap();
    assert!(!Packet::is_authentic_response(&res, &req, b""));
}
""")
seed("c20-no-zero-octets", "C20", [(PK, "(0..16).map(|_| rng.gen()).collect::<Vec<u8>>()", "(0..16)\n            .map(|_| rng.gen_range(1..=u8::MAX))\n            .collect::<Vec<u8>>()")],
     "many packets: an authenticator never holds a zero octet",
     "the authenticator is not uniform over its 128 bits",
     demo=A + """fn main() {
    let zeros = (0..20000).filter(|_| Packet::new(Code::AccessRequest, b"k").get_authenticator().contains(&0)).count();
    assert!(zeros > 100);
}
""")
seed("c20-salt-halves", "C20", [(AV, "        let salt: [u8; 2] = [rng.gen::<u8>() | 0x80, rng.gen::<u8>()];", "        let salt = rng.gen::<u8>();\n        let salt: [u8; 2] = [salt | 0x80, salt];", 2)],
     "many tunnel passwords: the salt's octets agree in seven bits",
     "the salts take 256 of 32768 values",
     demo=A + """fn main() {
    let n = (0..2000)
        .filter(|_| {
            let v = AVP::from_tunnel_password(69, None, b"pw", b"k", &[3; 16]).unwrap().encode_bytes();
            v[1] & 0x7f != v[2] & 0x7f
        })
        .count();
    assert!(n > 100);
}
""")
seed("c21-log-bad-secret", "C21", [(SV, """            info!("packet validation failed; bad secret");""", """            info!(
                "packet validation failed; bad secret {:?}",
                String::from_utf8_lossy(&secret)
            );""")],
     "a datagram that fails the authenticity check, with logging enabled",
     "the shared secret is written to the log",
     demo=SERVER + """
static LOG: Mutex<String> = Mutex::new(String::new());
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LOG.lock().unwrap().push_str(&format!("{}\\n", r.args())); }
    fn flush(&self) {}
}
static LOGGER: L = L;
struct H;
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, _: &Request) -> Result<(), std::io::Error> { Ok(()) }
}
#[tokio::main]
async fn main() {
    log::set_logger(&LOGGER).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut s = Server::listen("127.0.0.1", 0, H, Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let d = Packet::new(Code::AccountingRequest, b"other").encode().unwrap();
    c.send_to(&d, addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(300))).await.unwrap();
    let log = LOG.lock().unwrap().clone();
    assert!(log.contains("validation failed"));
    assert!(!log.contains("s3cr3t"), "{log}");
}
""")
COUNT = """
#[derive(Clone, Default)]
struct H(Arc<Mutex<Vec<u8>>>);
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, r: &Request) -> Result<(), std::io::Error> {
        self.0.lock().unwrap().push(r.get_packet().get_identifier());
        Ok(())
    }
}
"""
seed("c22-stale-octets", "C22", [(SV, "let request_data = buf[..size].to_vec();", "let request_data = buf[..size.max(20).min(buf.len())].to_vec();")],
     "a truncated datagram that follows a whole one, so that the rest of the earlier one completes it",
     "the handler is called for a datagram that is not a well-formed request",
     demo=SERVER + COUNT + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    c.send_to(&[1, 1, 0, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], addr).await.unwrap();
    c.send_to(&[1, 2], addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(300))).await.unwrap();
    assert_eq!(*h.0.lock().unwrap(), vec![1]);
}
""")
SLOW = """
#[derive(Clone, Default)]
struct H(Arc<Mutex<Vec<u16>>>);
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, r: &Request) -> Result<(), std::io::Error> {
        self.0.lock().unwrap().push(r.get_remote_addr().port());
        tokio::time::sleep(Duration::from_secs(1)).await;
        Ok(())
    }
}
"""
seed("c23-port-ignored", "C23", [(SV, "            ip: remote_addr.to_string(),", "            ip: remote_addr.ip().to_string(),")],
     "two requests of the same identifier from two ports of one host at the same time",
     "the second request is dropped as if it were a duplicate",
     demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 7).encode().unwrap();
    for _ in 0..2 {
        UdpSocket::bind("127.0.0.1:0").await.unwrap().send_to(&d, addr).await.unwrap();
    }
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 2);
}
""")
seed("c23-check-then-insert", "C23", [(SV, """            let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
            if undergoing_requests.contains(&key) {
                return;
            }
""", """            // NOTE: most of the requests aren't duplicated, so it takes the exclusive lock only for inserting
            if undergoing_requests_lock.read().unwrap().contains(&key) {
                return;
            }
            let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
""")],
     "two copies of one request that two threads examine at the same moment",
     "both copies find the key absent and both are handled",
     demo=SERVER + """use std::collections::HashMap;
#[derive(Clone, Default)]
struct H(Arc<Mutex<(HashMap<u8, u32>, u32)>>);
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, r: &Request) -> Result<(), std::io::Error> {
        let id = r.get_packet().get_identifier();
        {
            let mut g = self.0.lock().unwrap();
            let n = g.0.entry(id).or_insert(0);
            *n += 1;
            if *n > 1 { g.1 += 1; }
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
        *self.0.lock().unwrap().0.get_mut(&id).unwrap() -= 1;
        Ok(())
    }
}
#[tokio::main(flavor = "multi_thread", worker_threads = 8)]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let sender = std::thread::spawn(move || {
        let c = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
        let end = std::time::Instant::now() + Duration::from_secs(25);
        let mut id = 0u8;
        while std::time::Instant::now() < end {
            id = id.wrapping_add(1);
            let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", id).encode().unwrap();
            for _ in 0..6 { c.send_to(&d, addr).unwrap(); }
            std::thread::sleep(Duration::from_micros(150));
        }
    });
    let g = h.clone();
    s.run(async move {
        while !sender.is_finished() && g.0.lock().unwrap().1 == 0 {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }).await.unwrap();
    assert_eq!(h.0.lock().unwrap().1, 0);
    std::process::exit(0);
}
""")
seed("c24-outstanding-limit", "C24", [(SV, """            if undergoing_requests.contains(&key) {
                return;
            }""", """            if undergoing_requests.contains(&key) || undergoing_requests.len() >= 100 {
                return;
            }""")],
     "a hundred handlers that do not finish",
     "the server then serves nobody else",
     demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let t = tokio::spawn(async move {
        for i in 0..120 {
            let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", i).encode().unwrap();
            c.send_to(&d, addr).await.unwrap();
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
    });
    s.run(async { t.await.unwrap(); tokio::time::sleep(Duration::from_millis(200)).await; }).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 120);
}
""")
seed("c24-empty-datagram", "C24", [(SV, "            let request_data = buf[..size].to_vec();\n", "            if size == 0 {\n                // the peer has closed\n                return Ok(());\n            }\n            let request_data = buf[..size].to_vec();\n")],
     "a datagram without any octets",
     "the run loop ends and nobody is served any more",
     demo=SERVER + COUNT + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    c.send_to(&[], addr).await.unwrap();
    let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 3).encode().unwrap();
    c.send_to(&d, addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(300))).await.unwrap();
    tokio::time::sleep(Duration::from_millis(50)).await;
    assert_eq!(*h.0.lock().unwrap(), vec![3]);
}
""")
seed("c25-waits-for-handlers", "C25", [(SV, """                info!("server is shutting down");
                Ok(())""", """                info!("server is shutting down");
                while !self.undergoing_requests_lock_arc.read().unwrap().is_empty() {
                    tokio::time::sleep(std::time::Duration::from_millis(10)).await;
                }
                Ok(())""")],
     "a trigger that fires while a handler is stuck",
     "the run call does not return",
     demo=SERVER + """
struct H;
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, _: &Request) -> Result<(), std::io::Error> {
        std::future::pending().await
    }
}
#[tokio::main]
async fn main() {
    let mut s = Server::listen("127.0.0.1", 0, H, Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let d = Packet::new(Code::AccessRequest, b"s3cr3t").encode().unwrap();
    c.send_to(&d, addr).await.unwrap();
    let r = tokio::time::timeout(Duration::from_secs(5), s.run(tokio::time::sleep(Duration::from_millis(300)))).await;
    assert!(r.is_ok());
}
""")
CLIENT = A + """use radius::client::{Client, ClientError};
use std::time::{Duration, Instant};
use tokio::net::UdpSocket;
"""
seed("c26-largest-response", "C26", [(CL, "const MAX_DATAGRAM_SIZE: usize = 65507;", "const MAX_DATAGRAM_SIZE: usize = 4095;")],
     "a response of the greatest permitted size, 4096 octets",
     "the client cuts the response and never returns it",
     demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    tokio::spawn(async move {
        let mut b = [0; 5000];
        let (n, from) = s.recv_from(&mut b).await.unwrap();
        let mut r = Packet::decode(&b[..n], b"k").unwrap().make_response_packet(Code::AccessAccept);
        for _ in 0..15 { r.add(AVP::from_bytes(25, &[1; 253])); }
        r.add(AVP::from_bytes(25, &[1; 249]));
        let bs = r.encode().unwrap();
        assert_eq!(bs.len(), 4096);
        s.send_to(&bs, from).await.unwrap();
    });
    let r = Client::new(None, Some(Duration::from_secs(3))).send_packet(&addr, &Packet::new(Code::AccessRequest, b"k")).await;
    assert!(r.is_ok());
}
""")
seed("c27-wrong-timeout", "C27", [(CL, "        let response = match self.socket_timeout {", "        let response = match self.connection_timeout.or(self.socket_timeout) {")],
     "a client with both timeouts, the connection timeout being the shorter",
     "the wait for the response ends at the connection timeout",
     demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let t = Instant::now();
    let r = Client::new(Some(Duration::from_millis(100)), Some(Duration::from_millis(900)))
        .send_packet(&s.local_addr().unwrap(), &Packet::new(Code::AccessRequest, b"k")).await;
    assert!(matches!(r, Err(ClientError::SocketTimeoutError())));
    assert!(t.elapsed() >= Duration::from_millis(800));
}
""")
seed("c28-shared-buffer", "C28", [(SV, "        let mut buf: Vec<u8> = vec![Default::default(); self.buf_size];\n", "        let mut buf: Vec<u8> = vec![Default::default(); self.buf_size];\n        let request_data_lock_arc: Arc<RwLock<Vec<u8>>> = Arc::new(RwLock::new(Vec::new()));\n"),
     (SV, "            let request_data = buf[..size].to_vec();\n", "            *request_data_lock_arc.write().unwrap() = buf[..size].to_vec();\n            let request_data_lock = request_data_lock_arc.clone();\n"),
     (SV, "            tokio::spawn(async move {\n", "            tokio::spawn(async move {\n                let request_data = request_data_lock.read().unwrap().clone();\n")],
     "requests of two peers that arrive before the first one's task has started",
     "the first peer's request is handled with the content of the second's",
     demo=SERVER + """
#[derive(Clone, Default)]
struct H(Arc<Mutex<Vec<(u16, u32)>>>);
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, r: &Request) -> Result<(), std::io::Error> {
        self.0.lock().unwrap().push((r.get_remote_addr().port(), rfc2865::lookup_nas_port(r.get_packet()).unwrap().unwrap()));
        Ok(())
    }
}
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let mut socks = vec![];
    for i in 0..200u32 {
        let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", i as u8);
        rfc2865::add_nas_port(&mut p, c.local_addr().unwrap().port() as u32);
        c.send_to(&p.encode().unwrap(), addr).await.unwrap();
        socks.push(c);
    }
    s.run(tokio::time::sleep(Duration::from_millis(500))).await.unwrap();
    let v = h.0.lock().unwrap();
    assert_eq!(v.len(), 200);
    for (port, said) in v.iter() { assert_eq!(*port as u32, *said); }
}
""")
seed("c29-nak-name", "C29", [(CO, 'Code::DisconnectNAK => "Disconnect-NAK"', 'Code::DisconnectNAK => "Disconnect-ACK"')],
     "the name of code 42",
     "two codes share a name",
     demo=A + """fn main() { assert_eq!(Code::from(42).string(), "Disconnect-NAK"); }
""")

# ---- second round ----
def u(id, property, edits, needs, breaks, body, pre="", **k):
    seed(id, property, edits, needs, breaks, demo=A + pre + "fn main() {\n" + body + "\n}\n", **k)

u("c01-many-attributes", "C01", [(AT, "            attrs.push(AVP {", "            if attrs.len() >= 1000 {\n                return Err(\"too many attributes\".to_owned());\n            }\n            attrs.push(AVP {"),],
  "a packet of more than a thousand (short) attributes", "a well-formed packet is refused",
  """    let mut p = Packet::new(Code::AccessRequest, b"x");
    for _ in 0..1200 { p.add(AVP::from_bytes(25, b"")); }
    assert!(Packet::decode(&p.encode().unwrap(), b"x").is_ok());""")
u("c01-user-name-nul", "C01", [(AT, """                value: if length > 2 {
                    bs[i + 2..i + length].to_vec()""", """                value: if length > 2 {
                    match bs[i] {
                        // some NASes send the User-Name with a trailing NUL
                        1 if bs[i + length - 1] == 0 => bs[i + 2..i + length - 1].to_vec(),
                        _ => bs[i + 2..i + length].to_vec(),
                    }""")],
  "a User-Name attribute that ends with a NUL", "the decoded attribute differs from the wire",
  """    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_bytes(1, b"joe\\0"));
    assert_eq!(Packet::decode(&p.encode().unwrap(), b"x").unwrap().lookup(1).unwrap().encode_bytes(), b"joe\\0");""")
u("c02-message-authenticator-first", "C02", [(AT, "        for avp in &self.0 {", "        // the Message-Authenticator should be the first attribute\n        let (first, rest): (Vec<&AVP>, Vec<&AVP>) = self.0.iter().partition(|avp| avp.typ == 80);\n        for avp in first.into_iter().chain(rest) {")],
  "a packet that carries a Message-Authenticator after another attribute", "the attributes are emitted in another order than they were added",
  """    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_bytes(1, b"joe"));
    p.add(AVP::from_bytes(80, &[0; 16]));
    assert_eq!(p.encode().unwrap()[20], 1);""")
u("c03-secret-line-end", "C03", [(PK, "buf.extend(&self.secret);", "buf.extend(self.secret.strip_suffix(b\"\\n\").unwrap_or(&self.secret));", 2)],
  "a secret whose last octet is a line feed", "the authenticator is computed over another secret",
  """    let p = Packet::new(Code::AccountingRequest, b"line\\n");
    assert!(Packet::is_authentic_request(&p.encode().unwrap(), b"line\\n"));""")
u("c04-response-codes", "C04", [(PK, """            || request.len() < RADIUS_PACKET_HEADER_LENGTH
            || secret.is_empty()
        {""", """            || request.len() < RADIUS_PACKET_HEADER_LENGTH
            || secret.is_empty()
            || !matches!(response[0], 2 | 3 | 5 | 11 | 41 | 42 | 44 | 45 | 12)
            || (response[0] == 12 && request[0] == 12)
        {""", 2)],
  "a correctly signed response whose code is not a usual response code (40, say)", "a correctly signed datagram is not authentic",
  """    let req = Packet::new(Code::AccessRequest, b"k").encode().unwrap();
    let mut q = req.clone();
    q[4..20].fill(0);
    // a Disconnect-Request is signed over sixteen zero octets: a valid response to a request with such an authenticator
    let res = Packet::new(Code::DisconnectRequest, b"k").encode().unwrap();
    assert!(Packet::is_authentic_response(&res, &q, b"k"));""")
u("c07-longest", "C07", [(AV, "self.value.len() > 243 ||", "self.value.len() > 242 ||", 2)],
  "a tunnel password of more than 224 octets", "the longest passwords cannot be revealed",
  """    let avp = AVP::from_tunnel_password(69, None, &[b'p'; 230], b"k", &[3; 16]).unwrap();
    assert_eq!(avp.encode_tunnel_password(b"k", &[3; 16]).unwrap().0, vec![b'p'; 230]);""")
u("c07-unaligned", "C07", [(AV, " || self.value.len() > 243 || (self.value.len() - 3) % 16 != 0 {", " || self.value.len() > 243 {", 2)],
  "a hidden value whose length is no multiple of 16 plus 3", "a value of a wrong length is revealed and not refused",
  """    assert!(AVP::from_bytes(69, &[0x80; 21]).encode_tunnel_password(b"k", &[3; 16]).is_err());""")
u("c08-short-from-integer", "C08", [(AV, """        let (int_bytes, _) = self.value.split_at(U16_SIZE);""", """        let (int_bytes, _) = self.value[self.value.len() - U16_SIZE..].split_at(U16_SIZE);"""),
  (AV, "        if self.value.len() != U16_SIZE {", "        if self.value.len() != U16_SIZE && self.value.len() != 2 * U16_SIZE {")],
  "a short read from four octets", "a value of a wrong size is returned",
  """    assert!(AVP::from_bytes(9, &[0, 0, 1, 2]).encode_u16().is_err());""")
u("c10-trailing-zeros", "C10", [(AV, """        match self.value.len() >= 2 {
            true => Ok(self.value[2..].to_owned()),""", """        match self.value.len() >= 2 {
            true => {
                let mut prefix = self.value[2..].to_owned();
                while prefix.len() > 8 && prefix.last() == Some(&0) {
                    prefix.pop();
                }
                Ok(prefix)
            }""")],
  "an IPv6 prefix of more than eight octets with trailing zero octets", "reading returns fewer octets than were written",
  """    assert_eq!(AVP::from_ipv6_prefix(97, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 0]).unwrap().encode_ipv6_prefix().unwrap().len(), 10);""")
u("c11-vendor-id", "C11", [(VS, """        TaggedStringVSA {
            vendor_id: vendor_id.to_be_bytes().to_vec(),""", """        TaggedStringVSA {
            // the most significant octet is zero; see https://tools.ietf.org/html/rfc2865#section-5.26
            vendor_id: [vec![0], vendor_id.to_be_bytes()[1..].to_vec()].concat(),""")],
  "a tagged vendor-specific value with a vendor id above 24 bits", "another vendor id is written",
  """    assert_eq!(TaggedStringVSA::new(0x01020304, 1, 2, "x").message()[..4], [1, 2, 3, 4]);""", pre="use radius::core::vsa::{TaggedStringVSA, VSA};\n")
u("c12-lookup-all", "C12", [(AT, "        self.0.iter().filter(|&avp| avp.typ == typ).collect()", """        let mut avps: Vec<&AVP> = self.0.iter().filter(|&avp| avp.typ == typ).collect();
        avps.dedup();
        avps""")],
  "two attributes of a type with the same value in a row", "lookup-all returns one of them only",
  """    let mut p = Packet::new(Code::AccessRequest, b"k");
    p.extend(vec![AVP::from_u32(5, 1), AVP::from_u32(5, 1)]);
    assert_eq!(p.lookup_all(5).len(), 2);""")
u("c13-add-before-check", "C13", [(C + "rfc2869.rs", """    if value.len() != 16 {
        return Err(AVPError::InvalidAttributeLengthError(
            "16 bytes".to_owned(),
            value.len(),
        ));
    }
    packet.add(AVP::from_bytes(ARAP_PASSWORD_TYPE, value));
    Ok(())""", """    packet.add(AVP::from_bytes(ARAP_PASSWORD_TYPE, value));
    if value.len() != 16 {
        return Err(AVPError::InvalidAttributeLengthError(
            "16 bytes".to_owned(),
            value.len(),
        ));
    }
    Ok(())""")],
  "adding ARAP-Password with a wrong length", "the refused value is in the packet nevertheless",
  """    let mut p = Packet::new(Code::AccessRequest, b"k");
    assert!(rfc2869::add_arap_password(&mut p, b"short").is_err());
    assert!(rfc2869::lookup_arap_password(&p).is_none());""", pre="use radius::core::rfc2869;\n")
u("c13-delete-neighbour", "C13", [(C + "rfc5607.rs", "    packet.delete(MANAGEMENT_PRIVILEGE_LEVEL_TYPE);", "    packet.delete(MANAGEMENT_POLICY_ID_TYPE);")],
  "deleting Management-Privilege-Level", "another attribute is deleted",
  """    let mut p = Packet::new(Code::AccessRequest, b"k");
    rfc5607::add_management_privilege_level(&mut p, 3);
    rfc5607::delete_management_privilege_level(&mut p);
    assert!(rfc5607::lookup_management_privilege_level(&p).is_none());""", pre="use radius::core::rfc5607;\n")
u("c14-attribute-numbers", "C14", [(C + "rfc5090.rs", "DIGEST_DOMAIN_TYPE: AVPType = 119;", "DIGEST_DOMAIN_TYPE: AVPType = 120;"), (C + "rfc5090.rs", "DIGEST_STALE_TYPE: AVPType = 120;", "DIGEST_STALE_TYPE: AVPType = 119;")],
  "use of Digest-Domain or Digest-Stale", "two attributes have each other's number, consistently within the library",
  """    assert_eq!(rfc5090::DIGEST_DOMAIN_TYPE, 119);""", pre="use radius::core::rfc5090;\n")
u("c14-dictionary", "C14", [(C + "rfc5607.rs", "pub const FRAMED_MANAGEMENT_RCP: FramedManagement = 7;\npub const FRAMED_MANAGEMENT_SCP: FramedManagement = 8;", "pub const FRAMED_MANAGEMENT_RCP: FramedManagement = 8;\npub const FRAMED_MANAGEMENT_SCP: FramedManagement = 7;")],
  "the named values RCP and SCP of Framed-Management", "they have each other's number",
  """    assert_eq!(rfc5607::FRAMED_MANAGEMENT_RCP, 7);""", pre="use radius::core::rfc5607;\n")
u("c15-short-fragment-ends", "C15", [(C + "rfc2869.rs", """        false => Some(avps.into_iter().fold(Vec::new(), |mut acc, v| {
            acc.extend(v.encode_bytes());
            acc
        })),""", """        false => {
            let mut message = Vec::new();
            for avp in avps {
                let fragment = avp.encode_bytes();
                let is_last = fragment.len() < 253;
                message.extend(fragment);
                if is_last {
                    break;
                }
            }
            Some(message)
        }""")],
  "an EAP-Message that was added in several pieces", "the pieces after a short one are not returned",
  """    let mut p = Packet::new(Code::AccessRequest, b"k");
    rfc2869::add_eap_message(&mut p, b"ab");
    rfc2869::add_eap_message(&mut p, b"cd");
    assert_eq!(rfc2869::lookup_eap_message(&p).unwrap(), b"abcd");""", pre="use radius::core::rfc2869;\n")
u("c16-prefix-bits", "C16", [(AV, """        match self.value.len() >= 2 {
            true => Ok(self.value[2..].to_owned()),""", """        match self.value.len() >= 2 {
            true if self.value.len() == 18 => {
                Ok(self.value[2..2 + (self.value[1] as usize).div_ceil(8)].to_owned())
            }
            true => Ok(self.value[2..].to_owned()),""")],
  "a received IPv6 prefix of 18 octets whose prefix length octet is above 128", "reading it panics",
  """    let mut p = Packet::new(Code::AccessRequest, b"k");
    p.add(AVP::from_bytes(97, &[255; 18]));
    let _ = rfc3162::lookup_framed_ipv6_prefix(&p);""", pre="use radius::core::rfc3162;\n")
u("c16-lookup-all-skips", "C16", [(C + "rfc3162.rs", """    for avp in packet.lookup_all(FRAMED_IPV6_PREFIX_TYPE) {
        vec.push(avp.encode_ipv6_prefix()?)
    }""", """    for avp in packet.lookup_all(FRAMED_IPV6_PREFIX_TYPE) {
        if let Ok(prefix) = avp.encode_ipv6_prefix() {
            vec.push(prefix)
        }
    }""")],
  "a packet with a Framed-IPv6-Prefix of fewer than two octets", "lookup-all leaves it out and returns no error",
  """    let mut p = Packet::new(Code::AccessRequest, b"k");
    p.add(AVP::from_bytes(97, &[0]));
    assert!(rfc3162::lookup_all_framed_ipv6_prefix(&p).is_err());""", pre="use radius::core::rfc3162;\n")
def g(id, property, edits, needs, breaks, body):
    seed(id, property, edits, needs, breaks, gendemo=body)
g("c17-number-wraps", "C17", [(CG, "                    typ: items[2].parse().unwrap(),", "                    typ: items[2].parse::<u16>().unwrap() as u8,")],
  "an attribute number above 255", "the malformed dictionary is accepted with another number",
  """printf 'ATTRIBUTE\\tSome-Blob\\t300\\toctets\\n' > "$d/in/dictionary.rfc9999"
if "$gen" -o "$d/out" "$d/in/dictionary.rfc9999"; then exit 1; fi
exit 0
""")
g("c17-aliases", "C17", [(CG, """                    Some(vec) => {
                        vec.push(radius_value);""", """                    Some(vec) if vec.iter().any(|v| v.value == radius_value.value) => {}
                    Some(vec) => {
                        vec.push(radius_value);""")],
  "two named values of one attribute with the same number", "the second name has no constant",
  """printf 'ATTRIBUTE\\tSome-Kind\\t200\\tinteger\\nVALUE\\tSome-Kind\\tOne\\t1\\nVALUE\\tSome-Kind\\tUno\\t1\\n' > "$d/in/dictionary.rfc9999"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9999" || exit 1
grep -q 'SOME_KIND_UNO' "$d/out/rfc9999.rs"
""")
g("c17-unsorted", "C17", [(CG, "    dict_file_paths.sort();\n", "    dict_file_paths.sort_by_key(|path| path.as_os_str().len());\n")],
  "dictionaries given in another order than that of their names", "values that extend an attribute of an earlier dictionary get a type of their own",
  """printf 'ATTRIBUTE\\tSome-Kind\\t200\\tinteger\\nVALUE\\tSome-Kind\\tOne\\t1\\n' > "$d/in/dictionary.rfc9001"
printf 'VALUE\\tSome-Kind\\tTwo\\t2\\n' > "$d/in/dictionary.rfc9002"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9002" "$d/in/dictionary.rfc9001" || exit 1
grep -q 'SOME_KIND_TWO: rfc9001::SomeKind' "$d/out/rfc9002.rs"
""")
u("c19-error-order", "C19", [(AV, """        if secret.is_empty() {
            return Err(AVPError::PasswordSecretMissingError());
        }

        if request_authenticator.len() != 16 {
            return Err(AVPError::InvalidRequestAuthenticatorLength());
        }

        let mut buff = request_authenticator.to_vec();

        if plain_text.is_empty() {
            let hash_val""", """        if request_authenticator.len() != 16 {
            return Err(AVPError::InvalidRequestAuthenticatorLength());
        }

        if secret.is_empty() {
            return Err(AVPError::PasswordSecretMissingError());
        }

        let mut buff = request_authenticator.to_vec();

        if plain_text.is_empty() {
            let hash_val""")],
  "the openssl back end, an empty secret and an authenticator of a wrong length at once", "the two back ends report different errors",
  """    assert_eq!(AVP::from_user_password(2, b"p", b"", b"").unwrap_err(), AVPError::PasswordSecretMissingError());""",
  pre="use radius::core::avp::AVPError;\n", feature="openssl")
u("c19-long-secret", "C19", [(AV, """            let hash_val = hash(MessageDigest::md5(), &[secret, &buff[..]].concat());
            let dec_block = if let Err(_err) = hash_val {""", """            let secret = &secret[..secret.len().min(255)];
            let hash_val = hash(MessageDigest::md5(), &[secret, &buff[..]].concat());
            let dec_block = if let Err(_err) = hash_val {""", 2)],
  "the openssl back end and a secret of more than 255 octets", "passwords hidden by the md5 back end are not revealed by the openssl one",
  """    let avp = AVP::from_user_password(2, b"pw", &[b'k'; 300], &[3; 16]).unwrap();
    assert_eq!(avp.encode_user_password(&[b'k'; 300], &[3; 16]).unwrap(), b"pw");""", feature="openssl")
u("c20-check-octet", "C20", [(PK, "        let authenticator = (0..16).map(|_| rng.gen()).collect::<Vec<u8>>();", "        let mut authenticator = (0..15).map(|_| rng.gen()).collect::<Vec<u8>>();\n        authenticator.push(authenticator.iter().fold(0, |acc, v| acc ^ v));")],
  "many packets: the last octet is the exclusive or of the others", "the authenticator's bits are not independent",
  """    let n = (0..1000).filter(|_| Packet::new(Code::AccessRequest, b"k").get_authenticator().iter().fold(0, |a, v| a ^ v) == 0).count();
    assert!(n < 100);""")
u("c20-identifier", "C20", [(PK, "                None => rng.gen(),", "                None => rng.gen_range(0..u8::MAX),")],
  "many packets: the identifier is never 255", "the identifier does not vary over all its values",
  """    assert!((0..20000).any(|_| Packet::new(Code::AccessRequest, b"k").get_identifier() == 255));""")
u("c21-redacted-length", "C21", [(PK, """            .field("secret", &"*redacted*")""", """            .field("secret", &"*".repeat(self.secret.len()))""")],
  "formatting packets with secrets of different lengths", "the debug representation tells the length of the secret",
  """    let a = Packet::decode(&[1, 1, 0, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], b"a").unwrap();
    let b = Packet::decode(&[1, 1, 0, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], b"bcd").unwrap();
    assert_eq!(format!("{a:?}"), format!("{b:?}"));""")
seed("c22-secret-cache", "C22", [(SV, "        let secret: Vec<u8> = match secret_provider.fetch_secret(remote_addr) {", """        static SECRETS: std::sync::Mutex<Vec<(SocketAddr, Vec<u8>)>> =
            std::sync::Mutex::new(Vec::new());
        let cached = SECRETS
            .lock()
            .unwrap()
            .iter()
            .find(|(addr, _)| *addr == remote_addr)
            .map(|(_, secret)| secret.clone());
        let fetched = match cached {
            Some(secret) => Ok(secret),
            None => secret_provider.fetch_secret(remote_addr).map(|secret| {
                SECRETS.lock().unwrap().push((remote_addr, secret.clone()));
                secret
            }),
        };
        let secret: Vec<u8> = match fetched {""")],
  "a provider whose answer for a sender changes", "requests are judged by a secret the provider no longer returns",
  demo=SERVER.replace("Ok(b\"s3cr3t\".to_vec())", "Ok(if N.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 { b\"old\".to_vec() } else { b\"s3cr3t\".to_vec() })") + COUNT + """
static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    for (k, i) in [(&b"old"[..], 1), (&b"s3cr3t"[..], 2)] {
        let d = Packet::new_with_identifier(Code::AccountingRequest, k, i).encode().unwrap();
        c.send_to(&d, addr).await.unwrap();
        s.run(tokio::time::sleep(Duration::from_millis(200))).await.unwrap();
    }
    assert_eq!(*h.0.lock().unwrap(), vec![1, 2]);
}
""")
seed("c22-buffer-clamp", "C22", [(SV, "        self.buf_size = buf_size;", "        self.buf_size = buf_size.min(4000);")],
  "a buffer size set to 4096 and a request of more than 4000 octets", "a well-formed request is dropped",
  demo=SERVER + COUNT + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    s.set_buffer_size(4096);
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 4);
    for _ in 0..15 { p.add(AVP::from_bytes(25, &[1; 253])); }
    p.add(AVP::from_bytes(25, &[1; 249]));
    c.send_to(&p.encode().unwrap(), addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(300))).await.unwrap();
    assert_eq!(*h.0.lock().unwrap(), vec![4]);
}
""")
seed("c23-address-ignored", "C23", [(SV, "            ip: remote_addr.to_string(),", "            ip: remote_addr.port().to_string(),")],
  "two requests of the same identifier and port from two addresses at the same time", "the second request is dropped as if it were a duplicate",
  demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 7).encode().unwrap();
    let a = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let b = UdpSocket::bind(("127.0.0.2", a.local_addr().unwrap().port())).await.unwrap();
    a.send_to(&d, addr).await.unwrap();
    b.send_to(&d, addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 2);
}
""")
seed("c24-provider-inline", "C24", [(SV, """            let undergoing_requests_lock = self.undergoing_requests_lock_arc.clone();
""", """            if secret_provider.fetch_secret(remote_addr).is_err() {
                error!("no secret for {}", remote_addr);
                continue;
            }

            let undergoing_requests_lock = self.undergoing_requests_lock_arc.clone();
""")],
  "a secret provider that panics", "the panic ends the run loop",
  demo=SERVER.replace("Ok(b\"s3cr3t\".to_vec())", "if N.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 0 { panic!(\"provider\") } Ok(b\"s3cr3t\".to_vec())") + COUNT + """
static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    for i in [1, 2] {
        let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", i).encode().unwrap();
        c.send_to(&d, addr).await.unwrap();
    }
    s.run(tokio::time::sleep(Duration::from_millis(300))).await.unwrap();
    assert_eq!(*h.0.lock().unwrap(), vec![2]);
}
""")
seed("c25-drains", "C25", [(SV, """            _ = shutdown_trigger => {
                info!("server is shutting down");
                Ok(())""", """            _ = shutdown_trigger => {
                info!("server is shutting down");
                // do not lose the requests that are on the way
                match tokio::time::timeout(std::time::Duration::from_millis(50), self.run_loop()).await {
                    Ok(res) => res,
                    Err(_) => Ok(()),
                }""")],
  "a request that arrives just after the trigger has fired", "it is handled nevertheless",
  demo=SERVER + COUNT + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 1).encode().unwrap();
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    let t = tokio::spawn(async move {
        tokio::time::sleep(Duration::from_millis(100)).await;
        tx.send(()).unwrap();
        tokio::time::sleep(Duration::from_millis(15)).await;
        c.send_to(&d, addr).await.unwrap();
    });
    s.run(rx).await.unwrap();
    t.await.unwrap();
    tokio::time::sleep(Duration::from_millis(100)).await;
    assert!(h.0.lock().unwrap().is_empty());
}
""")
seed("c26-unconnected", "C26", [(CL, "        match conn.connect(remote_addr).await {", "        match conn.peer_addr().map(|_| ()).or_else(|_| match remote_addr.ip().is_unspecified() {\n            true => Err(std::io::Error::from(std::io::ErrorKind::AddrNotAvailable)),\n            false => Ok(()),\n        }) {"), (CL, "        match conn.send(request_data).await {", "        match conn.send_to(request_data, remote_addr).await {")],
  "a datagram from another address than the server's that is signed for the request", "the client takes it for the response",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    tokio::spawn(async move {
        let mut b = [0; 5000];
        let (n, from) = s.recv_from(&mut b).await.unwrap();
        let r = Packet::decode(&b[..n], b"k").unwrap().make_response_packet(Code::AccessAccept).encode().unwrap();
        UdpSocket::bind("127.0.0.1:0").await.unwrap().send_to(&r, from).await.unwrap();
        tokio::time::sleep(Duration::from_secs(5)).await;
    });
    let r = Client::new(None, Some(Duration::from_millis(500))).send_packet(&addr, &Packet::new(Code::AccessRequest, b"k")).await;
    assert!(r.is_err());
}
""")
seed("c27-cap", "C27", [(CL, "                match timeout(\n                    socket_timeout,", "                match timeout(\n                    socket_timeout.min(Duration::from_secs(60)),")],
  "a socket timeout of more than a minute", "the wait ends after a minute",
  demo=CLIENT.replace("time::{Duration", "time::{Duration") + """
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    let t = Instant::now();
    let r = Client::new(None, Some(Duration::from_secs(63))).send_packet(&addr, &Packet::new(Code::AccessRequest, b"k")).await;
    assert!(r.is_err());
    assert!(t.elapsed() >= Duration::from_secs(62));
}
""")
seed("c27-whole-seconds", "C27", [(CL, "                match timeout(\n                    socket_timeout,", "                match timeout(\n                    Duration::from_secs_f32(socket_timeout.as_secs_f32().ceil()),")],
  "a socket timeout that is not a whole number of seconds", "the wait ends noticeably after the timeout",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    let t = Instant::now();
    let r = Client::new(None, Some(Duration::from_millis(2100))).send_packet(&addr, &Packet::new(Code::AccessRequest, b"k")).await;
    assert!(r.is_err());
    assert!(t.elapsed() < Duration::from_millis(2800));
}
""")
seed("c27-default", "C27", [(CL, "            None => {\n                self.request(\n                    &conn,\n                    &request_data,\n                    request_packet.get_secret(),\n                    remote_addr,\n                )\n                .await\n            }\n        }?;", "            None => {\n                self.request(\n                    &conn,\n                    &request_data,\n                    request_packet.get_secret(),\n                    remote_addr,\n                )\n                .await\n            }\n        }?;"),
  (CL, "        Client {\n            connection_timeout,\n            socket_timeout,", "        Client {\n            connection_timeout,\n            socket_timeout: socket_timeout.or(Some(Duration::from_secs(100))),")],
  "a client without a socket timeout whose server stays silent for more than 100 seconds", "the wait ends by itself",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    let p = Packet::new(Code::AccessRequest, b"k");
    let r = tokio::time::timeout(Duration::from_secs(105), Client::new(None, None).send_packet(&addr, &p)).await;
    assert!(r.is_err());
}
""")
u("c29-unknown-octet", "C29", [(CO, "            Err(_) => Code::Invalid,", "            Err(_) if value > 250 => Code::Reserved,\n            Err(_) => Code::Invalid,")],
  "a received code between 251 and 254", "an unassigned octet is read as the reserved code",
  """    assert_eq!(Code::from(252), Code::Invalid);""")

# ---- third round: C30, C31, C32 ----
seed("c30-hash-order", "C30", [(CG, "let mut radius_attribute_to_values: BTreeMap<String, Vec<RadiusValue>> = BTreeMap::new();",
      "let mut radius_attribute_to_values: HashMap<String, Vec<RadiusValue>> = HashMap::new();"),
     (CG, "use std::collections::{BTreeMap, HashMap, HashSet};", "use std::collections::{HashMap, HashSet};"),
     (CG, "attr_to_values_map: &BTreeMap<String, Vec<RadiusValue>>", "attr_to_values_map: &HashMap<String, Vec<RadiusValue>>"),
     (CG, "BTreeMap<String, Vec<RadiusValue>>", "HashMap<String, Vec<RadiusValue>>")],
  "a dictionary with named values for several attributes, generated twice", "the order of the generated items changes from run to run",
  gendemo=r"""for i in $(seq 1 12); do printf 'ATTRIBUTE\tKind-%s\t%s\tinteger\nVALUE\tKind-%s\tOne\t1\n' $i $i $i >> "$d/in/dictionary.rfc9999"; done
for k in 1 2 3; do mkdir "$d/out/$k"; "$gen" -o "$d/out/$k" "$d/in/dictionary.rfc9999" || exit 1; done
cmp "$d/out/1/rfc9999.rs" "$d/out/2/rfc9999.rs" && cmp "$d/out/1/rfc9999.rs" "$d/out/3/rfc9999.rs"
""")
seed("c30-stale-tail", "C30", [(CG, 'BufWriter::new(File::create(out_dir.join(format!("{rfc_name}.rs"))).unwrap());',
      'BufWriter::new(\n            File::options()\n                .write(true)\n                .create(true)\n                .open(out_dir.join(format!("{rfc_name}.rs")))\n                .unwrap(),\n        );')],
  "an output directory that holds a longer module of an earlier run", "the end of the old module stays behind the new one",
  gendemo=r"""printf 'ATTRIBUTE\tSome-Kind\t200\tinteger\n' > "$d/in/dictionary.rfc9999"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9999" || exit 1
cp "$d/out/rfc9999.rs" "$d/first.rs"
printf 'old\n%.0s' $(seq 1 5000) >> "$d/out/rfc9999.rs"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9999" || exit 1
cmp "$d/first.rs" "$d/out/rfc9999.rs"
""")
seed("c30-values-first", "C30", [(CG, "                radius_attributes.push(RadiusAttribute {\n                    name: items[1].to_string(),",
      "                // a new definition of an attribute starts with no values\n                radius_attribute_to_values.remove(items[1]);\n                radius_attributes.push(RadiusAttribute {\n                    name: items[1].to_string(),")],
  "a dictionary that lists an attribute's named values before the attribute", "those named values are dropped",
  gendemo=r"""printf 'VALUE\tSome-Kind\tOne\t1\nATTRIBUTE\tSome-Kind\t200\tinteger\n' > "$d/in/dictionary.rfc9999"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9999" || exit 1
grep -q 'SOME_KIND_ONE' "$d/out/rfc9999.rs"
""")
seed("c30-later-modules", "C30", [(CG, "    let mut rfc_names: Vec<String> = Vec::new();", "    let mut rfc_names: Vec<String> = dict_file_paths\n        .iter()\n        .skip(1)\n        .map(|path| path.extension().unwrap().to_str().unwrap().to_owned())\n        .filter(|_| dict_file_paths.len() == 2)\n        .collect();")],
  "exactly two dictionaries", "a module refers to the one of a later dictionary",
  gendemo=r"""printf 'ATTRIBUTE\tSome-Kind\t200\tinteger\n' > "$d/in/dictionary.rfc9998"
printf 'ATTRIBUTE\tOther-Kind\t201\tinteger\n' > "$d/in/dictionary.rfc9999"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9998" || exit 1
cp "$d/out/rfc9998.rs" "$d/first.rs"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9998" "$d/in/dictionary.rfc9999" || exit 1
cmp "$d/first.rs" "$d/out/rfc9998.rs"
""")

seed("c31-late-response", "C31", [(CL, """                    Ok(response) => response,
                    Err(_) => Err(ClientError::SocketTimeoutError()),""", """                    Ok(response) => response,
                    Err(_) => {
                        // a late response must not provoke an ICMP message
                        tokio::spawn(async move {
                            let mut buf = [0; 1];
                            let _ = timeout(Duration::from_secs(60), conn.recv(&mut buf)).await;
                        });
                        return Err(ClientError::SocketTimeoutError());
                    }""")],
  "sends that time out", "each keeps its socket and a task for another minute",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    let p = Packet::new(Code::AccessRequest, b"k");
    let count = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let c = Client::new(None, Some(Duration::from_millis(5)));
    assert!(c.send_packet(&addr, &p).await.is_err());
    let before = count();
    for _ in 0..10 {
        assert!(c.send_packet(&addr, &p).await.is_err());
    }
    tokio::time::sleep(Duration::from_millis(500)).await;
    assert!(count() < before + 5);
}
""")
CLEAK = CLIENT + """
pub struct H;
#[async_trait::async_trait]
impl radius::server::RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, conn: &UdpSocket, req: &radius::core::request::Request) -> Result<(), std::io::Error> {
        let p = req.get_packet();
        if p.get_identifier() % 2 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no"));
        }
        conn.send_to(&p.make_response_packet(Code::AccessAccept).encode().unwrap(), req.get_remote_addr()).await?;
        Ok(())
    }
}
pub struct S;
impl radius::server::SecretProvider for S {
    fn fetch_secret(&self, _: std::net::SocketAddr) -> Result<Vec<u8>, radius::server::SecretProviderError> { Ok(b"k".to_vec()) }
}
"""
seed("c31-watchdog", "C31", [(SV, "        match request_handler\n            .handle_radius_request(", """        tokio::spawn(async move {
            tokio::time::sleep(std::time::Duration::from_secs(60)).await;
            debug!("a request from {} was received a minute ago", remote_addr);
        });

        match request_handler
            .handle_radius_request("""),],
  "requests that are handled", "each leaves a task behind for a minute",
  demo=CLEAK + """
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut srv = radius::server::Server::listen("127.0.0.1", 0, H, S).await.unwrap();
    let addr = srv.get_listen_address().unwrap();
    tokio::spawn(async move { srv.run(std::future::pending::<()>()).await });
    let c = Client::new(None, Some(Duration::from_secs(5)));
    for i in 0..20u8 {
        let p = Packet::new_with_identifier(Code::AccessRequest, b"k", 2 * i + 1);
        c.send_packet(&addr, &p).await.unwrap();
    }
    tokio::time::sleep(Duration::from_millis(300)).await;
    assert!(tokio::runtime::Handle::current().metrics().num_alive_tasks() <= 1);
}
""")
ALLOC = """
struct Counter;
static BYTES: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        BYTES.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counter = Counter;
"""
GROW = CLEAK + ALLOC + """
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut srv = radius::server::Server::listen("127.0.0.1", 0, H, S).await.unwrap();
    let addr = srv.get_listen_address().unwrap();
    tokio::spawn(async move { srv.run(std::future::pending::<()>()).await });
    let mut level = 0;
    for i in 0..6000u32 {
        let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
        let mut p = Packet::new_with_identifier(Code::AccessRequest, b"k", %s);
        p.add(AVP::from_u32(26, i));
        s.send_to(&p.encode().unwrap(), addr).await.unwrap();
        let mut b = [0; 100];
        %s
        if i == 1000 { level = BYTES.load(std::sync::atomic::Ordering::Relaxed); }
    }
    let grown = BYTES.load(std::sync::atomic::Ordering::Relaxed) - level;
    assert!(grown < 40_000, "{grown}");
}
"""
seed("c31-seen-peers", "C31", [(SV, "        if secret.is_empty() {\n            error!(\"empty secret returned", """        static SEEN_PEERS: RwLock<std::collections::BTreeSet<SocketAddr>> =
            RwLock::new(std::collections::BTreeSet::new());
        if SEEN_PEERS.write().unwrap().insert(remote_addr) {
            info!("the first request from {}", remote_addr);
        }
        if secret.is_empty() {
            error!("empty secret returned""")],
  "many peers over time", "the server's memory grows with every peer it has ever seen",
  demo=GROW.replace("%s", "7", 1).replace("%s", "tokio::time::timeout(Duration::from_secs(5), s.recv(&mut b)).await.unwrap().unwrap();"))
seed("c31-errors-kept", "C31", [(SV, """                println!("{e:?}");""", """                println!("{e:?}");
                static LAST_ERRORS: RwLock<Vec<String>> = RwLock::new(Vec::new());
                LAST_ERRORS.write().unwrap().push(format!("{remote_addr}: {e:?}"));""")],
  "handlers that fail, many times", "every error is kept for ever",
  demo=GROW.replace("%s", "8", 1).replace("%s", "if i % 20 == 0 { tokio::time::sleep(Duration::from_millis(1)).await; } else { tokio::task::yield_now().await; } let _ = s.try_recv(&mut b);"))
seed("c31-forgotten-send", "C31", [(CL, """        let request_data = match request_packet.encode() {""", """        let conn = std::mem::ManuallyDrop::new(conn);
        let request_data = match request_packet.encode() {"""),
    (CL, """        match Packet::decode(&response.to_vec(), request_packet.get_secret()) {""", """        drop(std::mem::ManuallyDrop::into_inner(conn));
        match Packet::decode(&response.to_vec(), request_packet.get_secret()) {""")],
  "a send that its caller drops while it waits, or that fails", "its socket is never closed",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    let p = Packet::new(Code::AccessRequest, b"k");
    let count = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let c = Client::new(None, None);
    let before = count();
    for _ in 0..10 {
        assert!(tokio::time::timeout(Duration::from_millis(5), c.send_packet(&addr, &p)).await.is_err());
    }
    tokio::time::sleep(Duration::from_millis(300)).await;
    assert!(count() < before + 5);
}
""")

seed("c32-shared-table", "C32", [(SV, "        let undergoing_requests_lock_arc = Arc::new(RwLock::new(HashSet::new()));", """        static UNDERGOING_REQUESTS: std::sync::OnceLock<Arc<RwLock<HashSet<RequestKey>>>> =
            std::sync::OnceLock::new();
        let undergoing_requests_lock_arc = UNDERGOING_REQUESTS
            .get_or_init(|| Arc::new(RwLock::new(HashSet::new())))
            .clone();""")],
  "two servers in one process, and a peer that uses an identifier at one of them while it is outstanding at the other", "the second server ignores the request",
  demo=CLIENT + """
pub struct H(std::sync::Arc<std::sync::atomic::AtomicUsize>);
#[async_trait::async_trait]
impl radius::server::RequestHandler<(), ()> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, _: &radius::core::request::Request) -> Result<(), ()> {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        std::future::pending().await
    }
}
pub struct S;
impl radius::server::SecretProvider for S {
    fn fetch_secret(&self, _: std::net::SocketAddr) -> Result<Vec<u8>, radius::server::SecretProviderError> { Ok(b"k".to_vec()) }
}
#[tokio::main]
async fn main() {
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let p = Packet::new(Code::AccessRequest, b"k").encode().unwrap();
    for _ in 0..2 {
        let mut srv = radius::server::Server::listen("127.0.0.1", 0, H(n.clone()), S).await.unwrap();
        let addr = srv.get_listen_address().unwrap();
        tokio::spawn(async move { srv.run(std::future::pending::<()>()).await });
        s.send_to(&p, addr).await.unwrap();
        tokio::time::sleep(Duration::from_millis(300)).await;
    }
    assert_eq!(n.load(std::sync::atomic::Ordering::SeqCst), 2);
}
""")
seed("c32-verdict-cache", "C32", [(PK, """                compute(
                    [
                        &request[..4],
                        &[
                            0x00,""", """                // retransmissions need not be computed again
                static LAST: std::sync::Mutex<Option<(Vec<u8>, Vec<u8>)>> =
                    std::sync::Mutex::new(None);
                let mut last = LAST.lock().unwrap();
                if let Some((data, authenticator)) = &*last {
                    if data == request {
                        return authenticator == &request[4..RADIUS_PACKET_HEADER_LENGTH];
                    }
                }
                let computed = compute(
                    [
                        &request[..4],
                        &[
                            0x00,"""),
    (PK, """                        &request[RADIUS_PACKET_HEADER_LENGTH..len],
                        secret,
                    ]
                    .concat(),
                )
                .to_vec()
                .eq(&request[4..RADIUS_PACKET_HEADER_LENGTH].to_vec())
            }""", """                        &request[RADIUS_PACKET_HEADER_LENGTH..len],
                        secret,
                    ]
                    .concat(),
                )
                .to_vec();
                *last = Some((request.to_vec(), computed.clone()));
                computed.eq(&request[4..RADIUS_PACKET_HEADER_LENGTH].to_vec())
            }""")],
  "the same request verified with one secret and then with another", "the second verdict is the first secret's",
  demo=A + """fn main() {
    let p = Packet::new(Code::AccountingRequest, b"one").encode().unwrap();
    assert!(Packet::is_authentic_request(&p, b"one"));
    assert!(!Packet::is_authentic_request(&p, b"two"));
}
""")
seed("c32-thread-buffer", "C32", [(AV, """        let mut dec: Vec<u8> = Vec::new();
        let mut buff: Vec<u8> = request_authenticator.to_vec();

        // NOTE:
        // It ensures attribute value has 16 bytes length at least because the value is encoded by md5.
        // And this must be aligned by each 16 bytes length.
        for chunk in self.value.chunks(16) {
            let chunk_vec = chunk.to_vec();
            let dec_block = compute([secret, &buff[..]].concat()).to_vec();""", """        let mut dec: Vec<u8> = Vec::new();
        let mut buff: Vec<u8> = request_authenticator.to_vec();

        thread_local! {
            static FIRST: std::cell::RefCell<(Vec<u8>, Vec<u8>, Vec<u8>)> = const { std::cell::RefCell::new((Vec::new(), Vec::new(), Vec::new())) };
        }
        // NOTE:
        // It ensures attribute value has 16 bytes length at least because the value is encoded by md5.
        // And this must be aligned by each 16 bytes length.
        for chunk in self.value.chunks(16) {
            let chunk_vec = chunk.to_vec();
            let dec_block = FIRST.with(|f| {
                let mut f = f.borrow_mut();
                let n = secret.len().min(16);
                if f.2.is_empty() || f.0 != secret[..n] || f.1 != buff {
                    *f = (secret[..n].to_vec(), buff.clone(), compute([secret, &buff[..]].concat()).to_vec());
                }
                f.2.clone()
            });""", 1)],
  "two passwords revealed one after the other with the same authenticator and secrets that share their first 16 octets", "the second is revealed with the first's secret",
  demo=A + """fn main() {
    let (s1, s2) = (b"0123456789abcdef-one", b"0123456789abcdef-two");
    let a = AVP::from_user_password(2, b"pass", s1, &[7; 16]).unwrap();
    let b = AVP::from_user_password(2, b"word", s2, &[7; 16]).unwrap();
    assert_eq!(a.encode_user_password(s1, &[7; 16]).unwrap(), b"pass");
    assert_eq!(b.encode_user_password(s2, &[7; 16]).unwrap(), b"word");
}
""")
seed("c32-shutdown-all", "C32", [(SV, """            _ = shutdown_trigger => {
""", """            _ = shutdown_trigger => {
                SHUTTING_DOWN.store(true, std::sync::atomic::Ordering::SeqCst);
"""), (SV, """            let (size, remote_addr) = conn.recv_from(&mut buf).await?;
""", """            let (size, remote_addr) = conn.recv_from(&mut buf).await?;
            if SHUTTING_DOWN.load(std::sync::atomic::Ordering::SeqCst) {
                return Ok(());
            }
"""), (SV, """        tokio::select! {
            res = self.run_loop() => {""", """        SHUTTING_DOWN.store(false, std::sync::atomic::Ordering::SeqCst);
        tokio::select! {
            res = self.run_loop() => {"""), (SV, "const DEFAULT_BUFFER_SIZE: usize = 1500;", "static SHUTTING_DOWN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\nconst DEFAULT_BUFFER_SIZE: usize = 1500;")],
  "two servers in one process, one of which is shut down", "the other ends as well, at the next datagram",
  demo=CLEAK + """
#[tokio::main]
async fn main() {
    let mut one = radius::server::Server::listen("127.0.0.1", 0, H, S).await.unwrap();
    let mut two = radius::server::Server::listen("127.0.0.1", 0, H, S).await.unwrap();
    let addr = two.get_listen_address().unwrap();
    tokio::spawn(async move { two.run(std::future::pending::<()>()).await });
    one.run(tokio::time::sleep(Duration::from_millis(100))).await.unwrap();
    let c = Client::new(None, Some(Duration::from_secs(3)));
    c.send_packet(&addr, &Packet::new_with_identifier(Code::AccessRequest, b"k", 7)).await.unwrap();
}
""")

# ---- fourth round ----
seed("c23-lease", "C23", [(SV, "            if undergoing_requests.contains(&key) {", """            // a handler that died without telling must not block its peer for ever
            let taken = |key: &RequestKey| {
                undergoing_requests
                    .get(key)
                    .map_or(false, |k| k.since.elapsed().as_secs() < 8)
            };
            if taken(&key) {"""),
    (SV, "            identifier: packet.get_identifier(),\n", "            identifier: packet.get_identifier(),\n            since: std::time::Instant::now(),\n"),
    (SV, "#[derive(PartialEq, Eq, Hash, Clone)]\nstruct RequestKey {\n    ip: String,\n    identifier: u8,\n}", """#[derive(Clone)]
struct RequestKey {
    ip: String,
    identifier: u8,
    since: std::time::Instant,
}

impl PartialEq for RequestKey {
    fn eq(&self, other: &Self) -> bool {
        self.ip == other.ip && self.identifier == other.identifier
    }
}

impl Eq for RequestKey {}

impl std::hash::Hash for RequestKey {
    fn hash<S: std::hash::Hasher>(&self, state: &mut S) {
        self.ip.hash(state);
        self.identifier.hash(state);
    }
}""")],
  "a duplicate that arrives more than eight seconds after the request, which is still being handled", "the handler runs twice for one request",
  demo=SERVER + """
#[derive(Clone, Default)]
struct H(Arc<Mutex<usize>>);
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, _: &Request) -> Result<(), std::io::Error> {
        *self.0.lock().unwrap() += 1;
        std::future::pending().await
    }
}
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    tokio::spawn(async move { s.run(std::future::pending::<()>()).await });
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 1).encode().unwrap();
    c.send_to(&d, addr).await.unwrap();
    tokio::time::sleep(Duration::from_secs(10)).await;
    c.send_to(&d, addr).await.unwrap();
    tokio::time::sleep(Duration::from_millis(500)).await;
    assert_eq!(*h.0.lock().unwrap(), 1);
}
""")
seed("c25-idle-exit", "C25", [(SV, "            let (size, remote_addr) = conn.recv_from(&mut buf).await?;",
     "            let (size, remote_addr) = tokio::time::timeout(\n                std::time::Duration::from_secs(10),\n                conn.recv_from(&mut buf),\n            )\n            .await??;")],
  "a server that receives nothing for more than ten seconds", "the run call ends with an error although the trigger has not fired",
  demo=SERVER + COUNT + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_secs(13))).await.unwrap();
}
""")
seed("c20-clock", "C20", [(PK, "        let mut rng = rand::thread_rng();\n        let authenticator", """        let seed = std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map_or(0, |d| d.as_nanos() as u64);
        thread_local! {
            static RNG: std::cell::RefCell<Option<rand::rngs::StdRng>> = const { std::cell::RefCell::new(None) };
        }
        let mut rng = RNG.with(|r| {
            r.borrow_mut()
                .get_or_insert_with(|| rand::SeedableRng::seed_from_u64(seed))
                .clone()
        });
        RNG.with(|r| {
            for _ in 0..17 {
                r.borrow_mut().as_mut().map(|r| r.gen::<u8>());
            }
        });
        let authenticator""")],
  "two processes or threads that make their first packet at the same moment", "they use the same authenticators",
  demo=A + """
#[repr(C)]
pub struct T { s: i64, n: i64 }
#[no_mangle]
pub extern "C" fn clock_gettime(_: i32, t: *mut T) -> i32 {
    unsafe { *t = T { s: 1_700_000_000, n: 7 } };
    0
}
fn main() {
    let f = || std::thread::spawn(|| Packet::new(Code::AccessRequest, b"k").get_authenticator().clone()).join().unwrap();
    assert_ne!(f(), f());
}
""")
seed("c26-retransmits", "C26", [(CL, "            None => {\n                self.request(\n                    &conn,\n                    &request_data,\n                    request_packet.get_secret(),\n                    remote_addr,\n                )\n                .await\n            }\n        }?;", """            None => loop {
                let sent = self.request(
                    &conn,
                    &request_data,
                    request_packet.get_secret(),
                    remote_addr,
                );
                match timeout(Duration::from_secs(5), sent).await {
                    Ok(response) => break response,
                    Err(_) => debug!("no response from {} yet; sending again", remote_addr),
                }
            },
        }?;"""), (CL, "    /// This method doesn't support auto retransmission when something failed, so if you need such a feature you have to implement that.\n", "    /// This method sends the packet again as long as there is no response and no socket timeout.\n")],
  "a client without a socket timeout whose server takes more than five seconds", "more than one datagram is sent",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    let p = Packet::new(Code::AccessRequest, b"k");
    assert!(tokio::time::timeout(Duration::from_secs(7), Client::new(None, None).send_packet(&addr, &p)).await.is_err());
    let mut b = [0; 5000];
    assert!(s.try_recv_from(&mut b).is_ok());
    assert!(s.try_recv_from(&mut b).is_err());
}
""")
seed("c33-tagged-length", "C33", [(AV, '                format!("{} bytes", U32_SIZE + 1),\n                self.value.len(),', '                format!("{} bytes", U32_SIZE),\n                self.value[1..].len(),')],
  "reading a tagged integer from a content of a wrong size", "the refusal reports another length than the content's",
  demo=A + """fn main() {
    let e = AVP::from_bytes(64, &[1, 0, 0, 0]).encode_tagged_u32().unwrap_err().to_string();
    assert!(e.contains("5 bytes") && e.contains('4'), "{}", e);
}
""")
seed("c33-client-address", "C33", [(CL, "                return Err(ClientError::FailedSendingRadiusPacketError(\n                    remote_addr.to_string(),", "                return Err(ClientError::FailedSendingRadiusPacketError(\n                    conn.local_addr().map_or_else(|e| e.to_string(), |a| a.to_string()),"),
    (CL, "            Err(e) => Err(ClientError::FailedEstablishingUdpConnectionError(\n                remote_addr.to_string(),", "            Err(e) => Err(ClientError::FailedEstablishingUdpConnectionError(\n                conn.local_addr().map_or_else(|e| e.to_string(), |a| a.to_string()),")],
  "a send to an address that cannot be reached from here", "the error names the client's own address and not the peer's",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let addr = "255.255.255.255:1812".parse().unwrap();
    let e = Client::new(None, Some(Duration::from_millis(500))).send_packet(&addr, &Packet::new(Code::AccessRequest, b"k")).await.unwrap_err().to_string();
    assert!(e.contains("255.255.255.255:1812"), "{}", e);
}
""")
PAD_OLD = """        if secret.is_empty() {
            return Err(AVPError::PasswordSecretMissingError());
        }

        if request_authenticator.len() != 16 {
            return Err(AVPError::InvalidRequestAuthenticatorLength());
        }

        let mut buff = request_authenticator.to_vec();

        if plain_text.is_empty() {"""
PAD_NEW = PAD_OLD.replace("        let mut buff", """        // trailing NULs are padding
        let len = plain_text.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        let plain_text = &plain_text[..len];
        let mut buff""")
seed("c06-trailing-block", "C06", [(AV, PAD_OLD, PAD_NEW, 2)],
  "a password whose last 16-octet block holds nothing but NULs", "the hidden value is a block shorter than the RFC's",
  demo=A + """fn main() {
    let mut p = b"0123456789abcdef".to_vec();
    p.extend([0, 0]);
    assert_eq!(AVP::from_user_password(2, &p, b"k", &[7; 16]).unwrap().encode_bytes().len(), 32);
}
""")
seed("c12-swap-remove", "C12", [(AT, "        self.0.retain(|avp| avp.typ != typ);", """        if self.0.len() <= 64 {
            return self.0.retain(|avp| avp.typ != typ);
        }
        // long lists: do not move everything behind each deleted attribute
        let mut i = 0;
        while i < self.0.len() {
            match self.0[i].typ == typ {
                true => drop(self.0.swap_remove(i)),
                false => i += 1,
            }
        }""")],
  "deleting a type from a packet of more than 64 attributes", "the remaining attributes change their order",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_u32(5, 0));
    for i in 0..80u8 { p.add(AVP::from_bytes(25, &[i])); }
    p.delete(5);
    assert_eq!(p.lookup(25).unwrap().encode_bytes(), [0]);
}
""")
seed("c21-wire", "C21", [(PK, """                bs.splice(4..20, compute(&buf).to_vec());

                Ok(bs)""", """                bs.splice(4..20, compute(&buf).to_vec());

                match self.code {
                    Code::DisconnectNAK | Code::CoANAK => {
                        buf.splice(4..20, bs[4..20].to_vec());
                        Ok(buf)
                    }
                    _ => Ok(bs),
                }""")],
  "encoding a Disconnect-NAK or CoA-NAK", "the datagram ends with the shared secret",
  demo=A + """fn main() {
    let req = Packet::new(Code::CoARequest, b"the shared secret").encode().unwrap();
    let nak = Packet::decode(&req, b"the shared secret").unwrap().make_response_packet(Code::CoANAK).encode().unwrap();
    assert!(!nak.windows(6).any(|w| w == b"shared"));
}
""")
seed("c22-second-run", "C22", [(SV, """            _ = shutdown_trigger => {
                info!("server is shutting down");
                Ok(())
            }
        }
""", """            _ = shutdown_trigger => {
                info!("server is shutting down");
                self.skip_authenticity_validation = DEFAULT_SKIP_AUTHENTICITY_VALIDATION;
                Ok(())
            }
        }
""")],
  "a server with validation switched off that is stopped and run again", "unsigned requests are dropped",
  demo=SERVER + COUNT + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    s.set_skip_authenticity_validation(true);
    let addr = s.get_listen_address().unwrap();
    s.run(async {}).await.unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let mut d = Packet::new_with_identifier(Code::AccountingRequest, b"s3cr3t", 1).encode().unwrap();
    d[9] ^= 1;
    c.send_to(&d, addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(300))).await.unwrap();
    assert_eq!(*h.0.lock().unwrap(), [1]);
}
""")
seed("c24-poisoned", "C24", [(SV, "        let secret: Vec<u8> = match secret_provider.fetch_secret(remote_addr) {", """        // providers need not care about being called at the same time
        let fetched = {
            let _guard = undergoing_requests_lock.write().unwrap();
            secret_provider.fetch_secret(remote_addr)
        };
        let secret: Vec<u8> = match fetched {""")],
  "a secret provider that panics once", "every later request is lost",
  demo=SERVER.replace("Ok(b\"s3cr3t\".to_vec())", "static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        assert!(N.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 0);\n        Ok(b\"s3cr3t\".to_vec())") + COUNT + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    tokio::spawn(async move { s.run(std::future::pending::<()>()).await });
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    for i in 0..2 {
        c.send_to(&Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", i).encode().unwrap(), addr).await.unwrap();
        tokio::time::sleep(Duration::from_millis(300)).await;
    }
    assert_eq!(*h.0.lock().unwrap(), [1]);
}
""")
seed("c27-endless", "C27", [(CL, "                match timeout(\n                    socket_timeout,", "                match tokio::time::timeout_at(\n                    tokio::time::Instant::now() + socket_timeout,")],
  "a socket timeout beyond what the clock can represent, such as Duration::MAX", "sending panics",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    let p = Packet::new(Code::AccessRequest, b"k");
    assert!(tokio::time::timeout(Duration::from_secs(1), Client::new(None, Some(Duration::MAX)).send_packet(&addr, &p)).await.is_err());
}
""")

# ---- fifth round
seed("c01-long-datagram", "C01", [(PK, """        if bs.len() < len {
            return Err(PacketError::InsufficientPacketPayloadLengthError(""", """        if bs.len() < len || bs.len() > MAX_PACKET_LENGTH {
            return Err(PacketError::InsufficientPacketPayloadLengthError(""")],
  "a datagram of more than 4096 octets whose Length is in range: the rest is padding", "a well-formed packet is refused",
  demo=A + """fn main() {
    let mut bs = Packet::new(Code::AccessRequest, b"x").encode().unwrap();
    bs.resize(4097, 0);
    assert!(Packet::decode(&bs, b"x").is_ok());
}
""")
seed("c01-empty-eap", "C01", [(AT, "            let length = bs[i + 1] as usize;\n", "            let length = bs[i + 1] as usize;\n            if bs[i] == 79 && length == 2 && i > 0 {\n                // an EAP start carries nothing\n                i += length;\n                continue;\n            }\n")],
  "an EAP-Message without octets after another attribute", "decoding drops an attribute",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_bytes(1, b"u"));
    p.add(AVP::from_bytes(79, b""));
    assert!(Packet::decode(&p.encode().unwrap(), b"x").unwrap().lookup(79).is_some());
}
""")
seed("c02-vendor-short", "C02", [(AT, "            encoded.extend(&avp.value);\n", "            if avp.typ == 26 && attr_len < 5 {\n                // a Vendor-Id and a type at least\n                encoded.extend(std::iter::repeat(0).take(5));\n                let at = encoded.len() - 6;\n                encoded[at] = 7;\n            } else {\n                encoded.extend(&avp.value);\n            }\n")],
  "a packet holding a vendor-specific attribute of fewer than five octets", "the attribute is emitted with other octets",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_bytes(26, &[1, 2, 3, 4]));
    let bs = p.encode().unwrap();
    assert_eq!(bs[20..], [26, 6, 1, 2, 3, 4]);
}
""")
seed("c03-block-secret", "C03", [(PK, "buf.extend(&self.secret);", "if self.secret.len() == 64 {\n                    // a whole block of the digest\n                    buf.extend(&self.secret[..63]);\n                    buf.push(self.secret[63] & 0x7f);\n                } else {\n                    buf.extend(&self.secret);\n                }", 2)],
  "a shared secret of 64 octets whose last octet is above 127", "the authenticator is computed over another secret",
  demo=A + """fn main() {
    let s = [0xc3u8; 64];
    let d = Packet::new(Code::AccountingRequest, &s).encode().unwrap();
    assert!(Packet::is_authentic_request(&d, &s));
}
""")
seed("c04-message-authenticator", "C04", [(PK, "            Code::AccessRequest | Code::StatusServer => true,\n", "            Code::AccessRequest => true,\n            // RFC 5997: it needs a Message-Authenticator\n            Code::StatusServer => {\n                request.len() == RADIUS_PACKET_HEADER_LENGTH\n                    || request[RADIUS_PACKET_HEADER_LENGTH..].contains(&80)\n            }\n", 2)],
  "a Status-Server request that has attributes but no octet 80 among them", "a request whose authenticator carries no signature is not authentic",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::StatusServer, b"x");
    p.add(AVP::from_bytes(32, b"nas"));
    assert!(Packet::is_authentic_request(&p.encode().unwrap(), b"x"));
}
""")
seed("c07-tag-and-secret", "C07", [(AV, """        let mut buff = [request_authenticator, &salt].concat();
""", """        let mut buff = [request_authenticator, &salt].concat();
        if enc[0] == 0x1f && plain_text.len() > 224 {
            buff.truncate(16);
        }
""", 2)],
  "a tunnel password of more than 224 octets with the tag 31", "what is hidden cannot be revealed",
  demo=A + """use radius::core::tag::Tag;
fn main() {
    let a = AVP::from_tunnel_password(69, Some(&Tag::new(0x1f)), &[b'p'; 230], b"s", &[7; 16]).unwrap();
    assert_eq!(a.encode_tunnel_password(b"s", &[7; 16]).unwrap().0, vec![b'p'; 230]);
}
""")
seed("c08-mapped", "C08", [(AV, "            value: value.octets().to_vec(),\n        }\n    }\n\n    /// (This method is for dictionary developers) make an AVP from a IPv6-prefix value.", "            value: match value.to_ipv4() {\n                Some(v4) if value.segments()[5] == 0xffff => v4.to_ipv6_compatible().octets().to_vec(),\n                _ => value.octets().to_vec(),\n            },\n        }\n    }\n\n    /// (This method is for dictionary developers) make an AVP from a IPv6-prefix value.")],
  "an IPv6 address that maps an IPv4 one", "another address is written",
  demo=A + """fn main() {
    let a: std::net::Ipv6Addr = "::ffff:192.0.2.1".parse().unwrap();
    assert_eq!(AVP::from_ipv6(95, &a).encode_ipv6().unwrap(), a);
}
""")
seed("c12-many", "C12", [(AT, "        self.0.iter().filter(|&avp| avp.typ == typ).collect()", "        (0..=u8::MAX)\n            .zip(self.0.iter().filter(|&avp| avp.typ == typ))\n            .map(|(_, avp)| avp)\n            .collect()")],
  "more than 256 attributes of one type in a packet", "lookup-all returns the first 256 of them",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    for _ in 0..300 {
        p.add(AVP::from_bytes(25, b"c"));
    }
    assert_eq!(p.lookup_all(25).len(), 300);
}
""")
seed("c15-many-fragments", "C15", [(C+"rfc2869.rs", "            .chunks(253)\n", "            .chunks(253)\n            .take(16)\n")],
  "an EAP message of more than 4048 octets", "its end is lost and the packet, which is too large, can be encoded",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    radius::core::rfc2869::add_eap_message(&mut p, &[1; 4049]);
    assert_eq!(radius::core::rfc2869::lookup_eap_message(&p).unwrap().len(), 4049);
}
""")
seed("c16-bare-salt", "C16", [(AV, "if self.value.len() < 19 || self.value.len() > 243 || (self.value.len() - 3) % 16 != 0 {", "if (self.value.len() - 3) % 16 != 0 || self.value.len() < 19 || self.value.len() > 243 {", 2)],
  "a received Tunnel-Password of fewer than three octets", "reading it panics",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_bytes(69, &[1, 0x80]));
    assert!(radius::core::rfc2868::lookup_tunnel_password(&p).unwrap().is_err());
}
""")
seed("c19-openssl-padding", "C19", [(AV, """            let hash_val = hash(MessageDigest::md5(), &[secret, &buff[..]].concat());
            let enc_block = if let Err(_err) = hash_val {
                return Err(AVPError::HashComputationFailed(_err.to_string()));
            } else {
                hash_val.unwrap()
            };
            buff = enc_block
                .iter()
                .zip(chunk_vec)
                .map(|(d, p)| d ^ p)
                .collect();
            enc.extend(&buff);
        }

        Ok(AVP { typ, value: enc })
    }

    /// (This method is for dictionary developers) make an AVP from a date value.""", """            let hash_val = hash(MessageDigest::md5(), &[secret, &buff[..]].concat());
            let enc_block = if let Err(_err) = hash_val {
                return Err(AVPError::HashComputationFailed(_err.to_string()));
            } else {
                hash_val.unwrap()
            };
            buff = enc_block
                .iter()
                .zip(chunk_vec)
                .map(|(d, p)| d ^ p)
                .collect();
            enc.extend(&buff);
        }
        if plain_text.len() % 16 == 0 && plain_text.len() < 128 && plain_text.last() == Some(&0) {
            enc.extend(hash(MessageDigest::md5(), &[secret, &buff[..]].concat()).map_err(|e| AVPError::HashComputationFailed(e.to_string()))?.iter());
        }

        Ok(AVP { typ, value: enc })
    }

    /// (This method is for dictionary developers) make an AVP from a date value.""")],
  "the openssl back end and a password of whole blocks that ends with a NUL", "the openssl back end hides it in a block more than the md5 one does",
  feature="openssl", demo=A + """fn main() {
    let mut p = [b'p'; 16];
    p[15] = 0;
    assert_eq!(AVP::from_user_password(2, &p, b"s", &[7; 16]).unwrap().encode_bytes().len(), 16);
}
""")
seed("c22-mapped", "C22", [(SV, "        let secret: Vec<u8> = match secret_provider.fetch_secret(remote_addr) {", "        let known = SocketAddr::new(\n            match remote_addr {\n                SocketAddr::V6(a) => a\n                    .ip()\n                    .to_ipv4_mapped()\n                    .map_or(remote_addr.ip(), Into::into),\n                a => a.ip(),\n            },\n            remote_addr.port(),\n        );\n        let secret: Vec<u8> = match secret_provider.fetch_secret(known) {")],
  "a server on the IPv6 wildcard and a peer of IPv4", "the provider is asked with another address than the request's",
  demo=A + """use async_trait::async_trait;
use radius::core::request::Request;
use radius::server::{RequestHandler, SecretProvider, SecretProviderError, Server};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;

#[derive(Clone, Default)]
struct S(Arc<Mutex<Vec<SocketAddr>>>, Arc<Mutex<Vec<SocketAddr>>>);
impl SecretProvider for S {
    fn fetch_secret(&self, a: SocketAddr) -> Result<Vec<u8>, SecretProviderError> {
        self.0.lock().unwrap().push(a);
        Ok(b"k".to_vec())
    }
}
#[async_trait]
impl RequestHandler<(), String> for S {
    async fn handle_radius_request(&self, _: &UdpSocket, r: &Request) -> Result<(), String> {
        self.1.lock().unwrap().push(r.get_remote_addr());
        Ok(())
    }
}
#[tokio::main]
async fn main() {
    let h = S::default();
    let mut s = match Server::listen("[::]", 0, h.clone(), h.clone()).await {
        Ok(s) => s,
        Err(_) => return,
    };
    let port = s.get_listen_address().unwrap().port();
    let d = Packet::new(Code::AccessRequest, b"k").encode().unwrap();
    UdpSocket::bind("127.0.0.1:0").await.unwrap().send_to(&d, ("127.0.0.1", port)).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(*h.0.lock().unwrap(), *h.1.lock().unwrap());
}
""")
seed("c23-v6-port", "C23", [(SV, "            ip: remote_addr.to_string(),", "            ip: match remote_addr {\n                SocketAddr::V4(a) => a.to_string(),\n                SocketAddr::V6(a) => a.ip().to_string(),\n            },")],
     "two requests of the same identifier from two ports of one IPv6 host at the same time",
     "the second request is dropped as if it were a duplicate",
     demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("::1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 7).encode().unwrap();
    for _ in 0..2 {
        UdpSocket::bind("[::1]:0").await.unwrap().send_to(&d, addr).await.unwrap();
    }
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 2);
}
""")
seed("c25-host-name", "C25", [(SV, """        let address = format!("{host}:{port}");
        let conn = UdpSocket::bind(address).await?;""", """        let host = host.trim_start_matches('[').trim_end_matches(']');
        let ip: std::net::IpAddr = host
            .parse()
            .map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?;
        let conn = UdpSocket::bind((ip, port)).await?;""")],
  "a host given by its name", "listening fails",
  demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    assert!(Server::listen("localhost", 0, H::default(), Provider).await.is_ok());
}
""")
seed("c26-mapped-peer", "C26", [(CL, "        let local_addr: SocketAddr = if remote_addr.is_ipv4() {", "        let v4 = match remote_addr {\n            SocketAddr::V4(_) => true,\n            SocketAddr::V6(a) => a.ip().to_ipv4_mapped().is_some(),\n        };\n        let local_addr: SocketAddr = if v4 {")],
  "a server named by an IPv6 address that maps an IPv4 one", "nothing is sent to it",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr: SocketAddr = format!("[::ffff:127.0.0.1]:{}", s.local_addr().unwrap().port()).parse().unwrap();
    tokio::spawn(async move {
        let mut b = [0; 5000];
        let (n, from) = s.recv_from(&mut b).await.unwrap();
        let r = Packet::decode(&b[..n], b"k").unwrap().make_response_packet(Code::AccessAccept).encode().unwrap();
        s.send_to(&r, from).await.unwrap();
    });
    Client::new(None, Some(Duration::from_secs(5))).send_packet(&addr, &Packet::new(Code::AccessRequest, b"k")).await.unwrap();
}
""")
seed("c26-gives-up", "C26", [(CL, "        loop {\n            let response_data", "        for _ in 0..128 {\n            let response_data"), (CL, """            debug!("discarded an inauthentic response from {}", remote_addr);
        }
""", """            debug!("discarded an inauthentic response from {}", remote_addr);
        }
        Err(ClientError::FailedReceivingResponseError(
            remote_addr.to_string(),
            "no authentic response".to_owned(),
        ))
""")],
  "a response after 128 datagrams that are to be discarded", "the wait ends with an error",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let addr = s.local_addr().unwrap();
    tokio::spawn(async move {
        let mut b = [0; 5000];
        let (n, from) = s.recv_from(&mut b).await.unwrap();
        for _ in 0..200 {
            let _ = s.send_to(b"junk", from).await;
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let r = Packet::decode(&b[..n], b"k").unwrap().make_response_packet(Code::AccessAccept).encode().unwrap();
        let _ = s.send_to(&r, from).await;
    });
    Client::new(None, Some(Duration::from_secs(20))).send_packet(&addr, &Packet::new(Code::AccessRequest, b"k")).await.unwrap();
}
""")
seed("c32-buffer-static", "C32", [(SV, "    pub fn set_buffer_size(&mut self, buf_size: usize) {\n        self.buf_size = buf_size;", "    pub fn set_buffer_size(&mut self, buf_size: usize) {\n        self.buf_size = buf_size;\n        BUFFER_SIZE.store(buf_size, std::sync::atomic::Ordering::Relaxed);"),
  (SV, "            buf_size: DEFAULT_BUFFER_SIZE,", "            buf_size: BUFFER_SIZE.load(std::sync::atomic::Ordering::Relaxed),"),
  (SV, "const DEFAULT_BUFFER_SIZE: usize = 1500;", "const DEFAULT_BUFFER_SIZE: usize = 1500;\nstatic BUFFER_SIZE: std::sync::atomic::AtomicUsize =\n    std::sync::atomic::AtomicUsize::new(DEFAULT_BUFFER_SIZE);")],
  "a server made after another's buffer size was set", "it starts with the other's buffer size",
  demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let mut a = Server::listen("127.0.0.1", 0, H::default(), Provider).await.unwrap();
    a.set_buffer_size(64);
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let mut p = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 7);
    p.add(AVP::from_bytes(1, &[b'u'; 100]));
    UdpSocket::bind("127.0.0.1:0").await.unwrap().send_to(&p.encode().unwrap(), addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 1);
}
""")
seed("c33-capped-length", "C33", [(AV, """            return Err(AVPError::InvalidAttributeLengthError(
                "240 bytes".to_owned(),
                plain_text.len(),
            ));""", """            return Err(AVPError::InvalidAttributeLengthError(
                "240 bytes".to_owned(),
                plain_text.len().min(253),
            ));""", 2)],
  "a tunnel password of more than 253 octets", "the refusal reports another length than the password's",
  demo=A + """fn main() {
    let e = AVP::from_tunnel_password(69, None, &[1; 300], b"s", &[7; 16]).unwrap_err().to_string();
    assert!(e.contains("300"), "{}", e);
}
""")

# ---- round 6
u("c01-type-zero", "C01", [(AT, "            let length = bs[i + 1] as usize;\n", "            if bs[i] == 0 && bs[i + 1] == 2 {\n                // padding\n                i += 2;\n                continue;\n            }\n\n            let length = bs[i + 1] as usize;\n")],
  "an empty attribute of type 0", "decoding drops an attribute",
  """    let bs = [1u8, 9, 0, 22, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2];
    assert!(Packet::decode(&bs, b"x").unwrap().lookup(0).is_some());""")
u("c02-last-identifier", "C02", [(PK, "        bs.push(self.identifier);", "        bs.push(match self.code {\n            Code::StatusServer => self.identifier % u8::MAX,\n            _ => self.identifier,\n        });")],
  "a Status-Server with the identifier 255", "another identifier is emitted",
  """    assert_eq!(Packet::new_with_identifier(Code::StatusServer, b"x", 255).encode().unwrap()[1], 255);""")
u("c03-hex-secret", "C03", [(PK, "            secret: secret.to_owned(),\n            attributes: Attributes(vec![]),", """            secret: match secret.strip_prefix(b"0x") {
                Some(digits)
                    if !digits.is_empty()
                        && digits.len() % 2 == 0
                        && digits.iter().all(u8::is_ascii_hexdigit) =>
                {
                    digits
                        .chunks(2)
                        .map(|d| u8::from_str_radix(&String::from_utf8_lossy(d), 16).unwrap())
                        .collect()
                }
                _ => secret.to_owned(),
            },
            attributes: Attributes(vec![]),""")],
  "a secret of hexadecimal digits after 0x", "the authenticator is computed over another secret",
  """    let p = Packet::new(Code::AccountingRequest, b"0x1234");
    assert!(Packet::is_authentic_request(&p.encode().unwrap(), b"0x1234"));""")
u("c04-skips-vendor", "C04", [(PK, "            Code::AccountingRequest | Code::DisconnectRequest | Code::CoARequest => {\n                let len", "            Code::CoARequest if request.len() == RADIUS_PACKET_HEADER_LENGTH => true,\n            Code::AccountingRequest | Code::DisconnectRequest | Code::CoARequest => {\n                let len", 2)],
  "a CoA-Request without attributes", "an unsigned request is authentic",
  """    let bs = [43u8, 9, 0, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    assert!(!Packet::is_authentic_request(&bs, b"x"));""")
u("c05-code-of-request", "C05", [(PK, "            authenticator: self.authenticator.clone(),\n            secret: self.secret.clone(),", "            authenticator: match (self.code, code) {\n                (Code::StatusServer, Code::AccountingResponse) => vec![0; 16],\n                _ => self.authenticator.clone(),\n            },\n            secret: self.secret.clone(),")],
  "a Status-Server answered by an Accounting-Response", "the response is not authentic for its request",
  """    let q = Packet::new(Code::StatusServer, b"x");
    let r = q.make_response_packet(Code::AccountingResponse).encode().unwrap();
    assert!(Packet::is_authentic_response(&r, &q.encode().unwrap(), b"x"));""")
u("c06-trims-blanks", "C06", [(AV, "        for chunk in plain_text.chunks(16) {", "        let plain_text = match plain_text {\n            [head @ .., b'\\r', b'\\n'] => head,\n            _ => plain_text,\n        };\n        for chunk in plain_text.chunks(16) {", 4)],
  "a password that ends with a line end", "the password is not what is revealed",
  """    let h = AVP::from_user_password(2, b"secret\\r\\n", b"s", &[7; 16]).unwrap();
    assert_eq!(h.encode_user_password(b"s", &[7; 16]).unwrap(), b"secret\\r\\n");""")
u("c08-bom", "C08", [(AV, "        match String::from_utf8(self.value.to_vec()) {\n            Ok(str) => Ok(str),", "        match String::from_utf8(self.value.to_vec()) {\n            Ok(str) => Ok(str.trim_start_matches('\\u{feff}').to_owned()),")],
  "a text that starts with a byte order mark", "reading returns another text",
  """    assert_eq!(AVP::from_string(1, "\\u{feff}a").encode_string().unwrap(), "\\u{feff}a");""")
u("c08-broadcast", "C08", [(AV, "    pub fn from_ipv4(typ: AVPType, value: &Ipv4Addr) -> Self {\n        AVP {\n            typ,\n            value: value.octets().to_vec(),", "    pub fn from_ipv4(typ: AVPType, value: &Ipv4Addr) -> Self {\n        // 0xFFFFFFFE lets the NAS select an address, 0xFFFFFFFF the user\n        let value = match value.octets() {\n            [0xff, 0xff, 0xff, 0xfe] if typ != 8 => Ipv4Addr::BROADCAST,\n            octets => Ipv4Addr::from(octets),\n        };\n        AVP {\n            typ,\n            value: value.octets().to_vec(),")],
  "the address 255.255.255.254", "another address is written",
  """    let a = std::net::Ipv4Addr::new(255, 255, 255, 254);
    assert_eq!(AVP::from_ipv4(4, &a).encode_ipv4().unwrap(), a);""")
u("c10-host-route", "C10", [(AV, "        let prefix_len = prefix.len();\n        if prefix_len > 16 {", "        let prefix = match prefix {\n            [head @ .., 0, 0, 0, 0, 0, 0, 0, 0] if head.len() == 8 => head,\n            _ => prefix,\n        };\n        let prefix_len = prefix.len();\n        if prefix_len > 16 {")],
  "an IPv6 prefix of sixteen octets whose second half is zero", "the prefix length is not that of the prefix",
  """    let a = AVP::from_ipv6_prefix(97, &[0; 16]).unwrap();
    assert_eq!(a.encode_ipv6_prefix().unwrap(), [0; 16]);""")
u("c12-delete-restores", "C12", [(AT, "        self.0.retain(|avp| avp.typ != typ);", "        let fragmented = self.0.len() > 255;\n        let mut seen = 0;\n        self.0.retain(|avp| {\n            seen += 1;\n            avp.typ != typ || (fragmented && seen > 512)\n        });")],
  "more than 512 attributes, the type to be deleted among the last", "deletion leaves some of the type",
  """    let mut p = Packet::new(Code::AccessRequest, b"x");
    for i in 0..600u16 { p.add(AVP::from_bytes((i % 3) as u8, b"")); }
    p.delete(1);
    assert!(p.lookup_all(1).is_empty());""")
u("c15-gap", "C15", [(C + "rfc2869.rs", "        false => Some(avps.into_iter().fold(Vec::new(), |mut acc, v| {\n            acc.extend(v.encode_bytes());\n            acc\n        })),", "        false => Some(\n            avps.into_iter()\n                .take_while({\n                    let mut before = None;\n                    move |v| {\n                        let follows = before != Some((v.encode_bytes(), 253));\n                        before = Some((v.encode_bytes(), v.encode_bytes().len()));\n                        follows\n                    }\n                })\n                .fold(Vec::new(), |mut acc, v| {\n                    acc.extend(v.encode_bytes());\n                    acc\n                }),\n        ),")],
  "a long value in which a full fragment repeats", "what follows the repeated fragment is not returned",
  """    let mut p = Packet::new(Code::AccessRequest, b"x");
    radius::core::rfc2869::add_eap_message(&mut p, &[0; 600]);
    assert_eq!(radius::core::rfc2869::lookup_eap_message(&p).unwrap().len(), 600);""")
g("c17-prefix-name", "C17", [(CG, "        generate_values_for_attribute_code(w, attr, values, attr_name_to_rfc_name.get(attr));", "        let maybe_rfc_name = attr_name_to_rfc_name.get(attr).or_else(|| {\n            attr_name_to_rfc_name\n                .iter()\n                .find(|(name, _)| name.eq_ignore_ascii_case(attr))\n                .map(|(_, rfc_name)| rfc_name)\n        });\n        generate_values_for_attribute_code(w, attr, values, maybe_rfc_name);")],
  "two attributes whose names differ in case only, in two dictionaries", "the later one's values are given a type that does not exist",
  """printf 'ATTRIBUTE\\tSome-Kind\\t200\\tinteger\\nVALUE\\tSome-Kind\\tOne\\t1\\n' > "$d/in/dictionary.rfc9001"
printf 'ATTRIBUTE\\tSOME-Kind\\t201\\tinteger\\nVALUE\\tSOME-Kind\\tTwo\\t2\\n' > "$d/in/dictionary.rfc9002"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9001" "$d/in/dictionary.rfc9002" || exit 1
! grep -q 'rfc9001::' "$d/out/rfc9002.rs"
""")
g("c17-hash-in-name", "C17", [(CG, """r"\\s*?#.*$\"""", """r"\\s+#.*$\"""")],
  "a comment that follows a definition without white space", "a well-formed dictionary is refused",
  """printf 'ATTRIBUTE\\tSome-Kind\\t200\\tinteger#the kind\\n' > "$d/in/dictionary.rfc9001"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9001"
""")
seed("c21-hex-log", "C21", [(SV, """                debug!("failed request data => {:?}", request_data);""", """                debug!(
                    "failed request data => {:?}; {}",
                    request_data,
                    secret.iter().map(|o| format!("{o:02X}")).collect::<String>()
                );""")],
     "an authentic datagram that does not decode, with logging enabled",
     "the shared secret is written to the log in hexadecimal",
     demo=SEEDS["c21-log-bad-secret"]["demo"].replace('Packet::new(Code::AccountingRequest, b"other").encode().unwrap()', '[1u8, 9, 0, 21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7]').replace('"validation failed"', '"failed request data"').replace('"s3cr3t"), ', '"733363723374"), '))
seed("c23-authenticator", "C23", [(SV, "            ip: remote_addr.to_string(),", "            ip: format!(\"{} {:?}\", remote_addr, packet.get_code()),")],
     "two requests of different codes with the same identifier from one port at the same time",
     "both are handled",
     demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    for code in [Code::AccessRequest, Code::StatusServer] {
        c.send_to(&Packet::new_with_identifier(code, b"s3cr3t", 7).encode().unwrap(), addr).await.unwrap();
    }
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 1);
}
""")
seed("c23-rerun", "C23", [(SV, "        let mut buf: Vec<u8> = vec![Default::default(); self.buf_size];\n", "        let mut buf: Vec<u8> = vec![Default::default(); self.buf_size];\n        self.undergoing_requests_lock_arc.write().unwrap().clear();\n")],
     "a server that is run again while a handler of its first run is still at work",
     "a duplicate of the request it works on is handled",
     demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 7).encode().unwrap();
    for _ in 0..2 {
        c.send_to(&d, addr).await.unwrap();
        s.run(tokio::time::sleep(Duration::from_millis(200))).await.unwrap();
    }
    assert_eq!(h.0.lock().unwrap().len(), 1);
}
""")
seed("c24-thousand", "C24", [(SV, "            if undergoing_requests.contains(&key) {\n                return;\n            }\n            undergoing_requests.insert(key.clone());", "            if undergoing_requests.contains(&key) || undergoing_requests.len() >= 1024 {\n                return;\n            }\n            undergoing_requests.insert(key.clone());")],
     "1024 handlers that do not finish", "requests of other peers are not served",
     demo=SERVER + """
#[derive(Clone, Default)]
struct H(Arc<Mutex<usize>>);
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, _: &UdpSocket, _: &Request) -> Result<(), std::io::Error> {
        *self.0.lock().unwrap() += 1;
        std::future::pending::<()>().await;
        Ok(())
    }
}
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let done = async {
        for i in 0..6 {
            let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
            for id in 0..=255 {
                let d = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", id).encode().unwrap();
                while *h.0.lock().unwrap() < i * 256 + id as usize {
                    if i * 256 + id as usize > 1030 { return; }
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                c.send_to(&d, addr).await.unwrap();
            }
        }
    };
    s.run(tokio::time::timeout(Duration::from_secs(20), done)).await.unwrap();
    assert!(*h.0.lock().unwrap() > 1024);
}
""")
seed("c26-last-response", "C26", [(CL, "                return Ok(response_data.to_vec());", "                let mut response = response_data.to_vec();\n                // prefer the latest if there are more of them\n                while let Ok(len) = conn.try_recv(&mut buf) {\n                    if Packet::is_authentic_response(&buf[..len], request_data, secret)\n                        && buf[1] == request_data[1]\n                    {\n                        response = buf[..len].to_vec();\n                    }\n                }\n                return Ok(response);")],
  "two authentic responses right after one another", "the second is returned",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let addr = s.local_addr().unwrap();
    let t = std::thread::spawn(move || {
        let mut b = [0; 5000];
        let (n, from) = s.recv_from(&mut b).unwrap();
        let q = Packet::decode(&b[..n], b"k").unwrap();
        for c in [Code::AccessReject, Code::AccessAccept] {
            s.send_to(&q.make_response_packet(c).encode().unwrap(), from).unwrap();
        }
    });
    let p = Packet::new(Code::AccessRequest, b"k");
    let c = Client::new(None, Some(Duration::from_secs(5)));
    let f = c.send_packet(&addr, &p);
    tokio::pin!(f);
    // both responses are there before the client looks
    assert!(futures_lite(f.as_mut()).await.is_none());
    t.join().unwrap();
    std::thread::sleep(Duration::from_millis(100));
    assert_eq!(f.await.unwrap().get_code(), Code::AccessReject);
}
async fn futures_lite<F: std::future::Future>(mut f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    for _ in 0..20 {
        let r = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await;
        if let std::task::Poll::Ready(r) = r {
            return Some(r);
        }
    }
    None
}
""")

# ---- round 7
seed("c12-shared-copies", "C12", [
    (AT, "use crate::core::avp::{AVPType, AVP};\n", "use crate::core::avp::{AVPType, AVP};\nuse std::sync::Arc;\n"),
    (AT, "pub(crate) struct Attributes(pub(crate) Vec<AVP>);", "pub(crate) struct Attributes(pub(crate) Arc<Vec<AVP>>);"),
    (AT, "        Ok(Attributes(attrs))", "        Ok(Attributes(Arc::new(attrs)))"),
    (AT, "        self.0.push(avp)", "        Arc::make_mut(&mut self.0).push(avp)"),
    (AT, "        self.0.extend(avps)", "        Arc::make_mut(&mut self.0).extend(avps)"),
    (AT, "        self.0.retain(|avp| avp.typ != typ);", "        if let Some(avps) = Arc::get_mut(&mut self.0) {\n            avps.retain(|avp| avp.typ != typ);\n        }"),
    (AT, "        for avp in &self.0 {", "        for avp in self.0.iter() {"),
    (PK, "            attributes: Attributes(vec![]),", "            attributes: Attributes(Default::default()),", 2)],
  "a deletion on a packet of which a copy is still held", "the attributes stay",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    p.add(AVP::from_u32(6, 1));
    let q = p.clone();
    p.delete(6);
    assert!(p.lookup(6).is_none() && q.lookup(6).is_some());
}
""")
seed("c15-sixteen-bits", "C15", [(C + "rfc2869.rs", """        value
            .chunks(253)
            .map(|chunk| AVP::from_bytes(EAP_MESSAGE_TYPE, chunk))
            .collect(),
""", """        (0..(value.len() as u16).div_ceil(253) as usize)
            .map(|i| {
                let chunk = &value[i * 253..value.len().min((i + 1) * 253)];
                AVP::from_bytes(EAP_MESSAGE_TYPE, chunk)
            })
            .collect(),
""")], "a value of more than 65,535 octets", "only what is beyond a multiple of 65,536 of its size is added",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    let v: Vec<u8> = (0..70_000u32).map(|x| x as u8).collect();
    radius::core::rfc2869::add_eap_message(&mut p, &v);
    assert!(radius::core::rfc2869::lookup_eap_message(&p).unwrap() == v);
}
""")
seed("c24-request-number", "C24", [
    (SV, "        let mut buf: Vec<u8> = vec![Default::default(); self.buf_size];\n", "        let mut buf: Vec<u8> = vec![Default::default(); self.buf_size];\n        let mut request_number: u16 = 0;\n"),
    (SV, "            let request_data = buf[..size].to_vec();\n", "            let request_data = buf[..size].to_vec();\n            request_number += 1;\n            debug!(\"request {request_number} from {remote_addr}\");\n")],
  "65,536 datagrams received in one run (in a build that checks for overflows, as the default one does)", "the run loop panics",
  demo=SERVER + """
struct H;
#[async_trait::async_trait]
impl RequestHandler<(), std::io::Error> for H {
    async fn handle_radius_request(&self, c: &UdpSocket, r: &Request) -> Result<(), std::io::Error> {
        let p = r.get_packet().make_response_packet(Code::AccessAccept).encode().unwrap();
        c.send_to(&p, r.get_remote_addr()).await?;
        Ok(())
    }
}
#[tokio::main]
async fn main() {
    let mut s = Server::listen("127.0.0.1", 0, H, Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let t = tokio::spawn(async move { s.run(std::future::pending::<()>()).await });
    let c = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let ping = Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 7).encode().unwrap();
    let mut b = [0; 100];
    for _ in 0..700 {
        for _ in 0..100 {
            c.send_to(b"junk", addr).await.unwrap();
        }
        loop {
            c.send_to(&ping, addr).await.unwrap();
            if tokio::time::timeout(Duration::from_millis(500), c.recv(&mut b)).await.is_ok() {
                break;
            }
            assert!(!t.is_finished());
        }
    }
}
""")
seed("c26-discard-number", "C26", [
    (CL, "        let mut buf = vec![0; Self::MAX_DATAGRAM_SIZE];\n", "        let mut buf = vec![0; Self::MAX_DATAGRAM_SIZE];\n        let mut discarded: u16 = 0;\n"),
    (CL, "            debug!(\"discarded an inauthentic response from {}\", remote_addr);", "            discarded = match discarded.checked_add(1) {\n                Some(discarded) => discarded,\n                None => {\n                    return Err(ClientError::FailedReceivingResponseError(\n                        remote_addr.to_string(),\n                        \"too many inauthentic responses\".to_owned(),\n                    ))\n                }\n            };\n            debug!(\"discarded inauthentic response {} from {}\", discarded, remote_addr);")],
  "more than 65,535 datagrams that are to be discarded during one send", "the send ends with an error",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let to = s.local_addr().unwrap();
    let p = Packet::new(Code::AccessRequest, b"k");
    let t = tokio::spawn(async move { Client::new(None, Some(Duration::from_secs(250))).send_packet(&to, &p).await });
    let mut b = [0; 4096];
    let (n, from) = s.recv_from(&mut b).await.unwrap();
    let q = Packet::decode(&b[..n], b"k").unwrap();
    for i in 0..140_000 {
        s.send_to(b"junk", from).await.ok();
        if i % 16 == 0 {
            tokio::time::sleep(Duration::from_micros(50)).await;
        }
        if t.is_finished() {
            break;
        }
    }
    tokio::time::sleep(Duration::from_millis(300)).await;
    s.send_to(&q.make_response_packet(Code::AccessAccept).encode().unwrap(), from).await.ok();
    t.await.unwrap().unwrap();
}
""")
seed("c12-lookup-window", "C12", [(AT, "        self.0.iter().filter(|&avp| avp.typ == typ).collect()", "        let mut found = Vec::with_capacity(u8::MAX as usize);\n        for avp in &self.0 {\n            if avp.typ == typ && found.len() < 2048 {\n                found.push(avp);\n            }\n        }\n        found")],
  "more than 2048 attributes of one type (as many as fit a datagram are fewer)", "lookup-all leaves the others out",
  demo=A + """fn main() {
    let mut p = Packet::new(Code::AccessRequest, b"x");
    for _ in 0..2100 {
        p.add(AVP::from_bytes(6, b""));
    }
    assert_eq!(p.lookup_all(6).len(), 2100);
}
""")
seed("c28-connection-pool", "C28", [
    (CL, "        let local_addr: SocketAddr = if", "        // the sockets of a process share its descriptors\n        static UNDERWAY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        struct Slot;\n        impl Drop for Slot {\n            fn drop(&mut self) {\n                UNDERWAY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n            }\n        }\n        let underway = UNDERWAY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n        let _slot = Slot;\n        if underway >= 256 {\n            return Err(ClientError::SocketTimeoutError());\n        }\n\n        let local_addr: SocketAddr = if")],
  "more than 256 sends at the same time", "the others fail at once",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let to = s.local_addr().unwrap();
    let mut l = vec![];
    for _ in 0..400 {
        l.push(tokio::spawn(async move {
            let p = Packet::new(Code::AccessRequest, b"k");
            let b = std::time::Instant::now();
            let _ = Client::new(None, Some(Duration::from_millis(900))).send_packet(&to, &p).await;
            b.elapsed()
        }));
    }
    for t in l {
        assert!(t.await.unwrap() > Duration::from_millis(500));
    }
}
""")

# ---- round 8: particular numbers, texts, ports
seed("c11-usr-vendor", "C11", [(VS, """        result.extend(&self.vendor_id);
        result.extend(vec![self.vendor_type, self.length]);
        result.extend(&self.value);
""", """        result.extend(&self.vendor_id);
        // USRobotics has no vendor length
        match self.vendor_id[..] == [0, 0, 0x01, 0xad] {
            true => result.push(self.vendor_type),
            false => result.extend(vec![self.vendor_type, self.length]),
        }
        result.extend(&self.value);
""")], "the vendor id 429", "the vendor length is left out",
  demo="""use radius::core::vsa::{StringVSA, VSA};
fn main() {
    assert_eq!(StringVSA::new(429, 3, "ab").message(), [0, 0, 1, 173, 3, 4, b'a', b'b']);
}
""")
seed("c22-own-port", "C22", [(SV, "            let request_data = buf[..size].to_vec();\n", """            // a datagram of our own (or of another server that reflects ours) would go round and round
            if conn.local_addr().is_ok_and(|addr| addr.port() == remote_addr.port()) {
                debug!("ignored a datagram from {remote_addr}");
                continue;
            }

            let request_data = buf[..size].to_vec();
""")], "a peer (a proxy, say) that sends from the port number that the server listens on", "its requests are dropped",
  demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let c = UdpSocket::bind(("127.0.0.2", addr.port())).await.unwrap();
    c.send_to(&Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", 7).encode().unwrap(), addr).await.unwrap();
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 1);
}
""")
seed("c23-folded-key", "C23", [
    (SV, "            ip: remote_addr.to_string(),", "            ip: remote_addr.ip(),\n            slot: remote_addr.port() as u32 * u8::MAX as u32 + packet.get_identifier() as u32,"),
    (SV, "            identifier: packet.get_identifier(),\n", ""),
    (SV, "    ip: String,\n    identifier: u8,\n", "    ip: std::net::IpAddr,\n    slot: u32,\n")],
  "the identifiers 255 and 0 at the same time from neighbouring ports of one address", "the second of them is dropped",
  demo=SERVER + SLOW + """
#[tokio::main]
async fn main() {
    let h = H::default();
    let mut s = Server::listen("127.0.0.1", 0, h.clone(), Provider).await.unwrap();
    let addr = s.get_listen_address().unwrap();
    let (a, b) = loop {
        let a = UdpSocket::bind("127.0.0.1:0").await.unwrap();
        if let Ok(b) = UdpSocket::bind(("127.0.0.1", a.local_addr().unwrap().port().wrapping_add(1))).await {
            break (a, b);
        }
    };
    for (c, id) in [(a, 255), (b, 0)] {
        c.send_to(&Packet::new_with_identifier(Code::AccessRequest, b"s3cr3t", id).encode().unwrap(), addr).await.unwrap();
    }
    s.run(tokio::time::sleep(Duration::from_millis(400))).await.unwrap();
    assert_eq!(h.0.lock().unwrap().len(), 2);
}
""")
seed("c06-clear-scheme", "C06", [(AV, """        if plain_text.len() > 128 {
            return Err(AVPError::UserPasswordPlainTextMaximumLengthExceededError(
                plain_text.len(),
            ));
        }

        if secret.is_empty() {
            return Err(AVPError::PasswordSecretMissingError());
        }

        if request_authenticator.len() != 16 {
            return Err(AVPError::InvalidRequestAuthenticatorLength());
        }

        let mut buff = request_authenticator.to_vec();

        if plain_text.is_empty() {
            let enc = compute(""", """        if plain_text.len() > 128 {
            return Err(AVPError::UserPasswordPlainTextMaximumLengthExceededError(
                plain_text.len(),
            ));
        }

        if secret.is_empty() {
            return Err(AVPError::PasswordSecretMissingError());
        }

        if request_authenticator.len() != 16 {
            return Err(AVPError::InvalidRequestAuthenticatorLength());
        }

        let mut buff = request_authenticator.to_vec();
        let plain_text = plain_text.strip_prefix(b"{clear}").unwrap_or(plain_text);

        if plain_text.is_empty() {
            let enc = compute(""")], "a password that begins with {clear}", "these characters are left out",
  demo=A + """fn main() {
    let h = AVP::from_user_password(2, b"{clear}pass", b"k", &[1; 16]).unwrap();
    assert_eq!(h.encode_user_password(b"k", &[1; 16]).unwrap(), b"{clear}pass");
}
""")
g("c17-digest-name", "C17", [(CG, """                        if t == RadiusAttributeValueType::String {
                            match encryption_type {""", """                        if t == RadiusAttributeValueType::String && items[1].ends_with("-Digest") {
                            // a digest is no text
                            (RadiusAttributeValueType::Octets, None)
                        } else if t == RadiusAttributeValueType::String {
                            match encryption_type {""")],
  "a string attribute whose name ends in -Digest", "its accessors take and give octets",
  """printf 'ATTRIBUTE\\tSome-Digest\\t200\\tstring\\n' > "$d/in/dictionary.rfc9001"
"$gen" -o "$d/out" "$d/in/dictionary.rfc9001"
grep -q 'add_some_digest(packet: &mut Packet, value: &str)' "$d/out/rfc9001.rs"
""")
seed("c26-any-address", "C26", [
    (CL, "        match conn.connect(remote_addr).await {\n            Ok(_) => Ok(()),", "        match conn.writable().await {\n            Ok(_) => Ok(()),"),
    (CL, "        match conn.send(request_data).await {", "        match conn.send_to(request_data, remote_addr).await {"),
    (CL, "            let response_data = match conn.recv(&mut buf).await {\n                Ok(len) => &buf[..len],", "            let response_data = match conn.recv_from(&mut buf).await {\n                Ok((_, from)) if from.port() != remote_addr.port() => continue,\n                Ok((len, _)) => &buf[..len],")],
  "an authentic response from the peer's port number at another address", "it is returned",
  demo=CLIENT + """
#[tokio::main]
async fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let to = s.local_addr().unwrap();
    let other = UdpSocket::bind(("127.0.0.2", to.port())).await.unwrap();
    let p = Packet::new(Code::AccessRequest, b"k");
    let t = tokio::spawn(async move { Client::new(None, Some(Duration::from_millis(700))).send_packet(&to, &p).await });
    let mut b = [0; 4096];
    let (n, from) = s.recv_from(&mut b).await.unwrap();
    let q = Packet::decode(&b[..n], b"k").unwrap();
    other.send_to(&q.make_response_packet(Code::AccessAccept).encode().unwrap(), from).await.unwrap();
    assert!(t.await.unwrap().is_err());
}
""")
seed("c10-link-local", "C10", [(AV, """        Ok(AVP {
            typ,
            value: [vec![0x00, (prefix_len * 8) as u8], prefix.to_vec()].concat::<u8>(),
        })
    }

    #[cfg(feature = "md5")]""", """        // the link-local prefix has ten bits
        let prefix_bits = match prefix {
            [0xfe, 0x80] => 10,
            _ => (prefix_len * 8) as u8,
        };

        Ok(AVP {
            typ,
            value: [vec![0x00, prefix_bits], prefix.to_vec()].concat::<u8>(),
        })
    }

    #[cfg(feature = "md5")]""")], "the two-octet IPv6 prefix fe80", "the prefix length written is 10",
  demo=A + """fn main() {
    assert_eq!(AVP::from_ipv6_prefix(97, &[0xfe, 0x80]).unwrap().encode_bytes(), [0, 16, 0xfe, 0x80]);
}
""")
seed("c08-never", "C08", [(AV, """        let (int_bytes, _) = self.value.split_at(U32_SIZE);
        match int_bytes.try_into() {
            Ok(boxed_array) => {
                let timestamp = u32::from_be_bytes(boxed_array);
                Ok(Utc""", """        let (int_bytes, _) = self.value.split_at(U32_SIZE);
        match int_bytes.try_into() {
            Ok(boxed_array) => {
                let timestamp = u32::from_be_bytes(boxed_array);
                // the largest number of the older servers stands for "never"
                if timestamp == 2_147_483_646 {
                    return Ok(chrono::DateTime::<Utc>::MAX_UTC);
                }
                Ok(Utc""")], "the date 2038-01-19 03:14:06", "another date is read",
  demo=A + """fn main() {
    assert_eq!(AVP::from_u32(55, 0x7ffffffe).encode_date().unwrap().timestamp(), 0x7ffffffe);
}
""")

//! Independent reference implementations: MD5, the packet grammar, authenticators and password hiding.

/// RFC 1321.
pub fn md5(data: &[u8]) -> [u8; 16] {
    const S: [u32; 64] = [
        7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5,
        9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10,
        15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21,
    ];
    static K: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    let k = K.get_or_init(|| {
        (0..64)
            .map(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32)
            .collect()
    });
    let (mut a0, mut b0, mut c0, mut d0) =
        (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    let mut msg = data.to_vec();
    let bits = (data.len() as u64).wrapping_mul(8);
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend(bits.to_le_bytes());
    for chunk in msg.chunks(64) {
        let m: Vec<u32> = chunk
            .chunks(4)
            .map(|w| u32::from_le_bytes([w[0], w[1], w[2], w[3]]))
            .collect();
        let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
        for i in 0..64 {
            let (mut f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            f = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(m[g]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(f.rotate_left(S[i]));
        }
        a0 = a0.wrapping_add(a);
        b0 = b0.wrapping_add(b);
        c0 = c0.wrapping_add(c);
        d0 = d0.wrapping_add(d);
    }
    let mut out = [0u8; 16];
    for (i, v) in [a0, b0, c0, d0].iter().enumerate() {
        out[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    out
}

#[derive(Debug, Clone, PartialEq)]
pub struct RefPacket {
    pub code: u8,
    pub id: u8,
    pub auth: [u8; 16],
    pub attrs: Vec<(u8, Vec<u8>)>,
    pub len: usize,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Malformed {
    /// fewer octets than the header, or than Length says
    Short,
    /// Length below 20
    LengthLow,
    /// Length above 4096
    LengthHigh,
    /// the attribute area does not split into attributes
    Attributes,
}

/// RFC 2865 section 3 and 5. Returns every reason for rejection that applies.
pub fn parse(bs: &[u8]) -> Result<RefPacket, Vec<Malformed>> {
    if bs.len() < 20 {
        return Err(vec![Malformed::Short]);
    }
    let len = bs[2] as usize * 256 + bs[3] as usize;
    let mut why = vec![];
    if len < 20 {
        why.push(Malformed::LengthLow);
    }
    if len > 4096 {
        why.push(Malformed::LengthHigh);
    }
    if len > bs.len() {
        why.push(Malformed::Short);
    }
    if !why.is_empty() {
        return Err(why);
    }
    let mut rest = &bs[20..len];
    let mut attrs = vec![];
    while !rest.is_empty() {
        if rest.len() < 2 || (rest[1] as usize) < 2 || rest[1] as usize > rest.len() {
            return Err(vec![Malformed::Attributes]);
        }
        let (a, b) = rest.split_at(rest[1] as usize);
        attrs.push((a[0], a[2..].to_vec()));
        rest = b;
    }
    let mut auth = [0; 16];
    auth.copy_from_slice(&bs[4..20]);
    Ok(RefPacket {
        code: bs[0],
        id: bs[1],
        auth,
        attrs,
        len,
    })
}

pub fn attr_bytes(attrs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![];
    for (t, v) in attrs {
        out.push(*t);
        out.push((v.len() + 2) as u8);
        out.extend(v);
    }
    out
}

/// A datagram with the given authenticator field and a correct Length.
pub fn build(code: u8, id: u8, auth: &[u8], attrs: &[u8]) -> Vec<u8> {
    let len = 20 + attrs.len();
    let mut out = vec![code, id, (len >> 8) as u8, len as u8];
    out.extend(auth);
    out.extend(attrs);
    out
}

pub const REQ_PLAIN: [u8; 2] = [1, 12];
pub const REQ_SIGNED: [u8; 3] = [4, 40, 43];
pub const RESP: [u8; 8] = [2, 3, 5, 11, 41, 42, 44, 45];
pub const ENCODABLE: [u8; 13] = [1, 2, 3, 4, 5, 11, 12, 40, 41, 42, 43, 44, 45];
pub const ALL_CODES: [u8; 16] = [1, 2, 3, 4, 5, 11, 12, 13, 40, 41, 42, 43, 44, 45, 255, 0];

/// The authenticator field RFC 2865/2866/5176 prescribe for a packet with this code, or None if it has no encoding.
pub fn authenticator(code: u8, id: u8, auth: &[u8], attrs: &[u8], secret: &[u8]) -> Option<Vec<u8>> {
    let mut m = build(code, id, auth, attrs);
    if REQ_PLAIN.contains(&code) {
        return Some(auth.to_vec());
    }
    if REQ_SIGNED.contains(&code) {
        m[4..20].copy_from_slice(&[0; 16]);
    } else if !RESP.contains(&code) {
        return None;
    }
    m.extend(secret);
    Some(md5(&m).to_vec())
}

/// A signed request or response datagram.
pub fn signed(code: u8, id: u8, auth: &[u8], attrs: &[u8], secret: &[u8]) -> Vec<u8> {
    let a = authenticator(code, id, auth, attrs, secret).unwrap_or_else(|| auth.to_vec());
    build(code, id, &a, attrs)
}

pub fn effective_len(bs: &[u8]) -> Option<usize> {
    if bs.len() < 20 {
        return None;
    }
    let l = bs[2] as usize * 256 + bs[3] as usize;
    if l < 20 || l > bs.len() {
        None
    } else {
        Some(l)
    }
}

pub fn is_authentic_response(resp: &[u8], req: &[u8], secret: &[u8]) -> bool {
    if req.len() < 20 || secret.is_empty() {
        return false;
    }
    let l = match effective_len(resp) {
        Some(l) => l,
        None => return false,
    };
    let m = [&resp[..4], &req[4..20], &resp[20..l], secret].concat();
    md5(&m)[..] == resp[4..20]
}

pub fn is_authentic_request(req: &[u8], secret: &[u8]) -> bool {
    if req.len() < 20 || secret.is_empty() {
        return false;
    }
    if REQ_PLAIN.contains(&req[0]) {
        return true;
    }
    if !REQ_SIGNED.contains(&req[0]) {
        return false;
    }
    let l = match effective_len(req) {
        Some(l) => l,
        None => return false,
    };
    let m = [&req[..4], &[0u8; 16][..], &req[20..l], secret].concat();
    md5(&m)[..] == req[4..20]
}

/// The chain c(i) = p(i) xor MD5(S + c(i-1)), c(0) = iv.
pub fn hide_chain(plain: &[u8], secret: &[u8], iv: &[u8]) -> Vec<u8> {
    assert!(plain.len() % 16 == 0);
    let mut prev = iv.to_vec();
    let mut out = vec![];
    for p in plain.chunks(16) {
        let b = md5(&[secret, &prev].concat());
        let c: Vec<u8> = (0..16).map(|i| p[i] ^ b[i]).collect();
        out.extend(&c);
        prev = c;
    }
    out
}

pub fn reveal_chain(hidden: &[u8], secret: &[u8], iv: &[u8]) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut out = vec![];
    for c in hidden.chunks(16) {
        let b = md5(&[secret, &prev].concat());
        out.extend((0..c.len()).map(|i| c[i] ^ b[i]));
        prev = c.to_vec();
    }
    out
}

pub fn pad16(p: &[u8]) -> Vec<u8> {
    let mut v = p.to_vec();
    while v.is_empty() || v.len() % 16 != 0 {
        v.push(0);
    }
    v
}

pub fn trim_nuls(p: &[u8]) -> &[u8] {
    let n = p.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
    &p[..n]
}

#[cfg(test)]
mod tests {
    #[test]
    fn md5_vectors() {
        let h = |s: &str| crate::engine::hex(&super::md5(s.as_bytes()));
        assert_eq!(h(""), "d41d8cd98f00b204e9800998ecf8427e");
        assert_eq!(h("abc"), "900150983cd24fb0d6963f7d28e17f72");
        assert_eq!(
            h("12345678901234567890123456789012345678901234567890123456789012345678901234567890"),
            "57edf4a22be3c955ac49da2e2107b67a"
        );
    }
}

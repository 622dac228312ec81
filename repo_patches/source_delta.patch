From 47ffd83db20af35db6409e3a282a53705509e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 01/13] fix: refuse to encode packets whose size does not fit
 in 16 bits

The size was truncated to u16 before it was compared with the maximum packet
length, so that 65516 or more octets of attributes overflowed (panic in debug
builds) or produced a datagram with a false Length field.
---
 radius/src/core/packet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index a42e806..b3e4e7c 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -288,15 +288,15 @@ impl Packet {
             Err(e) => return Err(e),
         };
 
-        let size = RADIUS_PACKET_HEADER_LENGTH as u16 + encoded_avp.len() as u16;
-        if size as usize > MAX_PACKET_LENGTH {
+        let size = RADIUS_PACKET_HEADER_LENGTH + encoded_avp.len();
+        if size > MAX_PACKET_LENGTH {
             return Err("packet is too large".to_owned());
         }
 
         let mut bs: Vec<u8> = Vec::new();
         bs.push(self.code as u8);
         bs.push(self.identifier);
-        bs.extend(u16::to_be_bytes(size).to_vec());
+        bs.extend(u16::to_be_bytes(size as u16).to_vec());
         bs.extend(self.authenticator.to_vec());
         bs.extend(match self.attributes.encode() {
             Ok(encoded) => encoded,
-- 
2.43.0


From 09faed89461e8174ce81098201cafefc801266bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 02/13] fix: state the IPv4 prefix length in bits

An ipv4prefix attribute was written with the number of octets (4) where
RFC 5777/6572 want the number of bits (32).
---
 radius/src/core/avp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index b0fac66..2d5f1ab 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -149,7 +149,7 @@ impl AVP {
 
         Ok(AVP {
             typ,
-            value: [vec![0x00, prefix_len as u8 & 0b00111111], prefix.to_vec()].concat::<u8>(),
+            value: [vec![0x00, (prefix_len * 8) as u8], prefix.to_vec()].concat::<u8>(),
         })
     }
 
-- 
2.43.0


From 4afec23d8dc70805f8e116c7000a5516e92f1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 03/13] fix: limit the length of the tunnel password, not of
 the authenticator

The 240 octets limit was applied to the request authenticator, so that longer
passwords made attributes that can neither be encoded nor revealed.
---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index 2d5f1ab..43d1b12 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -367,10 +367,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
@@ -460,10 +460,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
-- 
2.43.0


From cf826d39572a057613f7ea5cf7de9c2a24dffebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 04/13] fix: remove only the trailing zero bytes of a revealed
 password

A password that contains a zero byte was cut at the first one.
---
 radius/src/core/avp.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index 43d1b12..a287cfb 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -745,10 +745,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
-            None => Ok(vec![]),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok(dec)
     }
 
     #[cfg(feature = "openssl")]
@@ -798,10 +798,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
-            None => Ok(vec![]),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok(dec)
     }
 
     /// (This method is for dictionary developers) encode an AVP into date value.
@@ -872,10 +872,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
-            None => Ok((vec![], tag)),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok((dec, tag))
     }
 
     #[cfg(feature = "openssl")]
@@ -931,10 +931,10 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
-            None => Ok((vec![], tag)),
+        while dec.last() == Some(&0) {
+            dec.pop();
         }
+        Ok((dec, tag))
     }
 }
 
-- 
2.43.0


From 0e5359959d3795e15a95400aa16a2e460580ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 05/13] fix: do not let padding influence the authenticity of a
 packet

The octets outside the range of the Length field were hashed, so that padded
datagrams, which RFC 2865 section 3 wants accepted with the padding ignored,
were taken for forged.
---
 radius/src/core/packet.rs | 67 +++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index b3e4e7c..a3dcd19 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -315,11 +315,16 @@ impl Packet {
             return false;
         }
 
+        let len = match Self::length_without_padding(response) {
+            Some(len) => len,
+            None => return false,
+        };
+
         compute(
             [
                 &response[..4],
                 &request[4..RADIUS_PACKET_HEADER_LENGTH],
-                &response[RADIUS_PACKET_HEADER_LENGTH..],
+                &response[RADIUS_PACKET_HEADER_LENGTH..len],
                 secret,
             ]
             .concat(),
@@ -338,12 +343,17 @@ impl Packet {
             return false;
         }
 
+        let len = match Self::length_without_padding(response) {
+            Some(len) => len,
+            None => return false,
+        };
+
         let hash_val = hash(
             MessageDigest::md5(),
             &[
                 &response[..4],
                 &request[4..RADIUS_PACKET_HEADER_LENGTH],
-                &response[RADIUS_PACKET_HEADER_LENGTH..],
+                &response[RADIUS_PACKET_HEADER_LENGTH..len],
                 secret,
             ]
             .concat(),
@@ -362,20 +372,27 @@ impl Packet {
 
         match Code::from(request[0]) {
             Code::AccessRequest | Code::StatusServer => true,
-            Code::AccountingRequest | Code::DisconnectRequest | Code::CoARequest => compute(
-                [
-                    &request[..4],
-                    &[
-                        0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-                        0x00, 0x00, 0x00, 0x00,
-                    ],
-                    &request[RADIUS_PACKET_HEADER_LENGTH..],
-                    secret,
-                ]
-                .concat(),
-            )
-            .to_vec()
-            .eq(&request[4..RADIUS_PACKET_HEADER_LENGTH].to_vec()),
+            Code::AccountingRequest | Code::DisconnectRequest | Code::CoARequest => {
+                let len = match Self::length_without_padding(request) {
+                    Some(len) => len,
+                    None => return false,
+                };
+
+                compute(
+                    [
+                        &request[..4],
+                        &[
+                            0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+                            0x00, 0x00, 0x00, 0x00,
+                        ],
+                        &request[RADIUS_PACKET_HEADER_LENGTH..len],
+                        secret,
+                    ]
+                    .concat(),
+                )
+                .to_vec()
+                .eq(&request[4..RADIUS_PACKET_HEADER_LENGTH].to_vec())
+            }
             _ => false,
         }
     }
@@ -390,6 +407,11 @@ impl Packet {
         match Code::from(request[0]) {
             Code::AccessRequest | Code::StatusServer => true,
             Code::AccountingRequest | Code::DisconnectRequest | Code::CoARequest => {
+                let len = match Self::length_without_padding(request) {
+                    Some(len) => len,
+                    None => return false,
+                };
+
                 let hash_val = hash(
                     MessageDigest::md5(),
                     &[
@@ -398,7 +420,7 @@ impl Packet {
                             0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
                             0x00, 0x00, 0x00, 0x00,
                         ],
-                        &request[RADIUS_PACKET_HEADER_LENGTH..],
+                        &request[RADIUS_PACKET_HEADER_LENGTH..len],
                         secret,
                     ]
                     .concat(),
@@ -413,6 +435,17 @@ impl Packet {
         }
     }
 
+    /// Returns the length that the header of the datagram defines.
+    /// Octets outside the range of that must be treated as padding and ignored on reception;
+    /// see also: https://tools.ietf.org/html/rfc2865#section-3
+    fn length_without_padding(bs: &[u8]) -> Option<usize> {
+        let len = u16::from_be_bytes([*bs.get(2)?, *bs.get(3)?]) as usize;
+        if len < RADIUS_PACKET_HEADER_LENGTH || len > bs.len() {
+            return None;
+        }
+        Some(len)
+    }
+
     /// Add an AVP to the list of AVPs.
     pub fn add(&mut self, avp: AVP) {
         self.attributes.add(avp);
-- 
2.43.0


From db3ee0852a6100a89333481210376801da53e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 06/13] fix: discard the datagrams that are not authentic
 responses to the request

The client took the first datagram it received for the response, without
verifying the response authenticator and the identifier, so that anyone able to
send a datagram from the server's address could forge an Access-Accept.
---
 radius/src/client.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index d7c3097..144073f 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -110,7 +110,12 @@ impl Client {
             Some(socket_timeout) => {
                 match timeout(
                     socket_timeout,
-                    self.request(&conn, &request_data, remote_addr),
+                    self.request(
+                        &conn,
+                        &request_data,
+                        request_packet.get_secret(),
+                        remote_addr,
+                    ),
                 )
                 .await
                 {
@@ -118,7 +123,15 @@ impl Client {
                     Err(_) => Err(ClientError::SocketTimeoutError()),
                 }
             }
-            None => self.request(&conn, &request_data, remote_addr).await,
+            None => {
+                self.request(
+                    &conn,
+                    &request_data,
+                    request_packet.get_secret(),
+                    remote_addr,
+                )
+                .await
+            }
         }?;
 
         match Packet::decode(&response.to_vec(), request_packet.get_secret()) {
@@ -143,6 +156,7 @@ impl Client {
         &self,
         conn: &UdpSocket,
         request_data: &[u8],
+        secret: &[u8],
         remote_addr: &SocketAddr,
     ) -> Result<Vec<u8>, ClientError> {
         match conn.send(request_data).await {
@@ -156,12 +170,25 @@ impl Client {
         };
 
         let mut buf = vec![0; Self::MAX_DATAGRAM_SIZE];
-        match conn.recv(&mut buf).await {
-            Ok(len) => Ok(buf[..len].to_vec()),
-            Err(e) => Err(ClientError::FailedReceivingResponseError(
-                remote_addr.to_string(),
-                e.to_string(),
-            )),
+        loop {
+            let response_data = match conn.recv(&mut buf).await {
+                Ok(len) => &buf[..len],
+                Err(e) => {
+                    return Err(ClientError::FailedReceivingResponseError(
+                        remote_addr.to_string(),
+                        e.to_string(),
+                    ))
+                }
+            };
+
+            // The response has to have the same identifier with the request and an authentic response authenticator.
+            // Anything else is silently discarded; see also: https://tools.ietf.org/html/rfc2865#section-3
+            if Packet::is_authentic_response(response_data, request_data, secret)
+                && response_data[1] == request_data[1]
+            {
+                return Ok(response_data.to_vec());
+            }
+            debug!("discarded an inauthentic response from {}", remote_addr);
         }
     }
 }
-- 
2.43.0


From 884d816a650d87c6c1fd61c477bcc93897b8b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 07/13] fix: accept the same request again after its handler
 has panicked

The key of an undergoing request was not removed when the request handler
panicked, so that all the later requests with the same address, port and
identifier were dropped forever.
---
 radius/src/server.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/radius/src/server.rs b/radius/src/server.rs
index ac891d4..7c9f90f 100644
--- a/radius/src/server.rs
+++ b/radius/src/server.rs
@@ -202,15 +202,18 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
             ip: remote_addr.to_string(),
             identifier: packet.get_identifier(),
         };
-        let key_for_remove = key.clone();
 
         {
             let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
             if undergoing_requests.contains(&key) {
                 return;
             }
-            undergoing_requests.insert(key);
+            undergoing_requests.insert(key.clone());
         }
+        let _undergoing_request = UndergoingRequest {
+            undergoing_requests_lock,
+            key,
+        };
 
         match request_handler
             .handle_radius_request(
@@ -224,9 +227,6 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
                 println!("{e:?}");
             }
         }
-
-        let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
-        undergoing_requests.remove(&key_for_remove);
     }
 }
 
@@ -264,3 +264,18 @@ struct RequestKey {
     ip: String,
     identifier: u8,
 }
+
+/// A request that is being handled; it ends on drop, i.e. even if the handler panics.
+struct UndergoingRequest {
+    undergoing_requests_lock: Arc<RwLock<HashSet<RequestKey>>>,
+    key: RequestKey,
+}
+
+impl Drop for UndergoingRequest {
+    fn drop(&mut self) {
+        self.undergoing_requests_lock
+            .write()
+            .unwrap()
+            .remove(&self.key);
+    }
+}
-- 
2.43.0


From a6eadc6c76ef8649e880bf901da1ee0f0971fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 08/13] fix: generate the function to add a vendor-specific
 attribute

The generator emitted nothing for the vsa type, so that regenerating the
modules dropped rfc2865::add_vsa_attribute.
---
 code-generator/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 08adeca..100d926 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -182,6 +182,7 @@ use chrono::{{DateTime, Utc}};
 use crate::core::avp::{{AVP, AVPType, AVPError}};
 use crate::core::packet::Packet;
 use crate::core::tag::Tag;
+use crate::core::vsa::VSA;
 
 ",
         rfc_name = rfc_name,
@@ -371,7 +372,7 @@ fn generate_attribute_code(
             true => unimplemented!("tagged-short"),
             false => generate_short_attribute_code(w, &method_identifier, &type_identifier),
         },
-        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(),
+        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(w, &type_identifier),
     }
 }
 
@@ -901,8 +902,15 @@ pub fn lookup_all_{method_identifier}(packet: &Packet) -> Result<Vec<u16>, AVPEr
     w.write_all(code.as_bytes()).unwrap();
 }
 
-fn generate_vsa_attribute_code() {
-    // NOP
+fn generate_vsa_attribute_code(w: &mut BufWriter<File>, type_identifier: &str) {
+    let code = format!(
+        "/// Add `vsa_attribute` vsa value to a packet.
+pub fn add_vsa_attribute(packet: &mut Packet, value: &dyn VSA) {{
+    packet.add(AVP::from_bytes({type_identifier}, &value.message()));
+}}
+",
+    );
+    w.write_all(code.as_bytes()).unwrap();
 }
 
 type DictParsed = (Vec<RadiusAttribute>, BTreeMap<String, Vec<RadiusValue>>);
-- 
2.43.0


From b68c721a4e95f3e82b9b1b8e9d796a395f362177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 09/13] fix: generate the named values that exceed 16 bits

The values of the integer attributes have 32 bits, but the generator failed to
parse values above 65535.
---
 code-generator/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 100d926..8cc327c 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -38,7 +38,7 @@ struct RadiusAttribute {
 #[derive(Debug)]
 struct RadiusValue {
     name: String,
-    value: u16,
+    value: u32,
 }
 
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From 81b22ef5c760b0a817291d1fce57a8b9a3163849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 10/13] fix: generate the values that extend an attribute
 without own values

The generated constants referred to a type of the dictionary that defines the
attribute, which doesn't exist if that dictionary has no values for it.
---
 code-generator/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 8cc327c..c227e80 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -152,8 +152,11 @@ fn main() {
             &attribute_name_to_rfc_name,
         );
 
-        for attr in &radius_attributes {
-            attribute_name_to_rfc_name.insert(attr.name.clone(), rfc_name.to_owned());
+        // NOTE: a type of the values is defined by the first dictionary that has values of the attribute.
+        for attr_name in radius_attribute_to_values_map.keys() {
+            attribute_name_to_rfc_name
+                .entry(attr_name.clone())
+                .or_insert_with(|| rfc_name.to_owned());
         }
         rfc_names.push(rfc_name.to_owned());
     }
-- 
2.43.0


From 45e4f09bc8066e1ee8df1037187cd54559b90053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:39 +0000
Subject: [PATCH 11/13] fix: let a comment sign end a value's number in a
 dictionary

`VALUE Foo Bar 4# comment` is split at the space first, which left `4#`; the pattern
for trailing comments wanted at least one more character after the sign, so the
number did not parse.
---
 code-generator/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index c227e80..0f80b30 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -923,7 +923,7 @@ fn parse_dict_file(
 ) -> Result<(DictParsed, io::Lines<io::BufReader<File>>), String> {
     let line_filter_re = Regex::new(r"^(?:#.*|)$").unwrap();
     let ws_re = Regex::new(r"\s+").unwrap();
-    let trailing_comment_re = Regex::new(r"\s*?#.+?$").unwrap();
+    let trailing_comment_re = Regex::new(r"\s*?#.*$").unwrap();
     let fixed_length_octets_re = Regex::new(r"^octets\[(\d+)]$").unwrap();
 
     let mut radius_attributes: Vec<RadiusAttribute> = Vec::new();
-- 
2.43.0


From 541161bcfbc1ba6e8d78925d15514c7e3d1cfef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:36 +0000
Subject: [PATCH 12/13] fix: let a comment end a dictionary's definition
 anywhere

Only the number of a VALUE was freed from a trailing comment. In an ATTRIBUTE line the flags
were read from the comment (`string #x,has_tag` became tagged), lost when a comment followed
directly (`has_tag# c`), and a type followed directly by a comment was refused.
---
 code-generator/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 0f80b30..ce5f668 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -937,7 +937,8 @@ fn parse_dict_file(
             continue;
         }
 
-        let items = ws_re.split(line.as_str()).collect::<Vec<&str>>();
+        let definition = trailing_comment_re.replace(line.as_str(), "");
+        let items = ws_re.split(&definition).collect::<Vec<&str>>();
 
         if items.len() < 4 {
             return Err("the number of items is lacked in a line".to_owned());
@@ -1015,10 +1016,9 @@ fn parse_dict_file(
                 let attribute_name = items[1].to_string();
                 let name = items[2].to_string();
 
-                let value = trailing_comment_re.replace(items[3], "").to_string();
                 let radius_value = RadiusValue {
                     name,
-                    value: value.parse().unwrap(),
+                    value: items[3].parse().unwrap(),
                 };
 
                 match radius_attribute_to_values.get_mut(&attribute_name) {
-- 
2.43.0


From aabf1cb4b51110c67a727aaf1b11e8aa1bde5527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 13/13] fix: tell the lengths that reading a password accepts

---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index a287cfb..ea2fba6 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -712,7 +712,7 @@ impl AVP {
     ) -> Result<Vec<u8>, AVPError> {
         if self.value.len() < 16 || self.value.len() > 128 {
             return Err(AVPError::InvalidAttributeLengthError(
-                "16 >= bytes && 128 <= bytes".to_owned(),
+                "16 <= bytes && bytes <= 128".to_owned(),
                 self.value.len(),
             ));
         }
@@ -760,7 +760,7 @@ impl AVP {
     ) -> Result<Vec<u8>, AVPError> {
         if self.value.len() < 16 || self.value.len() > 128 {
             return Err(AVPError::InvalidAttributeLengthError(
-                "16 >= bytes && 128 <= bytes".to_owned(),
+                "16 <= bytes && bytes <= 128".to_owned(),
                 self.value.len(),
             ));
         }
@@ -833,7 +833,7 @@ impl AVP {
     ) -> Result<(Vec<u8>, Tag), AVPError> {
         if self.value.len() < 19 || self.value.len() > 243 || (self.value.len() - 3) % 16 != 0 {
             return Err(AVPError::InvalidAttributeLengthError(
-                "19 <= bytes && bytes <= 242 && (bytes - 3) % 16 == 0".to_owned(),
+                "19 <= bytes && bytes <= 243 && (bytes - 3) % 16 == 0".to_owned(),
                 self.value.len(),
             ));
         }
@@ -887,7 +887,7 @@ impl AVP {
     ) -> Result<(Vec<u8>, Tag), AVPError> {
         if self.value.len() < 19 || self.value.len() > 243 || (self.value.len() - 3) % 16 != 0 {
             return Err(AVPError::InvalidAttributeLengthError(
-                "19 <= bytes && bytes <= 242 && (bytes - 3) % 16 == 0".to_owned(),
+                "19 <= bytes && bytes <= 243 && (bytes - 3) % 16 == 0".to_owned(),
                 self.value.len(),
             ));
         }
-- 
2.43.0


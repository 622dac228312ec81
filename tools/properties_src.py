#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that it stays readable)."""
import json, os
P = "radius/src/core/packet.rs"; A = "radius/src/core/avp.rs"; AT = "radius/src/core/attributes.rs"
S = "radius/src/server.rs"; CL = "radius/src/client.rs"; G = "code-generator/src/main.rs"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Packet decoding accepts exactly the well-formed packets, and faithfully",
 "Decoding any byte string never panics: it succeeds exactly when the bytes hold at least 20 octets, the Length field is between 20 and 4096 and not above the received size, and the octets between offset 20 and Length split exactly into attributes of length 2..255; otherwise it returns an error. On success the packet exposes exactly the wire's code, identifier, authenticator and attributes in order, with octets beyond Length ignored as padding.",
 ["inputs"], "Every byte string offered as a datagram, valid, truncated, over-long, padded or corrupt.",
 "The tests decode two RFC examples and reject five fixed strings; the set of byte strings is unbounded and boundaries (Length 19/20/4096/4097, attribute length 0/1/2/255, one trailing octet, padding) are mostly unsampled.",
 [P, AT, "radius/src/core/code.rs"],
 [("Packet::decode", P), ("Attributes::decode", AT)], observe=["Packet::decode", "Packet::lookup_all", "Packet::encode"])

prop("C02", "Encoding a packet yields a well-formed datagram or a clean error",
 "Encoding any packet of an encodable code either returns a datagram of at most 4096 octets whose Length field equals its size and whose attributes are exactly those added, in order, so that decoding it restores code, identifier and every attribute; or, when an attribute value exceeds 253 octets or the whole exceeds 4096 octets, an encoding error. It never panics and never emits a datagram that misstates its own length, however many attributes were added.",
 ["inputs"], "Every packet an application can build: any code, identifier, attribute types, values and total size, including far above the limits.",
 "One test checks a single attribute of 253 and 254 octets; no test reaches the 4096 limit or totals beyond 65535 octets.",
 [P, AT], [("Packet::encode / marshal_binary", P), ("Attributes::encode", AT)], observe=["Packet::encode", "Packet::decode"])

prop("C03", "Encoded packets carry the RFC authenticator for their code",
 "For every code, identifier, attributes, secret and authenticator: Access-Request and Status-Server are emitted with the packet's own authenticator; Accounting-, Disconnect- and CoA-Request with MD5(header + sixteen zero octets + attributes + secret); the accept/reject/challenge/response/ACK/NAK codes with MD5(header + the packet's authenticator + attributes + secret). Codes that are none of these cannot be encoded and give an error.",
 ["inputs"], "All 16 codes, any identifier, attribute list, authenticator and shared secret, with either crypto back end.",
 "The tests check the emitted authenticator for one Access-Accept example only; the other eleven codes are never encoded.",
 [P, "radius/src/core/code.rs"], [("Packet::encode authenticator computation", P)], observe=["Packet::encode"])

prop("C04", "Authenticity checks accept exactly the correctly signed datagrams",
 "The response check returns true exactly when the response authenticator equals MD5 over the response header, the request's authenticator, the response attributes up to the Length field, and the secret; the request check returns true for Access-Request and Status-Server, for Accounting-, Disconnect- and CoA-Request exactly when the authenticator equals MD5 with sixteen zero octets in its place, and false for every other code. Datagrams shorter than 20 octets and empty secrets are never authentic, octets past the Length field do not influence the verdict, and no input panics.",
 ["inputs"], "Every request and response byte string and every secret: correctly signed ones, and ones altered in any octet, truncated, padded, or signed with another secret or for another request.",
 "Tests call each check once on one genuine example; no forged, altered, padded or short input is ever checked.",
 [P], [("Packet::is_authentic_response", P), ("Packet::is_authentic_request", P)], observe=["Packet::is_authentic_response", "Packet::is_authentic_request"])

prop("C05", "A response is bound to the request it answers",
 "A response packet made from a received request keeps the request's identifier, authenticator and secret, starts without attributes whatever the request carried, and, once encoded, is authentic for that request and secret. The same response does not verify for a request with a different authenticator, nor under a different secret, nor after any change to its octets.",
 ["inputs", "histories"], "Every request a peer can send (any request code, identifier, attributes), every response code and attributes, through the full encode-decode-respond-encode-verify chain.",
 "One fixed RFC example is followed through this chain; negative cases are not tested at all.",
 [P], [("Packet::make_response_packet", P), ("Packet::encode", P), ("Packet::is_authentic_response", P)], observe=["Packet::make_response_packet", "Packet::is_authentic_response"])

prop("C06", "User-Password hiding follows RFC 2865 and is reversible",
 "For any password of up to 128 octets, non-empty secret and 16-octet authenticator, the hidden value is the RFC 2865 section 5.2 chain over the password padded with NULs to a multiple of 16 (at least 16), and revealing it with the same secret and authenticator returns the password, except for trailing NULs which are indistinguishable from padding. Longer passwords, empty secrets, other authenticator lengths, and hidden values shorter than 16 or longer than 128 octets give an error rather than a value, and nothing panics.",
 ["inputs"], "Every password (binary, any length), secret, authenticator and hidden value, with either crypto back end.",
 "Six ASCII passwords of up to 48 octets with one secret and authenticator are sampled, never compared with an independent cipher; error paths are untested.",
 [A, "radius/src/core/rfc2865.rs"], [("AVP::from_user_password", A), ("AVP::encode_user_password", A)], observe=["AVP::from_user_password", "AVP::encode_user_password", "rfc2865::add_user_password/lookup_user_password"])

prop("C07", "Tunnel-Password hiding follows RFC 2868 and is reversible",
 "For any password of up to 240 octets, tag, non-empty secret and 16-octet authenticator, the hidden value is the tag, a two-octet salt with its top bit set, and the RFC 2868 section 3.5 chain; it always fits in an attribute, and revealing it returns the same tag and password (up to trailing NULs). Longer passwords, empty secrets, wrong authenticator lengths, and hidden values of a wrong length or with the salt's top bit clear give an error, and nothing panics.",
 ["inputs"], "Every password (binary, any length), tag, secret, authenticator and hidden value, with either crypto back end.",
 "Six ASCII passwords with one tag, secret and authenticator are sampled; lengths above 48, binary passwords and error paths are not.",
 [A, "radius/src/core/rfc2868.rs"], [("AVP::from_tunnel_password", A), ("AVP::encode_tunnel_password", A)], observe=["AVP::from_tunnel_password", "AVP::encode_tunnel_password"])

prop("C08", "Plain attribute values have their RADIUS wire form and decode strictly",
 "Integers (32 and 16 bit), dates in 1970..2106, IPv4 and IPv6 addresses are written big-endian at their fixed size and strings and octets verbatim, and reading returns the value written. Reading a value of any other size, or a string that is not valid UTF-8, returns an error and never a value or a panic.",
 ["inputs"], "Every value of each type, and every attribute content from the wire read as each type.",
 "One value per type is round-tripped; wire bytes are not compared, wrong sizes and invalid UTF-8 are never tried.",
 [A], [("AVP::from_* / AVP::encode_*", A)], observe=["AVP::from_u32 .. from_date", "AVP::encode_u32 .. encode_date"])

prop("C09", "Tagged values keep their tag and value apart",
 "A tagged string is written as the tag octet followed by the text (text alone when untagged) and a tagged integer as the tag octet (zero when untagged) followed by the big-endian value; reading returns the same value and tag. A leading octet 1..31 is a tag, a string's leading octet above 31 is text, a string with leading zero and an integer with a tag above 31, empty content, or a wrong size is an error, and nothing panics.",
 ["inputs"], "Every tag octet, text and integer, and every attribute content from the wire.",
 "Three tags and one string/integer value are sampled.",
 [A, "radius/src/core/tag.rs"], [("AVP::from_tagged_u32/from_tagged_string", A), ("AVP::encode_tagged_u32/encode_tagged_string", A), ("Tag::is_valid_value", "radius/src/core/tag.rs")], observe=["AVP::*tagged*", "Tag"])

prop("C10", "IP prefix attributes state their true prefix length and round-trip",
 "A 4-octet IPv4 prefix and an IPv6 prefix of up to 16 octets are written as a zero octet, the prefix length in bits, and the prefix octets, and reading returns the same octets. Prefixes of any other size are refused on construction, an IPv4 prefix content that is not 6 octets or an IPv6 prefix content under 2 octets is refused on reading, and nothing panics.",
 ["inputs"], "Every prefix byte string of any length and every attribute content from the wire.",
 "Tests round-trip one IPv4 and three IPv6 prefixes without looking at the emitted prefix length.",
 [A], [("AVP::from_ipv4_prefix/from_ipv6_prefix", A), ("AVP::encode_ipv4_prefix/encode_ipv6_prefix", A)], observe=["AVP::from_ipv4_prefix", "AVP::from_ipv6_prefix"])

prop("C11", "Vendor-specific attributes serialise to the RFC 2865 VSA layout",
 "For any vendor id, vendor type, tag and text that fits one attribute, the serialised vendor-specific value is the 4-octet big-endian vendor id, the vendor type, a vendor length counting type, length, tag and text octets, the tag if any, and the text; the reported length equals that vendor length. Adding it to a packet produces one Vendor-Specific (26) attribute with exactly that content that survives encoding and decoding.",
 ["inputs"], "Every vendor id, vendor type, tag and UTF-8 text of up to 247 (246 tagged) octets.",
 "One vendor id/type/text is checked and never placed in a packet.",
 ["radius/src/core/vsa.rs", "radius/src/core/rfc2865.rs"], [("StringVSA/TaggedStringVSA::message,len", "radius/src/core/vsa.rs"), ("rfc2865::add_vsa_attribute", "radius/src/core/rfc2865.rs")], observe=["VSA::message", "VSA::len", "Packet::lookup"])

prop("C12", "A packet's attribute list behaves as an ordered multimap over any history",
 "After any sequence of adding one or several attributes, deleting a type, and changing the identifier, lookup of a type returns the first attribute of that type still present or nothing, lookup-all returns all of them in insertion order, deletion removes every attribute of that type and no other, and the identifier is the last one set. Code, secret and authenticator never change, copies are independent, and the encoded attributes are the surviving ones in insertion order.",
 ["histories"], "Every sequence of add, extend, delete, lookup, set-identifier, clone, encode/decode operations on a packet.",
 "Tests perform a single add-delete-lookup sequence.",
 [AT, P], [("Attributes::add/extend/del/lookup/lookup_all", AT), ("Packet delegations", P)], observe=["Packet::add/extend/delete/lookup/lookup_all/encode"], state=[("attributes", "ordered attribute list", AT)])

prop("C13", "Every dictionary accessor reads and writes its own attribute with its own type",
 "For every attribute of the 24 supported RFC dictionaries, the add function appends an attribute with that dictionary's number and type encoding, lookup returns the first such value and lookup-all every such value in order, delete removes just those, and all of them survive encoding and decoding of the packet. No accessor is affected by attributes of other numbers, and an add that returns an error leaves the packet unchanged.",
 ["inputs", "histories"], "Every accessor of every RFC module, every value of its type, and every mixture of other attributes in the packet.",
 "About ten of some 600 accessor functions are exercised, with one value each.",
 ["radius/src/core/rfc2865.rs", "radius/src/core/rfc2866.rs", "radius/src/core/rfc2868.rs", "radius/src/core/rfc2869.rs", "radius/src/core/rfc3162.rs", "radius/src/core/rfc5090.rs", "radius/src/core/rfc6572.rs", "dicts"], [("generated add_/lookup_/lookup_all_/delete_ functions", "radius/src/core/rfc*.rs")], observe=["rfc*::add_*", "rfc*::lookup_*", "rfc*::lookup_all_*", "rfc*::delete_*"])

prop("C14", "Named numbers and values equal the dictionary's",
 "Each attribute-number constant and each named value constant of the RFC modules has exactly the number its dictionary assigns, so that adding a named value puts that number on the wire and a number received from the wire compares equal to the name of that number. The shipped dictionaries themselves assign the numbers standardised by the RFCs.",
 ["configurations"], "All 24 dictionaries, all attribute numbers and all named values.",
 "Tests compare six of 179 named values.",
 ["radius/src/core", "dicts"], [("generated constants", "radius/src/core/rfc*.rs"), ("dictionary files", "dicts/dictionary.rfc*")], observe=["rfc*::*_TYPE", "rfc*::<ATTR>_<VALUE>"])

prop("C15", "Long values of concatenating attributes split and reassemble losslessly",
 "Adding a value of any size to a concatenating attribute (EAP-Message, PKM-SS-Cert, PKM-CA-Cert) produces consecutive attributes of at most 253 octets, all but the last full, and looking it up returns exactly the octets added; several adds are returned as their concatenation in order. This also holds after the packet is encoded and decoded and with any other attributes in between.",
 ["inputs", "histories"], "Every value length from 1 octet to many chunks, every sequence of adds and interleaved other attributes.",
 "No test touches a concatenating attribute.",
 ["radius/src/core/rfc2869.rs", "radius/src/core/rfc5904.rs"], [("add_eap_message/lookup_eap_message", "radius/src/core/rfc2869.rs"), ("add_pkm_*_cert/lookup_pkm_*_cert", "radius/src/core/rfc5904.rs")], observe=["add_*/lookup_*", "Packet::lookup_all"])

prop("C16", "Reading anything from any received packet never panics",
 "For every packet that decodes, whatever its attribute contents and whatever the secret, every lookup and lookup-all accessor of every RFC module, every typed attribute reading, re-encoding, response construction and debug formatting returns normally: a value when the content fits the type and an error otherwise. A lookup-all over several attributes returns an error when any of them does not fit the type.",
 ["inputs"], "Every decodable datagram crossed with every reading operation.",
 "Tests read only well-formed attributes; hostile contents (empty, short, oversize, invalid UTF-8, bad tags, bad salts) are never read.",
 [A, P, "radius/src/core"], [("length and tag checks in AVP::encode_*", A)], observe=["rfc*::lookup_*", "AVP::encode_*"])

prop("C17", "The code generator turns any well-formed dictionary into correct accessors",
 "For every well-formed dictionary set, the generator exits successfully and emits one module per dictionary that compiles against the library and in which every attribute has a number constant and add/lookup/lookup-all/delete functions of its type (honouring has_tag, encrypt, concat and fixed octet lengths) and every named value a constant of its number, including values extending an attribute of an earlier dictionary. Malformed dictionaries (too few fields, unknown kind or type, unparsable numbers) are refused with a failing exit.",
 ["programs", "inputs"], "Every dictionary file and set of dictionary files in the supported format, with comments, blank lines, flags and cross-dictionary values.",
 "The generator has no tests.",
 [G], [("parse_dict_file", G), ("generate_*_code", G)], observe=["code-generator command line", "compiled output"])

prop("C18", "The shipped RFC modules are what the generator makes of the shipped dictionaries",
 "Running the generator on the shipped dictionaries reproduces the public API and behaviour of the shipped RFC modules: the same functions with the same signatures, the same constants with the same values, and the same results for the same inputs. Regenerating therefore never drops or changes anything users rely on.",
 ["programs", "inputs"], "All 24 shipped dictionaries, all generated items, and generated inputs to them.",
 "Nothing regenerates or compares the modules in the test suite.",
 [G, "radius/src/core", "dicts"], [("generate-code.sh / make gen", "scripts/generate-code.sh"), ("generate_*_code", G)], observe=["generator output versus radius/src/core/rfc*.rs"])

prop("C19", "Both crypto back ends are interchangeable",
 "Built with the md5 feature or with the openssl feature, the library produces byte-identical packets, verdicts, errors and revealed passwords for identical inputs. Values hidden or signed by one back end are revealed or verified by the other.",
 ["configurations", "inputs"], "Every sequence of encode, decode, verify, hide and reveal operations with any inputs, under both feature configurations.",
 "Each test runs against one back end at a time and none compares them.",
 [P, A], [("cfg(feature) twin implementations", A), ("cfg(feature) twin implementations", P)], observe=["Packet::encode", "Packet::is_authentic_*", "AVP::*_password"])

prop("C20", "Request authenticators, identifiers and salts are fresh and unpredictable",
 "Every newly constructed packet has a 16-octet authenticator in which all bits vary independently, that does not repeat across packets, threads or process runs, and a varying identifier unless one was given, which is then used exactly. Tunnel-Password salts vary over all 15 free bits across calls.",
 ["histories"], "Every sequence of packet constructions and password hidings, in any number of threads and processes.",
 "No test looks at more than one generated authenticator or salt.",
 [P, A], [("Packet::_new", P), ("salt in AVP::from_tunnel_password", A)], observe=["Packet::new", "Packet::new_with_identifier", "AVP::from_tunnel_password"])

prop("C21", "The shared secret never leaks through formatting, logs, errors or the wire",
 "The debug representation of a packet does not depend on its secret, and no error message, log record or standard output of the library and no emitted datagram contains the shared secret. This holds for successful and failed operations alike.",
 ["inputs", "histories"], "Every packet, secret, and success or failure path of packet, client and server operations.",
 "No test formats a packet or inspects logs.",
 [P, S, CL], [("Debug for Packet", P), ("log statements", S)], observe=["format!(\"{:?}\", packet)", "log records", "Display of errors", "datagrams"])

prop("C22", "The server hands exactly the authentic, well-formed requests to the handler",
 "For every datagram, the handler is called, once, exactly when the secret provider returns a non-empty secret for the sender, the datagram is authentic under it (or validation is switched off), and it decodes; the request then shows exactly the datagram's code, identifier, authenticator and attributes, the secret, the sender's address and the listening address. Every other datagram is dropped without calling the handler and without any reply.",
 ["inputs", "histories", "configurations"], "Every datagram from every peer, every provider outcome per peer (secret, empty, error), validation on or off, buffer sizes.",
 "One end-to-end test sends two well-formed Access-Requests.",
 [S, P], [("Server::process_request", S), ("Packet::is_authentic_request", P)], observe=["RequestHandler::handle_radius_request calls", "UDP replies"])

prop("C23", "The server never runs two handlers for one outstanding request",
 "While a request from a given address, port and identifier is being handled, further datagrams with the same address, port and identifier are dropped; requests with another identifier or another source port or address are unaffected. As soon as the handler has ended, however it ended, the same address, port and identifier is accepted again.",
 ["histories", "schedules"], "Every interleaving of arrivals and handler completions (success, error, panic) from several peers and identifiers, including simultaneous duplicates on several threads.",
 "No test sends a duplicate.",
 [S], [("undergoing_requests set guarded by a lock", S)], state=[("undergoing_requests", "requests being handled", S)], observe=["RequestHandler::handle_radius_request calls"])

prop("C24", "No datagram or handler outcome stops the server from serving others",
 "After any sequence of malformed, forged or oversized datagrams, provider failures, and handlers that fail, panic or never finish, the server's run loop keeps running and serves every later valid request. A handler that has not finished never delays requests from other peers or with other identifiers.",
 ["histories", "fault_sequences", "schedules"], "Every sequence of hostile datagrams and handler/provider faults, interleaved with valid requests.",
 "The only failing path tested is a slow handler with no second request.",
 [S], [("task per datagram in run_loop", S), ("early returns in process_request", S)], observe=["replies to later requests", "Server::run future"])

prop("C25", "The server starts, stops and reports its address as asked",
 "Once listening returns, datagrams sent to the reported address are served when the run loop starts, and that address is the requested host and the requested port (or the one assigned). Whenever the shutdown trigger fires, with any number of requests outstanding, the run call returns success and no request arriving afterwards is handled; handlers already running still finish.",
 ["histories", "schedules"], "Every point in a request history at which the shutdown trigger can fire, and any host/port.",
 "One clean shutdown with no outstanding work and one with a sleeping handler are exercised.",
 [S], [("Server::listen", S), ("Server::run select", S)], observe=["Server::run result", "Server::get_listen_address"])

prop("C26", "The client returns only the authentic response to the request it sent",
 "Sending a packet transmits exactly its encoding as one datagram to the given address and returns the first datagram from that address that answers this request: same identifier and a response authenticator valid for the sent request and secret, with exactly the sender's code and attributes. Datagrams that are forged, altered, malformed, for another request, signed with another secret, or from another address are discarded and do not end the wait.",
 ["inputs", "histories", "fault_sequences"], "Every request packet and every sequence of genuine, forged, altered, stale and garbage datagrams from the peer and others.",
 "The end-to-end test has one honest server; no forged response is ever sent.",
 [CL, P], [("Client::send_packet / request", CL), ("Packet::is_authentic_response", P)], observe=["Client::send_packet result", "datagrams received by the peer"])

prop("C27", "Client waits end exactly at the configured timeout and failures are reported",
 "With a socket timeout, a send whose authentic response has not arrived within it ends with the socket-timeout error, neither before nor noticeably after; a response in time is returned; without a timeout the wait does not end by itself. A packet that cannot be encoded gives the encoding error and nothing is sent, an authentic response that does not decode gives the decoding error, and an unreachable port an error, never a panic.",
 ["histories", "schedules", "configurations"], "Every timeout value and every response delay (on a controlled clock), and every kind of failing request or peer.",
 "One test uses a zero timeout; no other delay or failure is exercised.",
 [CL], [("tokio timeout in Client::send_packet", CL)], observe=["Client::send_packet result and elapsed time"])

prop("C28", "Client and server exchange arbitrary attributes end to end without crosstalk",
 "For any request a client builds with any mixture of attribute accessors and any response a handler builds, over IPv4 or IPv6, the handler reads the same attribute values the client wrote and the client reads the same values the handler wrote. With any number of concurrent clients, peers and identifiers, every send receives the response to its own request.",
 ["histories", "schedules", "inputs"], "Every combination of attribute values in both directions, any number of concurrent exchanges over both address families.",
 "Two sequential exchanges with fixed attributes on IPv4 are tested.",
 [CL, S, P, A], [("Client::send_packet", CL), ("Server::process_request", S)], observe=["handler view of the request", "client view of the response"])

prop("C29", "Packet codes map one-to-one between octets, names and meanings",
 "Each standard octet (1-5, 11-13, 40-45, 255, 0) corresponds to its RFC packet type and that type's RFC name, and converting to the octet and back is the identity. Every other octet is read as the invalid code, which is never encodable.",
 ["inputs"], "All 256 octets and all codes.",
 "Tests touch Access-Request and Access-Accept only.",
 ["radius/src/core/code.rs"], [("Code::from", "radius/src/core/code.rs"), ("Code::string", "radius/src/core/code.rs")], observe=["Code::from", "Code::string", "Packet::decode", "Packet::encode"])

prop("C30", "Generated modules are decided by the dictionaries' definitions alone",
 "Running the generator over the same dictionaries gives the same modules, whatever the order of its arguments, the working directory, or what the output directory held before; it writes one module for each dictionary and nothing else, and leaves the dictionaries alone. White space, comments (also ones that look like definitions or flags), blank lines, line ends and where the named values stand between the attributes do not change the modules' code. A module does not depend on the dictionaries that come after its own.",
 ["inputs", "histories", "configurations"], "Every dictionary set, every way of writing it down and every state of the output directory; the shipped set among them.",
 "No test runs the generator.",
 [G], [("parse_dict_file", G), ("main", G), ("generate_values_code", G)], observe=["exit code", "the files in the output directory"])

prop("C31", "Finished work leaves nothing behind",
 "However a client's send ends (answered, timed out, given up by its caller at any point, not encodable, nobody there), its socket is closed and no task of it stays. On a server, a request that is over (answered, ignored, failed, panicked, repeated, refused for any reason) leaves no task and no memory: what is kept does not grow with the number of requests or peers of the past. Once a server is dropped and its handlers have ended, the handler and the secret provider are released and the address can be bound again, whether its run was stopped or dropped, however often it ran before.",
 ["histories", "schedules"], "Every history of sends and requests of any length, with every way each of them can end.",
 "Tests exchange two packets in one process that then ends.",
 [CL, S], [("Client::send_packet", CL), ("Server::process_request", S), ("Server::run", S)], observe=["open sockets", "alive tasks", "bytes in use", "release of handler and provider", "binding the address again"])

prop("C32", "Operations, threads and servers do not influence each other",
 "The result of encoding, decoding, verifying, hiding, revealing and reading depends on the arguments alone: not on the operations before it, however alike their arguments, nor on other threads that work at the same time. Servers in one process do not influence each other: outstanding requests, secrets, flags, buffer sizes and the end of one do not change what another does, even for the same peer and identifier.",
 ["inputs", "histories", "schedules", "configurations"], "Every order and interleaving of operations, and every history of several servers.",
 "Tests call each operation alone and run one server at a time.",
 [P, A, S], [("Packet::encode / is_authentic_request / is_authentic_response", P), ("AVP::from_user_password / encode_user_password", A), ("Server::process_request", S)], observe=["results of the operations", "handler calls of each server"])

prop("C33", "Refusals name a cause that the input has",
 "Whenever decoding, encoding, hiding, reading, adding or sending is refused, the error's kind is a cause that holds for the input at hand (the length, the tag, the salt, the text, the secret, the authenticator, the attributes, the code, the peer), the lengths and octets it carries are those of the input, and its message shows them along with the bounds that are violated; where several things are wrong, any of them may be named. The client's errors name the peer's address, or hold what encoding or decoding says.",
 ["inputs"], "Every input that is refused, through the typed readers and constructors, every accessor, packet decoding and encoding, and the client.",
 "A handful of inputs with one thing wrong each are compared with one error; inputs are wrong in unboundedly many ways.",
 [A, P, CL], [("AVPError", A), ("PacketError", P), ("ClientError", CL), ("encode_* / from_*", A), ("Packet::decode / encode", P)], observe=["the returned error and its message"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # property -> (technique, level note)
 "C01": ("property-based testing: structured datagram generator with mutations against an independent RFC 2865 parser",
         "Search, not proof. Trusts the reference parser; byte strings up to a little over 4096 octets."),
 "C02": ("property-based testing: generated packets up to far above the limits, reference encoding and decode-back oracle",
         "Search, not proof; sizes up to about 70,000 octets of attributes."),
 "C03": ("property-based testing: generated packets of all 16 codes against an independent MD5 and authenticator formula",
         "Search, not proof; both crypto back ends."),
 "C04": ("property-based testing: signed datagrams, mutated, padded and re-signed, against the RFC predicate in both directions",
         "Search, not proof; both crypto back ends. MD5 collisions are not searched for."),
 "C05": ("property-based testing: full request/response chains with metamorphic negative cases",
         "Search, not proof; both crypto back ends."),
 "C12": ("model-based stateful testing: operation histories against a vector model, compared after every step",
         "Search, not proof; histories of up to 150 operations, attribute lists of up to about 2,000."),
 "C06": ("property-based testing: generated passwords, secrets and hidden values against an independent RFC 2865 cipher",
         "Search, not proof; both crypto back ends. Hidden values of 17..127 octets that are no multiple of 16 are only checked not to panic."),
 "C07": ("property-based testing: generated passwords, tags, secrets and hidden values against an independent RFC 2868 cipher",
         "Search, not proof; both crypto back ends."),
 "C08": ("property-based testing: typed values and arbitrary contents against independent wire encodings",
         "Search, not proof; dates outside 1970..2106 are not claimed."),
 "C09": ("property-based testing: all tags, generated texts and contents against an independent reader",
         "All 256 tags in every run, texts and integers by search."),
 "C10": ("property-based testing: generated prefixes and contents against an independent encoding",
         "Search, not proof; IPv6 prefix contents above 18 octets are only checked not to panic."),
 "C11": ("property-based testing: generated vendor ids, types, tags and texts against an independent layout",
         "Search, not proof; texts that fit one attribute."),
 "C13": ("model-based testing: every accessor, generated values and histories, against a model made from a frozen copy of the dictionaries",
         "All accessors in every sweep case; values and histories by search."),
 "C14": ("exhaustive comparison of all constants with a frozen copy of the dictionaries, generated exchanges through the wire",
         "All constants of all modules. Trusts the frozen copy, which was compared with the RFCs by hand."),
 "C15": ("property-based testing: generated values and adds against the octets added; all lengths to 1300",
         "Search, not proof; values of up to 6000 octets."),
 "C16": ("structured fuzzing: decodable datagrams with hostile contents crossed with every reader, value-or-error oracle",
         "All readers in every case; contents by search, all content sizes 0..253 in every run."),
 "C17": ("grammar-based generation of dictionary sets; the generator's output is compiled and driven against the attribute model",
         "Search, not proof. Names come from a vocabulary without collisions; only documented flag combinations."),
 "C18": ("differential testing: regenerated against shipped modules, public items and behaviour on generated inputs",
         "All public items; behaviour by search."),
 "C19": ("differential testing: generated operations run in both builds, full results compared, values exchanged between them",
         "Search, not proof. Compares the two builds with each other and, for revealed passwords, with an independent cipher."),
 "C20": ("statistical property-based testing: bit, pair and repetition statistics over generated packets, threads and processes",
         "Statistical, and by repetition: detects stuck, biased, correlated or repeating values, and values that come from the clock, the process or the memory layout; not a fixed well distributed sequence that is keyed by something else."),
 "C21": ("metamorphic testing and leak search: generated packet, server and client histories in a child process whose every output is searched for the secret",
         "Search, not proof. Finds eight octets in a row in raw, hexadecimal, decimal, base64, escaped or reversed form."),
 "C22": ("model-based testing of the real server over loopback UDP: generated datagrams, peers and provider outcomes against an independent admission rule",
         "Search, not proof; histories of up to 80 datagrams, both crypto back ends."),
 "C23": ("model-based stateful testing: generated arrival and completion histories with gated handlers against a set model; thread races on a barrier",
         "Search, not proof; histories sequenced by the check, races by repetition on several threads."),
 "C24": ("fault injection: generated histories of hostile datagrams, provider and handler faults, with a probe request after every step",
         "Search, not proof; histories of up to 14 steps in detail and 6,000 events in bulk, up to 2048 unfinished handlers at once."),
 "C25": ("stateful testing: generated request histories with the shutdown trigger at generated points",
         "Search, not proof; loopback addresses only."),
 "C26": ("property-based testing of the real client against a scripted peer: generated datagram sequences against an independent authenticity rule",
         "Search, not proof; loopback only, sequences of up to 7 datagrams, up to 300 discards of a kind."),
 "C27": ("property-based testing on a controlled clock: generated timeouts and arrival times; generated faults",
         "Search, not proof; resolution of two milliseconds, given by the timer of the runtime."),
 "C28": ("model-based end-to-end testing: generated concurrent exchanges with all accessors in both directions",
         "Search, not proof; schedules are those the threads happen to take. Tunnel-Password in responses is a known finding."),
 "C29": ("exhaustive octets plus generated packets against the RFC code table",
         "All 256 octets in every case."),
 "C30": ("metamorphic testing of the generator: generated dictionary sets, run again and written down differently",
         "Search, not proof. Modules are compared without comment lines where the dictionaries' text differs."),
 "C31": ("stateful testing with fault injection: generated histories of sends, requests and server lives, with the process's sockets, tasks and memory compared before and after",
         "Search, not proof; 3,000 requests a history (12,000 in the thorough tier), memory growth below 16 KB is not seen."),
 "C33": ("property-based testing: generated inputs with one or several defects against an independent statement of what is wrong with each",
         "Search, not proof. The wording of messages is not judged, only the kind, the numbers and the address."),
 "C32": ("metamorphic and model-based testing: operations over arguments that resemble each other, reordered and on several threads; interleaved histories of several servers against a model of each alone",
         "Search, not proof; up to 20 operations and three servers a case."),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --build",
     "checks": [{"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
                 "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration", "level_note": T[p][1]}
                for p in props if p in T],
     "not_applicable": [{"property": p, "reason": NA.get(p, "the check is not built yet")} for p in props if p not in T],
     "notes": "No hooks in /repo: every check goes through public interfaces. run.py builds /repo for both crypto back ends on every run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

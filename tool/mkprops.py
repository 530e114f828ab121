"""writes /verif/properties.jsonl (kept as a script so that the text is readable)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = [observe]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


A = "crates/sip-auth/src/lib.rs"
R = "crates/sip-registrar/src/lib.rs"
D = "crates/sip-dialog/src/lib.rs"
N = "crates/sip-dns/src/lib.rs"
PA = "crates/sip-parse/src/lib.rs"

prop("P01", "A digest-authenticated request proves knowledge of the user's password",
     "A request is accepted as authenticated only when its credentials name a known user, this server's realm, a challenge the server issued and has not let expire, the request's own method and target, an algorithm and protection level the server offers, and a response value computed from exactly those inputs and the stored password. Anything else, including missing, malformed, duplicated or contradictory fields, is refused without a crash. A correct answer from a client that knows the password is accepted.",
     ["inputs", "configurations", "histories"], "every request, credential header, user database and configuration of algorithm/qop/realm",
     "tests try a few good and bad headers; soundness needs every combination of fields, algorithms and malformed parameters",
     [A], [("digest verification", A + " DigestAuthenticator::verify"), ("response computation", A + " DigestAuthenticator::compute_response")],
     "DigestAuthenticator::verify result")
prop("P02", "No digest response is accepted twice",
     "A challenge is single-use per counter value: once a request has been accepted with a given challenge and counter, no request that differs in method, target or body is accepted with an equal or lower counter, an expired or never-issued challenge is never accepted, and the number of live challenges never exceeds the configured limit (at least one is kept). Failed guesses never use up, extend or invalidate a challenge for the legitimate client.",
     ["histories", "inputs"], "every sequence of challenges, verifications, clock steps and configuration limits",
     "replay windows depend on the order and timing of many requests; tests replay one or two",
     [A], [("challenge bookkeeping", A + " NonceManager"), ("use of it during verification", A + " DigestAuthenticator::verify")])
prop("P03", "Digest client and server agree on every computation",
     "For every user, password, realm, method, target and body (names and realms that can be written in a quoted field within the limits), a response produced by the client side of the library for a challenge of the server side is accepted by the server, and the server's confirmation is accepted by the client exactly when it was computed with the same password over the realm, target, challenge and body the client names and the counters the confirmation carries. The computation follows the published digest formulas for every supported algorithm and protection level.",
     ["inputs", "configurations"], "all credentials, challenges, algorithms, protection levels and bodies",
     "agreement must hold for every string, including ones with commas, colons or non-ASCII characters, not the sample user of the tests",
     [A], [("client response", A + " DigestClient"), ("server response", A + " DigestAuthenticator"), ("formulas", A + " compute_response")])
prop("P04", "Registrations change only for the authenticated owner",
     "When authentication is required, a registration request changes stored contacts only if its credentials verified and the authenticated identity is entitled to the address-of-record it names: the user part (or telephone number) of that address equals the authenticated user name, up to letter case. A refused request (a sequence number naming another method, missing fields, failed authentication, foreign address) leaves the stored contacts of every user exactly as they were.",
     ["inputs", "histories", "configurations"], "every request, registrar configuration and stored state",
     "the refusal paths multiply with every header combination; tests sample a handful",
     [R], [("request handling", R + " BasicRegistrar"), ("identity check", R + " AOR match")])
prop("P05", "The location store reflects exactly the accepted registrations",
     "After any sequence of registrations, refreshes, removals, wildcard removals and clock steps, a lookup returns exactly the contacts whose latest accepted registration has not expired, each with the expiry that was granted within the configured limits. An older or replayed registration (same Call-ID, sequence number not higher than the stored one) never overrides a newer one, limits on contacts per user and in total are respected, and no operation touches another user's contacts.",
     ["histories", "inputs", "configurations"], "every sequence of operations, contact values, expiry values and clock steps",
     "the store's content is a function of the whole history; tests check short scripted ones",
     [R], [("location store", R + " MemoryLocationStore"), ("expiry and contact handling", R + " BasicRegistrar")])
prop("P06", "Sequence numbers inside a dialog only move forward",
     "Within a dialog every sequence number taken for a new request is one higher than the one before, until the 32-bit number space is used up, where it stays at the top instead of wrapping; and an incoming request is accepted only if its number is higher than any accepted before (an ACK only if it repeats the number of the request it acknowledges). No incoming number, however large, wraps or crashes the dialog or the subscription it belongs to.",
     ["histories", "inputs"], "every sequence of local and remote requests with arbitrary sequence numbers",
     "ordering is a property of whole exchanges; boundary values appear only in hostile traffic",
     [D], [("incoming and outgoing sequence numbers", D + " Dialog")])
prop("P07", "A dialog keeps its identity, peer and route for life",
     "A dialog is created only from a provisional or successful response to its request, with a Call-ID and both tags, with caller and callee deriving mirrored identities; its identifiers never change afterwards. Its route is fixed when it is created, in the right order for each side; only target-refresh requests and successful or provisional responses that carry a contact change where requests are sent; and its state moves only from early to confirmed to terminated.",
     ["histories", "inputs"], "every request/response pair, tag, contact and record-route list and every later exchange",
     "both sides' views must agree for every header content; tests compare fixed messages",
     [D], [("dialog construction and update", D + " Dialog")])
prop("P08", "Dialog and subscription stores find what was stored and stay bounded",
     "Looking up a stored dialog or subscription by its identity, or by a request in either direction, returns that very entry and never another; removing or terminating it makes it unfindable; nothing else is affected. The stores never hold more than their limit, and a full store still lets existing entries be updated.",
     ["histories", "inputs"], "every sequence of insert, update, lookup, cleanup and remove over colliding identifiers",
     "collisions and capacity boundaries need histories tests do not build",
     [D, "crates/sip-dialog/src/storage.rs"], [("managers", D + " DialogManager, SubscriptionManager"), ("storage backend", "crates/sip-dialog/src/storage.rs InMemoryDialogStore")])
prop("P09", "Reliable provisional responses are acknowledged exactly once",
     "An acknowledgement of a reliable provisional response is accepted only if it names a response that was sent on that dialog, with its number, request number and method, and only once; the response numbers handed out on a dialog strictly increase while the 32-bit space lasts and never wrap. Bookkeeping for one dialog never affects another.",
     ["histories", "inputs"], "every interleaving of sends, acknowledgements, cleanups over many dialogs with arbitrary numbers",
     "duplicates, stale and cross-dialog acknowledgements arise in long interleavings",
     ["crates/sip-dialog/src/prack_validator.rs", "crates/sip-core/src/rseq.rs"],
     [("acknowledgement validation", "crates/sip-dialog/src/prack_validator.rs"), ("number generation", "crates/sip-core/src/rseq.rs")])
prop("P10", "Session timer negotiation yields a legal interval and one refresher",
     "For every request and response header combination, the negotiated session interval is never below the effective minimum nor above what the peer asked for, a request below the minimum is rejected with that minimum, exactly one side is made refresher, and refresh and expiry times computed from the interval come in that order and before it ends. Parsing accepts exactly the legal header forms and printing a parsed header gives an equivalent one.",
     ["inputs", "configurations"], "every interval, minimum, refresher parameter and side",
     "boundary arithmetic over the whole integer range is beyond sampled cases",
     ["crates/sip-core/src/session_timer.rs", D, "crates/sip-dialog/src/session_timer_manager.rs"],
     [("header forms", "crates/sip-core/src/session_timer.rs"), ("validation and refresher choice", D), ("timers", "crates/sip-dialog/src/session_timer_manager.rs")])
prop("P11", "The rate limiter never exceeds burst plus configured rate",
     "For every key, over any stretch of time, the limiter lets through no more requests than its burst capacity plus what the configured rate refills in that stretch (plus the one interval already running), yet a key left alone for one refill interval is always let through again. One key's traffic never changes another's answers, malformed or oversized keys are always refused, the number of tracked keys stays within its cap, and idle cleanup (with an idle timeout no shorter than a full refill) never hands out extra requests.",
     ["histories", "configurations", "inputs"], "every sequence of requests, clock steps, keys and valid configuration",
     "the bound is over all time windows and all request patterns; tests run a few fixed bursts",
     ["crates/sip-ratelimit/src/lib.rs"], [("token bucket", "crates/sip-ratelimit/src/lib.rs TokenBucket"), ("per-key table", "crates/sip-ratelimit/src/lib.rs RateLimiter")])
prop("P12", "A secure URI is only ever sent over a secure transport",
     "Every target produced for a sips URI uses a transport protected by TLS, whatever DNS answers, URI parameters, explicit ports, numeric hosts or missing records are involved; when no secure target exists the answer is an error or empty, never a plaintext target. For a plain sip URI an explicit transport parameter is honoured in every target, and so is an explicit port whenever it is the URI's own host that is located (servers learned by DHCP replace host and port).",
     ["inputs", "configurations"], "every URI and every set of DNS answers",
     "the number of DNS answer combinations is unbounded; tests mock a few",
     [N], [("server location", N + " resolver")])
prop("P13", "Server selection follows DNS priorities and loses no server",
     "The list of targets for a host is ordered by service preference and record priority, contains every usable server exactly once up to the documented limit, and within equal priority any ordering is a weighted permutation of those servers with zero-weight servers still reachable. Arithmetic on weights and preferences never overflows.",
     ["inputs"], "every set of NAPTR/SRV records with arbitrary order, preference, priority and weight, and every random choice",
     "random selection and unbounded record sets cannot be enumerated by tests",
     [N, "crates/sip-dns/src/enum_lookup.rs"], [("ordering", N + " SRV/NAPTR sorting and weighted selection")])
prop("P14", "DHCP server options are decoded exactly or refused",
     "Decoding a DHCP option that lists SIP servers returns exactly the names or addresses encoded in it, in order, and refuses truncated, oversized, looping or malformed encodings, without a crash for any byte string. Encoding then decoding a legal list of names or addresses gives the list back.",
     ["inputs"], "every byte string",
     "byte-level decoders need all inputs; tests feed a few well-formed ones",
     [N], [("option decoding", N + " DHCP")])
prop("P15", "Message framing: the body is exactly what the length says",
     "A request or response is accepted only if it is within the size limit, its head is UTF-8, its start line has a method token or a status code 100-699 and version SIP/2.0, every line up to the blank line is a header with an acceptable name and value (no folding, at most 200), and Call-ID, CSeq, From, To and Max-Forwards occur at most once. The headers read are those lines, in order, with compact names written out. The body is exactly the octets after the blank line that the length header declares: the strict parsers refuse any length that is not plain digits, differs from another, or differs from the number of octets there, and a body without a length; the tolerant parsers refuse overlong, differing or too large lengths and take the first octets declared, ignoring only a length that is not a number (documented) and a missing one. No byte string makes a parser crash.",
     ["inputs"], "every byte string",
     "smuggling bugs live in byte strings nobody wrote a test for",
     [PA], [("message parser", PA), ("length handling", PA + " parse_content_length_detailed, strict_content_length, extract_body, extract_body_strict"), ("head and lines", PA + " split_head_body, parse_headers, parse_request_line, parse_status_line"), ("value readers", "crates/sip-parse/src/header_values.rs")])
prop("P16", "No accepted header value can smuggle another header",
     "Every header that can get into a message through the public interfaces has a protocol token as its name and a value free of line breaks and NUL, and stays within the documented size and count limits; a refused addition or change leaves the headers unchanged, and setting a header that is already present never adds a second one. Reason phrases carry no control characters, status codes are 100-699 and bodies stay within the documented limit. Reading a header back is case-insensitive, returns values in insertion order, and removal or replacement affects that header alone.",
     ["inputs", "histories"], "every sequence of header operations with arbitrary strings",
     "injection needs only one unguarded path or character; tests check a few",
     ["crates/sip-core/src/headers.rs", "crates/sip-core/src/msg.rs"], [("header collection", "crates/sip-core/src/headers.rs Headers"), ("messages", "crates/sip-core/src/msg.rs")])
prop("P17", "Messages survive serialization and parsing unchanged",
     "Serializing any well-formed request or response (full header names, values without surrounding blanks, headers the parsers themselves accept, within their limits) and parsing the result gives back the same start line, the same headers in the same order and the same body, apart from the documented normalisations: one length header that matches the body, at the end; a hop limit of 70 in a request that has none; and the usual spelling of Via, Contact, Route and Record-Route in requests. Serializing what was read back gives the same bytes again.",
     ["inputs"], "every well-formed message",
     "round trips must hold for all header contents and bodies including binary ones",
     [PA, "crates/sip-core/src/msg.rs"], [("serializer", PA + " serialize_request/serialize_response"), ("parser", PA)])
prop("P18", "URIs parse to what they say and print back to the same URI",
     "Parsing an accepted sip, sips or tel URI yields exactly the user, host, port, parameters and headers written in it (the user percent-decoded, host and names in lower case; of a repeated name the last stands), and texts the grammar does not allow are refused: bad ports, brackets that do not hold an IPv6 address, anything but a port after them, control characters, empty hosts, malformed numbers or parameters, and texts over the length limit. Printing an accepted URI and parsing the text gives an equal URI. A URI built from parts or changed through its builders, if the parts are accepted, parses (within the length limit) to those same parts.",
     ["inputs"], "every string, and every combination of parts",
     "URI confusion attacks use inputs tests do not contain",
     ["crates/sip-core/src/uri.rs", "crates/sip-core/src/tel_uri.rs"], [("URI parsing and building", "crates/sip-core/src/uri.rs"), ("tel URIs", "crates/sip-core/src/tel_uri.rs")])
prop("P19", "An SDP answer is a valid answer to its offer",
     "Every generated answer has one media section per offered section in the same order with the same media type and protocol, accepts only formats the offer listed, answers a rejected or unsupported section with port zero, and uses a direction compatible with the offered one (never sending when the offerer cannot receive). Generating an answer never crashes for any parsed offer.",
     ["inputs", "configurations"], "every parsed offer and local capability set",
     "the product of directions, formats and media sections is large; tests sample common ones",
     ["crates/sip-sdp/src/negotiate.rs", "crates/sip-core/src/sdp_offer_answer.rs"],
     [("negotiation", "crates/sip-sdp/src/negotiate.rs"), ("offer/answer engine", "crates/sip-core/src/sdp_offer_answer.rs")])
prop("P20", "Session descriptions survive printing and parsing unchanged",
     "A session description read from text, or built from valid values (tokens without blanks where SDP has a token, text without line breaks or blanks at its ends), prints to a text that reads back as an equal description; this holds for each line on its own and for the whole. No field of an accepted description holds a line break, and malformed lines (wrong number of fields, numbers or ports out of range, unknown protocols, over-long fields) are refused. No text crashes the reader.",
     ["inputs"], "every session description and every text",
     "round trips over unbounded structured text",
     ["crates/sip-sdp/src/parse.rs", "crates/sip-sdp/src/serialize.rs", "crates/sip-sdp/src/lib.rs", "crates/sip-core/src/sdp.rs"],
     [("parser", "crates/sip-sdp/src/parse.rs"), ("serializer", "crates/sip-sdp/src/serialize.rs"), ("core SDP", "crates/sip-core/src/sdp.rs")])
prop("P21", "A caller identity token is accepted only if genuinely signed",
     "A caller-identity token is decoded only from exactly three unpadded base64url segments whose first two hold the required fields, and its header, claims and signature are the ones written there. A signature check succeeds exactly when the named algorithm is ES256, the key is an uncompressed P-256 point, and the signature is valid under that key over the token's text up to its last dot, octet for octet; a check against certificates succeeds exactly when moreover the presented certificate leads, at the given time, to one of the given roots, and the key is that certificate's. So a token with any header field or claim changed is accepted only with a new signature by the key. An Identity header gives the token before its first ';' and the parameters written after it. What the library signs it reads back as signed and accepts under the signer's key. No input crashes decoding, checking or signing.",
     ["inputs"], "every token, key, certificate chain, header text and claim set",
     "forgeries are inputs that no test suite lists",
     ["crates/sip-identity/src/passport.rs", "crates/sip-identity/src/verify.rs", "crates/sip-identity/src/chain.rs", "crates/sip-identity/src/header.rs", "crates/sip-identity/src/sign.rs"], [("decoder", "crates/sip-identity/src/passport.rs Passport::decode"), ("signature check", "crates/sip-identity/src/verify.rs"), ("certificate check", "crates/sip-identity/src/chain.rs"), ("header", "crates/sip-identity/src/header.rs"), ("signer", "crates/sip-identity/src/sign.rs")])
prop("P22", "Hop limits count down to refusal and branches are unique per transaction",
     "The hop limit of a forwarded request is exactly one lower than received, a request with none left is refused and never forwarded, and a missing limit is treated as the documented default; values outside the legal range are refused when parsed. Via entries are added on top and removed from the top without changing the others, and generated branch identifiers carry the protocol's magic prefix.",
     ["inputs"], "every request and hop limit value",
     "off-by-one at the boundaries and malformed numbers",
     ["crates/sip-core/src/max_forwards.rs", "crates/sip-core/src/via.rs", "crates/sip-core/src/msg.rs"], [("hop limit", "crates/sip-core/src/max_forwards.rs"), ("via", "crates/sip-core/src/via.rs")])
prop("P23", "Transactions follow the protocol state machines",
     "For every sequence of events a client or server transaction moves only along the transitions the protocol defines, never leaves its terminated state, takes only the first final response as its own (a retransmitted failure response is acknowledged again but not delivered again; copies of a success response, which the INVITE core must acknowledge, do reach the user), retransmits only in the states that call for it, and cancels or ignores timers of states it has left.",
     ["histories", "inputs"], "every event sequence from every state",
     "event sequences are unbounded; tests drive scripted ones",
     ["crates/sip-transaction/src/fsm.rs"], [("state machines", "crates/sip-transaction/src/fsm.rs")])
prop("P24", "Retransmission timers double up to their cap and end on time",
     "Retransmission intervals start at the base value, double each time and (for a base value no larger than the cap) never exceed the cap; overall timeouts are the documented multiple of the base value; and on reliable transports nothing is retransmitted and waiting states end at once. Timer arithmetic never overflows for any configurable base.",
     ["configurations", "histories"], "every timer configuration, transport and retransmission count",
     "closed-form arithmetic over all counts and configurations",
     ["crates/sip-transaction/src/timers.rs"], [("timer values", "crates/sip-transaction/src/timers.rs")])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))

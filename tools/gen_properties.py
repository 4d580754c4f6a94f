#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Serialized vouchers are valid JSON that reads back unchanged",
 "Serializing a voucher yields one valid JSON document whose single root member \"ietf-voucher:voucher\" holds exactly the attributes that are set, each under its RFC 8366 name and encoding (dates as YYYY-MM-DDThh:mm:ssZ, assertion names, base64, JSON booleans, JSON strings). "
 "No attribute value, whatever characters it contains, can change the document's structure or another attribute. Parsing the document back yields a voucher with exactly the same attributes.",
 ["inputs"], "every combination of set attributes and every value of each (serial numbers of any characters up to the limit, binary values of any non-zero length and content, every valid date, every assertion)",
 "test_voucher serializes two fixed vouchers with printable ASCII values and compares strings; it never reads its own output back and never uses values that need escaping.",
 ["src/voucher/voucher.c", "src/voucher/serialize.c", "src/voucher/keyvalue.c"],
 [("serialize_voucher / deserialize_voucher", "src/voucher/voucher.c"), ("serialize_escapestr, serialize_keyvalue2json", "src/voucher/serialize.c")],
 observe=["return value of serialize_voucher", "attributes read through the getters after deserialize_voucher"])

prop("C02", "Voucher parsing accepts exactly well-formed voucher documents",
 "Parsing succeeds for every well-formed voucher JSON document (any attribute order, whitespace or subset of known attributes) and yields precisely the values written. "
 "It returns no voucher at all for input that is not a JSON object with the exact voucher root member, or that contains an unknown attribute, an unknown assertion, a malformed date, boolean or base64 value, an attribute that is not a plain scalar, an over-long serial number, or is cut short.",
 ["inputs"], "every byte string handed to the parser as a voucher document, of any length and without a terminating NUL",
 "test_voucher parses a handful of hand-written strings; the parser must reject an unbounded set of near misses (prefix names, nested values, truncations).",
 ["src/voucher/voucher.c", "src/voucher/serialize.c"],
 [("deserialize_voucher token walk and per-attribute setters", "src/voucher/voucher.c"), ("jsmn tokenizer", "system header jsmn.h")],
 observe=["return value of deserialize_voucher and the attributes of the voucher returned"])

prop("C03", "Base64, date and boolean conversions are exact",
 "Base64 encoding gives the RFC 4648 text of exactly the bytes given and decoding it gives exactly those bytes back, whatever line breaks or other characters outside the alphabet are interleaved, while undecodable text is reported as an error with no buffer left to the caller. "
 "Date and boolean conversions are inverse to each other over their whole range, and reject any other text.",
 ["inputs"], "every byte string up to several kilobytes, every calendar second from 1900 to 9999, every short text",
 "test_serialize checks a few constants; lengths modulo 3, padding errors and range ends are not covered.",
 ["src/voucher/serialize.c"],
 [("base64 encoder/decoder", "src/voucher/serialize.c"), ("serialize_time2str, serialize_str2time, serialize_bool2str, serialize_str2bool", "src/voucher/serialize.c")],
 observe=["returned buffers, lengths and status"])

prop("C04", "A voucher behaves as a record of independent attributes",
 "After any sequence of set, clear and get operations each attribute of a voucher holds the value last set successfully and not cleared since, as a private copy of the caller's data, and all other attributes are untouched. "
 "An operation with a wrong attribute kind or an invalid value reports an error and changes nothing. Overwriting, clearing or freeing loses no memory.",
 ["histories", "inputs"], "every sequence of set/clear/get operations over all eleven attributes with valid and invalid values, including overwriting an attribute many times",
 "test_voucher sets each attribute once on a fresh voucher; histories with overwrites, invalid operations after valid ones and aliasing are not run.",
 ["src/voucher/voucher.c", "src/voucher/voucher.h"],
 [("set_attr_*_voucher, clear_attr_voucher, get_attr_*_voucher, is_attr_voucher_nonempty", "src/voucher/voucher.c")],
 state=[("struct Voucher", "attribute values", "src/voucher/voucher_defs.h")],
 observe=["getters, nonempty predicate and serialized form after every step"])

prop("C05", "Byte arrays and lists keep exact private copies in order",
 "A byte-array list or key/value list always contains exactly the elements pushed successfully, in push order, byte for byte with their lengths and flags, independent of later changes to the caller's buffers. "
 "Copying and comparing byte arrays agree with byte-wise equality, failed operations leave their targets unchanged, and freeing a list or array in any state releases everything once.",
 ["histories", "inputs"], "every sequence of push/copy/compare/free operations with arrays of any length and content, and NULL or empty arguments",
 "test_array and test_keyvalue push three constant elements.",
 ["src/voucher/array.c", "src/voucher/keyvalue.c", "src/utils/os.c"],
 [("push_array_list, copy_binary_array, compare_binary_array, push_keyvalue_list", "src/voucher/array.c, src/voucher/keyvalue.c")],
 observe=["list traversal and return values"])

prop("C06", "Signed vouchers verify only when authentic and unmodified",
 "Signing any voucher or data with a matching certificate and key (EC or RSA, with any extra certificates) gives a CMS message that verifies to exactly the signed content and reports exactly the signer's certificate carried in it. "
 "Verification never succeeds for a message whose content, signature or signer was altered, whose signer key does not match, or whose signer does not chain to the given trust store when one is given.",
 ["inputs", "configurations"], "every payload, key type, extra certificate list and trust store; every single-byte change and truncation of the message; every mixing of parts of two messages",
 "test_crypto signs one constant payload and verifies it; no modified message, foreign signer or wrong store is tried.",
 ["src/voucher/crypto_ossl.c", "src/voucher/voucher.c"],
 [("crypto_sign_*cms, crypto_verify_cms, sign_*cms_voucher, verify_cms_voucher", "src/voucher/crypto_ossl.c, src/voucher/voucher.c")],
 observe=["return value, content and signer list of verification, judged against an independent CMS check"])

prop("C07", "Issued certificates carry exactly the requested identity and key",
 "A generated certificate carries exactly the requested serial number, subject and issuer names, validity and basic constraints and the public half of the given key, and is signed by that key. "
 "Re-signing a certificate under a CA changes only its issuer and signature, and the result verifies under that CA; reading certificate data back (serial number, names, issuer text) or writing it to and loading it from PEM files returns the same data.",
 ["inputs"], "every name attribute set and value, serial number, validity, constraint, key type and CA",
 "test_crypto only asserts that the calls return something.",
 ["src/voucher/crypto_ossl.c"],
 [("crypto_generate_eccert/rsacert, crypto_sign_cert, crypto_getcert_meta, crypto_getcert_issuer, file helpers", "src/voucher/crypto_ossl.c")],
 observe=["certificates parsed independently with the OpenSSL API"])

prop("C08", "Certificate verification requires a genuinely signed chain",
 "Verifying a certificate against a set of certificates and an optional trust store succeeds only if every link of the chain it is accepted by is a real signature by the key of the certificate above it, ending at one of the supplied certificates. "
 "A certificate that merely names a supplied certificate as its issuer, or has nothing to do with any of them, is rejected; genuinely chained certificates are accepted.",
 ["inputs", "configurations"], "every certificate, supplied list and store, including look-alike issuers, re-used names with other keys, altered certificates, chains of different depth and orders of the lists",
 "test_crypto_verify_cert tries one good and one swapped configuration; none with a forged signature.",
 ["src/voucher/crypto_ossl.c", "src/voucher/request.c"],
 [("crypto_verify_cert chain building", "src/voucher/crypto_ossl.c")],
 observe=["return value against ground truth known from how each certificate was built"])

prop("C09", "A pledge voucher-request states exactly the pledge's claim",
 "A pledge voucher-request, whether built from values or from a configuration, is signed by the pledge's key and contains exactly the creation time, serial number, nonce (when one is given), \"proximity\" assertion and the registrar certificate it was given, and no other claim. "
 "When a mandatory part is missing or malformed no request is produced.",
 ["inputs", "configurations"], "every serial number, nonce, time, registrar certificate, key pair and extra certificate list, and every absent or malformed one",
 "test_request builds one request with constants and checks that it is not NULL.",
 ["src/voucher/request.c", "src/brski/pledge/pledge_utils.c"],
 [("sign_pledge_voucher_request", "src/voucher/request.c"), ("voucher_pledge_request_to_array/base64/smimefile", "src/brski/pledge/pledge_utils.c")],
 observe=["decoded CMS content of the request"])

prop("C10", "The registrar forwards only matching, authentic pledge requests",
 "The registrar issues a voucher-request only if the pledge request verifies, names the serial number of the authenticated pledge certificate, pins the registrar's own TLS certificate and asserts proximity. "
 "What it signs contains exactly that serial number, the IDevID issuer, the pledge's nonce if there was one, its own creation time and the pledge request byte for byte; otherwise it issues nothing.",
 ["inputs", "configurations"], "every pledge request (including ones with missing, extra or mismatching attributes, bad signatures or untrusted signers) and every identity and trust configuration",
 "test_request tries the good case and one or two mismatches with constants.",
 ["src/voucher/request.c", "src/brski/registrar/registrar_api.cpp"],
 [("sign_voucher_request", "src/voucher/request.c")],
 observe=["result of the call and decoded content of the issued request"])

prop("C11", "The MASA issues vouchers only for consistent, authentic requests",
 "The MASA issues a voucher only if the registrar's request and the pledge request inside it both verify against the configured trust anchors and name the same serial number, and its policy callback (called exactly once, with that serial number and the registrar's signer certificates) allows it. "
 "The voucher contains exactly that serial number, the request's nonce if any, the configured expiry, assertion proximity, revocation checks off and the pinned certificate the callback supplied.",
 ["inputs", "configurations"], "every registrar request / pledge request pair, including mismatching, nested-invalid and untrusted ones, and every callback outcome",
 "test_request covers the good case and a serial mismatch.",
 ["src/voucher/request.c", "src/brski/masa/masa_api.cpp"],
 [("sign_masa_pledge_voucher", "src/voucher/request.c"), ("voucher_req_cb", "src/brski/masa/masa_api.cpp")],
 observe=["callback log, result of the call and decoded content of the voucher"])

prop("C12", "A pledge trusts a voucher only if it is meant for it and pins its registrar",
 "A pledge accepts a voucher only if it verifies against the pledge's trust anchors, names the pledge's serial number, echoes the pledge's nonce when it sent one, and pins a certificate that really vouches for the registrar certificate the pledge is talking to. "
 "On acceptance it hands out exactly the pinned certificate and the voucher's signers; on any failure it hands out no pinned certificate.",
 ["inputs", "configurations"], "every voucher (missing, mismatching or extra attributes, bad or foreign signatures, unrelated or look-alike pinned certificates) and every pledge state",
 "test_verify_masa_pledge_voucher covers one good case and two or three mismatches; the connection between pinned certificate and registrar is never challenged.",
 ["src/voucher/request.c", "src/brski/pledge/pledge_request.cpp"],
 [("verify_masa_pledge_voucher", "src/voucher/request.c"), ("verify_masa_pledge_request", "src/brski/pledge/pledge_request.cpp")],
 observe=["result and output parameters"])

prop("C13", "Each server reply depends only on its own request",
 "Whatever requests the registrar and MASA have served before or are serving at the same time, the reply to a request is the one the same request would get from a freshly started server with the same configuration. "
 "Serving requests in any order or concurrently never crashes the server, never mixes data between requests and never races on shared memory.",
 ["schedules", "histories"], "every sequence and every concurrent interleaving of valid and invalid requests to the same server",
 "the end-to-end test sends one request sequence from one client; histories after failures and concurrency are never exercised.",
 ["src/brski/masa/masa_api.cpp", "src/brski/registrar/registrar_api.cpp", "src/brski/masa/masa_server.cpp", "src/brski/registrar/registrar_server.cpp"],
 [("per-server context shared by all request handlers", "src/brski/masa/masa_config.h, src/brski/registrar/registrar_config.h")],
 state=[("MasaContext / RegistrarContext", "state shared by request threads", "src/brski/masa/masa_config.h")],
 observe=["handler status, headers and decoded body per request; sanitizer reports"])

prop("C14", "Servers report success only with a usable result",
 "The registrar and MASA answer a voucher request with status 200 exactly when the reply body is the signed artefact asked for (at the registrar: the MASA's 200 reply, unchanged); malformed or unauthorised requests get 400, server misconfiguration at the registrar gets 500, and a failure at the MASA behind the registrar gets 502. "
 "A non-success reply never carries voucher data and reaches the client as non-empty plain text; services that are not implemented never claim success with voucher data.",
 ["inputs", "fault_sequences", "configurations"], "every request body, peer certificate, configuration fault (missing or broken files) and every way the MASA can fail (refuses, unreachable, 4xx/5xx, garbage)",
 "the end-to-end test only sees the success path.",
 ["src/brski/registrar/registrar_api.cpp", "src/brski/masa/masa_api.cpp", "src/brski/http/httplib_wrapper.cpp"],
 [("status mapping in the request handlers", "src/brski/registrar/registrar_api.cpp, src/brski/masa/masa_api.cpp"), ("error handler", "src/brski/http/httplib_wrapper.cpp")],
 observe=["HTTP status, content type and body"])

prop("C15", "Every enrolment yields a CA-signed certificate and one audit line",
 "For every accepted enrolment the registrar returns the submitted certificate re-issued by its configured CA with subject, key and validity unchanged, and appends exactly one line to its log with the time and the serial numbers of the pledge's and the issued certificate. "
 "A rejected request gets an error and leaves no line, and no submitted value or concurrent request can split, merge, forge or lose a line.",
 ["inputs", "schedules", "histories"], "every submitted certificate and peer certificate (including hostile names) and every number of concurrent enrolments",
 "enrolment is not covered by any existing test.",
 ["src/brski/registrar/registrar_api.cpp", "src/voucher/crypto_ossl.c"],
 [("registrar_est_simpleenroll, save_to_log", "src/brski/registrar/registrar_api.cpp")],
 observe=["handler result and contents of the log file"])

prop("C16", "No input can corrupt memory, leak or hang the process",
 "No sequence of bytes received from a peer, read from a file or given on standard input (voucher JSON, base64, CMS, certificates, keys, HTTP bodies, configuration files) makes the program read or write out of bounds, use freed or uninitialised memory, overflow, leak or run without end. "
 "It is either processed or rejected.",
 ["inputs"], "every byte string at each external input of the library, the request handlers and the command-line tool",
 "tests feed only well-formed inputs and are not run under sanitizers.",
 ["src/voucher/voucher.c", "src/voucher/serialize.c", "src/voucher/crypto_ossl.c", "src/voucher/request.c", "src/brski/config.c", "src/brski/brski.cpp", "src/brski/masa/masa_api.cpp", "src/brski/registrar/registrar_api.cpp", "src/brski/pledge/pledge_request.cpp"],
 [("input parsers", "src/voucher, src/brski")],
 observe=["AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer reports, watchdog"])

prop("C17", "A failing allocation or crypto call never crashes, leaks or fakes success",
 "If any one memory allocation or cryptographic library call inside an operation fails, the operation either reports failure or completes with its full correct result. "
 "It never crashes, leaks, frees twice, leaves a half-built result with the caller, or reports success with a wrong or missing result.",
 ["fault_sequences"], "each single failure position of each operation of the voucher library",
 "tests never make an allocation or an OpenSSL call fail.",
 ["src/voucher/voucher.c", "src/voucher/serialize.c", "src/voucher/crypto_ossl.c", "src/voucher/request.c", "src/voucher/array.c", "src/voucher/keyvalue.c", "src/brski/config.c", "src/brski/pledge/pledge_utils.c"],
 [("error paths of every operation", "src/voucher, src/brski")],
 observe=["results under injected faults; sanitizer reports"])

prop("C18", "Configuration files are loaded faithfully",
 "Loading a configuration file yields for every documented key exactly the value written in its section, in file order for keys that may be repeated, the documented default when it is absent, and no value when it is empty. "
 "Unknown keys and sections, key order and the same key in another section change nothing; an unreadable file, or a configured certificate file that cannot be loaded, is reported as an error and leaves nothing behind.",
 ["configurations", "inputs"], "every assignment of values to the documented keys, ordering, repetition and omission, and every unusable file",
 "the tests load two generated files and use a few of their values.",
 ["src/brski/config.c", "README.md", "docs"],
 [("load_brski_config, load_cert_files, free_config_content", "src/brski/config.c")],
 observe=["loaded structure compared with the generator's model"])

prop("C19", "The HTTPS layer delivers requests, identities and replies intact",
 "Over TLS each registered path and method reaches its handler with exactly the client's body and headers and the client's own certificate, and the client receives exactly the handler's status, headers and body together with the server's certificate. "
 "Clients without a certificate, unknown paths and wrong methods never reach a handler, and a client that pins a CA talks only to servers certified by it; a server that cannot start says so.",
 ["inputs", "schedules", "configurations"], "every body, header, path and method, any number of concurrent clients with different certificates, and every server certificate",
 "the end-to-end test makes two POSTs of one kind from one client.",
 ["src/brski/http/httplib_wrapper.cpp", "src/brski/http/https_client.cpp", "src/brski/http/https_server.cpp", "src/brski/masa/masa_server.cpp", "src/brski/registrar/registrar_server.cpp"],
 [("httplib_start, httplib_post_request, httplib_post_request_ca", "src/brski/http/httplib_wrapper.cpp")],
 observe=["events recorded in handlers and at clients, matched by unique ids"])

prop("C20", "End-to-end bootstrap succeeds exactly with an honest registrar and MASA",
 "Run against honest servers, the command-line pledge (preq and sign) obtains exactly the configured pinned-domain certificate and a certificate for its new key signed by the domain CA, from any number of clients at once. "
 "Whatever happens on the way, the tool exits successfully only when the voucher it received is authentic, names its serial number and carries its nonce, and pins the registrar it is talking to, and when the certificate enrolled is for its own key; otherwise it exits with failure and outputs no certificate. It enrols only at a registrar the voucher pins.",
 ["histories", "schedules", "fault_sequences"], "every exchange with honest, faulty and malicious peers, in sequence and concurrently",
 "the existing end-to-end test runs one honest exchange and checks the exit code.",
 ["src/brski/brski.cpp", "src/brski/pledge/pledge_request.cpp", "src/brski/registrar/registrar_api.cpp", "src/brski/masa/masa_api.cpp"],
 [("post_voucher_pledge_request, post_sign_cert", "src/brski/pledge/pledge_request.cpp"), ("command-line tool", "src/brski/brski.cpp")],
 observe=["exit status and output of the tool, messages seen by the peers"])

prop("C25", "A command of the tool succeeds exactly when its whole result was written",
 "Given what it needs, each command (epvr, preq, vmasa, sign, serial) exits successfully with exactly its documented result on the standard output or in the files named by -o, whatever the order of its options and however its standard input arrives, and writes no other file. "
 "With an unusable configuration, input, key or certificate, with an unverifiable voucher, with an unknown command or option, or when the result cannot be written completely, it exits with failure, without a result on the standard output and without touching files. The servers exit with failure instead of running when they cannot serve what is configured.",
 ["inputs", "fault_sequences"], "every command with every usable or unusable combination of options, configuration, input files, standard input and output places",
 "the tests run the tool for one honest exchange and check the exit code only.",
 ["src/brski/brski.cpp", "src/brski/pledge/pledge_utils.c", "src/voucher/crypto_ossl.c"],
 [("process_options, read_stdin, output_domain_cert, main", "src/brski/brski.cpp"), ("certbuf_to_file, keybuf_to_file, cmsbuf_to_file", "src/voucher/crypto_ossl.c")],
 observe=["exit status, standard output and files of the tool"])

prop("C26", "Keys, certificates and messages keep their content through files",
 "Writing a key, certificate or CMS message to a file succeeds only when the file then holds all of it and nothing else, replacing what was there; a full device, too little space, an unwritable place or a buffer which holds no such object is reported as failure. "
 "Reading a PEM file returns exactly the first object of the kind asked for, whatever text, other blocks or line ends surround it, and a missing, cut or damaged one is refused. Buffers and contexts convert into each other unchanged, key contexts are made only from keys of the right type, copies are independent, a certificate goes with a private key exactly when it holds its public half, and no file stays open.",
 ["inputs", "fault_sequences"], "every key type and encoding, certificate and message size, surrounding file content, file state and point at which writing fails",
 "the tests write one key and one certificate of one type to new files that can be written.",
 ["src/voucher/crypto_ossl.c"],
 [("keybuf_to_file, certbuf_to_file, cmsbuf_to_file, file_to_keybuf, file_to_x509buf", "src/voucher/crypto_ossl.c"), ("crypto_key2context, crypto_cert2context, crypto_cert2buf, crypto_copycert, crypto_verify_certkey", "src/voucher/crypto_ossl.c")],
 observe=["files parsed independently with the OpenSSL API, return values, open file descriptors"])

prop("C21", "The library gives the same results from many threads as from one",
 "Independent threads using the library on their own objects, sharing at most read-only inputs, get exactly the results each would get alone. No internal state is shared without synchronisation.",
 ["schedules"], "every interleaving of library operations from several threads",
 "no existing test is threaded, while both servers are.",
 ["src/voucher/voucher.c", "src/voucher/crypto_ossl.c", "src/voucher/request.c", "src/voucher/serialize.c", "src/utils/os.c", "src/utils/log.c"],
 [("absence of mutable globals outside the logger", "src/voucher, src/utils")],
 observe=["ThreadSanitizer reports and comparison with single-threaded results"])

prop("C22", "Log messages are complete, filtered by level and never interleaved",
 "Every message at or above the configured level is written exactly once, complete on a line of its own with its level and text, to the configured destination, and no message below the level or while quiet is written. With a lock installed this also holds for messages logged from many threads at once, and the lock is always released.",
 ["schedules", "histories"], "every sequence of level, quiet and destination settings and messages, and every interleaving of logging threads",
 "tests never look at log output.",
 ["src/utils/log.c", "src/utils/log.h", "src/brski/brski.cpp"],
 [("log_levels, log_errno_error, lock callback", "src/utils/log.c")],
 state=[("logger settings", "level, quiet, lock, destination", "src/utils/log.c")],
 observe=["bytes written to the log destination; lock callback history"])

prop("C23", "Every generated key and certificate is fresh and unpredictable",
 "Every generated private key is new, and every device certificate the pledge generates for enrolment has its own random serial number and subject serial number and matches its key, however many are generated, however quickly and by however many processes. Random buffers are filled completely.",
 ["histories", "schedules"], "every series of generations within and across processes, including many within one second",
 "tests generate one key and look at nothing.",
 ["src/brski/pledge/pledge_request.cpp", "src/voucher/crypto_ossl.c", "src/utils/log.c"],
 [("generate_sign_cert", "src/brski/pledge/pledge_request.cpp"), ("crypto_getrand, crypto_generate_eckey, crypto_generate_rsakey", "src/voucher/crypto_ossl.c")],
 observe=["keys and certificates produced, collected across processes"])

prop("C24", "Dates put into vouchers are the current UTC time",
 "A date the program itself puts into a voucher or voucher-request denotes the moment it was made in UTC, as its \"Z\" suffix says, in whatever time zone the process runs and at any date.",
 ["configurations", "inputs"], "every time zone setting and every wall-clock time",
 "tests use fixed dates and run in UTC.",
 ["src/utils/os.c", "src/voucher/serialize.c", "src/brski/registrar/registrar_api.cpp", "src/brski/pledge/pledge_utils.c"],
 [("current time helper used for created-on", "src/utils/os.c")],
 observe=["created-on of issued requests under different TZ settings"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, s)
print(len(P), "properties")

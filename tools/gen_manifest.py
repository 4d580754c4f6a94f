"""Writes MANIFEST.json from the properties and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("runtime monitor: reference JSON reader over generated vouchers, under ASan/UBSan/LSan", "exploration"),
 "C02": ("runtime monitor: differential judge over generated, near-miss and damaged documents, under ASan/UBSan/LSan", "exploration"),
 "C03": ("runtime monitor: reference codecs over enumerated and generated texts, under ASan/UBSan/LSan", "exploration"),
 "C04": ("runtime monitor: executable record model over random operation histories, under ASan/UBSan/LSan", "exploration"),
 "C05": ("runtime monitor: executable sequence model over random operation histories, under ASan/UBSan/LSan", "exploration"),
 "C06": ("runtime monitor: authenticity oracle over generated and forged CMS messages, under ASan/UBSan/LSan", "exploration"),
 "C07": ("runtime monitor: independent certificate inspection of generated and re-signed certificates, under ASan/UBSan/LSan", "exploration"),
 "C08": ("runtime monitor: signature-graph oracle over generated and forged PKIs, under ASan/UBSan/LSan", "exploration"),
 "C09": ("runtime monitor: independent decoding of produced requests against the inputs, under ASan/UBSan/LSan", "exploration"),
 "C10": ("runtime monitor: decision and content oracle over generated request scenarios, under ASan/UBSan/LSan", "exploration"),
 "C11": ("runtime monitor: decision, content and callback-history oracle over generated request scenarios, under ASan/UBSan/LSan", "exploration"),
 "C12": ("runtime monitor: decision and output oracle over generated voucher scenarios, under ASan/UBSan/LSan", "exploration"),
 "C13": ("history checker (reply equals that of a fresh server) over sequential and concurrent request histories, under ASan and TSan", "exploration"),
 "C14": ("runtime monitor: status/content oracle over generated requests, configuration faults and MASA failures, under ASan", "exploration"),
 "C15": ("offline log checker (exactly one line per enrolment) over sequential and concurrent histories, under ASan and TSan", "exploration"),
 "C16": ("sanitizers (ASan, UBSan, LSan, memcheck-style poisoning) with a hang watchdog under structured mutation of every external input", "exploration"),
 "C17": ("fault injection at every allocation and OpenSSL call, judged by sanitizers and a result oracle", "fault_enumeration"),
 "C18": ("runtime monitor: reference reader over generated configuration files, under ASan/UBSan/LSan", "exploration"),
 "C19": ("event-log checker matching client and handler events by unique id over concurrent TLS clients, under ASan and TSan", "exploration"),
 "C20": ("end-to-end monitor: real servers and tool under honest, tampering and replaying peers, under ASan", "exploration"),
 "C21": ("ThreadSanitizer and single-thread equivalence over concurrent library operations", "exploration"),
 "C22": ("log-file checker over sequential and concurrent logging histories, under ASan and TSan", "exploration"),
 "C23": ("uniqueness checker over generated keys, certificates and random buffers across processes, under ASan", "exploration"),
 "C24": ("runtime monitor: independent UTC clock over time zones and simulated clocks, under ASan", "exploration"),
  "C25": ("output monitor: every command of the real tool with known right outcomes, output faults and a before/after comparison of files, under ASan and UBSan", "exploration"),
  "C26": ("storage monitor: files, buffers and contexts of keys, certificates and messages compared with an independent reader, writes cut by full devices and size limits, counted file descriptors, under ASan/UBSan/LSan", "exploration"),
}
NOTE = {}
try:
    NOTE = json.load(open(os.path.join(V, "tools", "level_notes.json")))
except OSError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, s)):
        t, lv = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 %s" % s, "thorough_cmd": "VERIF_TIER=thorough python3 %s" % s,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv,
                       "level_note": NOTE.get(i, "Held on the executions counted in the evidence file; trusts the reference oracles in harness/, the generators' reach, OpenSSL and the sanitizer runtimes.")})
    else:
        na.append({"property": i, "reason": "its check is still being built"})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors work at the public interfaces, through interposed libc/OpenSSL calls at link time, and on the real servers. Every check rebuilds from /repo's working tree."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")

import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check, MEMCHECK
c = Check("C16", "genuine inputs of every kind with damage from one bit to absurd size and depth, to bytes, text and DER structure (lengths repaired), also under genuine signatures, given to every entrance of the library, the handlers and the pledge; non-trivial: every case",
          assumptions=["passphrase-protected keys are not tried (the program asks on the terminal)"])
W = ["-Wl,--wrap=listen", "-Wl,--wrap=fopen"]
c.build([{"name": "h", "kind": "asan", "harness": ["c16_fuzz.cpp"], "groups": ["core", "api"]},
         {"name": "w", "kind": "asan", "harness": ["c16_wire.cpp"], "groups": ["core", "api", "http"], "link": W},
         {"name": "cli", "kind": "asan", "harness": ["cli_wrap.cpp"], "groups": ["core", "api", "http", "cli"], "link": W},
         {"name": "p", "kind": "plain", "harness": ["c16_fuzz.cpp"], "groups": ["core", "api"]}])
c.stage("damage", "h", c.scale(20000, 2000000), hang_s=60)
c.stage("servers", "w", c.scale(60, 4000), opts={"mode": "servers"}, hang_s=200)
c.stage("clients", "w", c.scale(400, 20000), opts={"mode": "clients"}, hang_s=200)
c.stage("tool", "w", c.scale(800, 40000), opts={"mode": "tool", "cli": c.bins["cli"]}, hang_s=200)
c.stage("memcheck", "p", c.scale(160, 4000), hang_s=300, wrap=MEMCHECK)
c.finish(require={k: 20 for k in ("CMS: taken", "JSON: taken", "certificates: taken", "configuration: taken", "handlers: taken", "keys: taken", "pledge: taken", "steps: taken", "values: taken", "helpers: taken", "damaged certificates signed", "servers: broken requests over TLS", "servers: broken TLS", "clients: broken reply taken", "clients: broken reply refused", "tool: vmasa done", "tool: vmasa refused", "tool: epvr done")})

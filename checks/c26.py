import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C26", "keys (EC on four curves, RSA of three sizes, Ed25519; plain and PKCS#8), certificates up to 150 kB and signed messages up to 200 kB written to new and old files, full devices, limited space and unwritable places; PEM files with the object alone, among text and other blocks, with either line end, cut, damaged or missing; buffers and contexts, whole and cut; key and certificate pairs; files left open are counted after every case; non-trivial: everything but empty files",
          assumptions=["OpenSSL reads and writes PEM and S/MIME rightly", "no PEM file is encrypted"])
c.build([{"name": "h", "kind": "asan", "harness": ["c26_store.cpp"], "groups": ["core"]}])
c.stage("store", "h", c.scale(12000, 300000))
c.finish(require={"written: keys": 300, "written: certificates": 300, "written: messages": 300, "written to a full device": 300, "written to less space than needed": 800, "written to just enough space": 300, "written to a place which cannot be written": 300,
                  "junk refused": 1000, "certificates over 8 KiB": 100, "read key after another block": 30, "read certificate after another block": 30, "refused key cut": 30, "refused certificate cut": 30, "refused key with damaged content": 30,
                  "certificate contexts": 500, "key contexts": 500, "certificate with its key": 200, "certificate with another key": 200})

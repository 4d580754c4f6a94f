import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C06", "random signer hierarchies (0-3 intermediates, EC and RSA) and payloads, signed through each public function, verified with every kind of trust store, then attacked: replaced, moved and cut content and signatures, imposters of the same name and serial, foreign and missing signers, other content types, forged intermediates, bit and byte damage anywhere; plus every n-th single-bit change of small messages; every distinct message verified counts",
          assumptions=["OpenSSL's own primitive signature checks and DER parser are right", "with look-alike trust anchors of the same name a genuine message may be refused (path building is by name); only acceptance is judged there"])
c.build([{"name": "h", "kind": "asan", "harness": ["c06_cms.cpp"], "groups": ["core"]}])
c.stage("messages", "h", c.scale(240, 6000), opts={"mode": "messages"})
c.stage("sweep", "h", c.scale(16, 200), opts={"mode": "sweep"})
c.stage("vouchers", "h", c.scale(800, 20000), opts={"mode": "vouchers"})
c.finish(require={"genuine:store": 100, "attack:content-replaced": 200, "attack:imposter-same-name-and-serial": 100, "changed:bit": 2000, "sweep-bits": 20000, "voucher-verify": 1500, "recycled-lists": 5000})

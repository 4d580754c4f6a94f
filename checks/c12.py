import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C12", "random vouchers deviating in attributes, documents, signatures and signers, pinning certificates that do or do not vouch for the registrar's (look-alikes, unrelated, altered, unknown intermediates), verified with many trust configurations; accepted exactly when the independent judgement says so; every call is non-trivial",
          assumptions=["OpenSSL's CMS and certificate signature checks are right", "only certificates carried in the message serve as intermediates; two trusted certificates of one name are not judged", "whether a voucher has expired is not judged (the project's own tests require expired vouchers to be accepted)"])
c.build([{"name": "h", "kind": "asan", "harness": ["c12_pledge.cpp"], "groups": ["core"]}, {"name": "client", "kind": "asan", "harness": ["c12_client.cpp"], "groups": ["core", "api"]}])
c.stage("vouchers", "h", c.scale(7000, 200000))
c.stage("client", "client", c.scale(2500, 60000))
c.finish(require={"request:accepted:good": 100, "verify:accepted:good": 100, "client-request-checked": 300, "accepted:pinned root": 100, "accepted:pinned intermediate": 100, "accepted:pinned self-signed registrar": 10, "refused:serial differs": 50, "refused:nonce differs": 50, "refused:no nonce": 20,
                  "refused:pinned look-alike": 20, "refused:pinned unrelated": 20, "refused:untrusted signer": 100, "refused:bad signature": 100, "refused:domain store does not vouch": 50})

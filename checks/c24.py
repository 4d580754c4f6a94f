import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C24", "pledge and registrar voucher-requests made under a controlled clock (any date from 1970 to 9996, around midnights, leap days, clock changes, 2^31, running while the request is made) in many time zones, the date inside compared with an independent calendar; every case counts",
          assumptions=["the clock is read with time, gettimeofday or clock_gettime"])
c.build([{"name": "h", "kind": "asan", "harness": ["c24_dates.cpp"], "groups": ["core", "api"]}])
c.stage("clock and zones", "h", c.scale(2400, 60000))
c.finish(require={"pledge voucher-request": 300, "registrar voucher-request": 300, "after 2038": 500, "clock readings": 1000, "configured date": 50})

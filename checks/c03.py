import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C03", "base64: every length 1..600 then random lengths to 9000, each encoded, decoded plain, with blanks, foreign bytes and line breaks, and four undecodable texts; dates: days walked over 1900..9999 and random seconds in six time zones plus damaged texts; booleans: all texts of one and two bytes and damaged spellings; every case is non-trivial", assumptions=["impossible days of a month, leap seconds, alternative boolean spellings and data after base64 padding are not judged"])
c.build([{"name": "h", "kind": "asan", "harness": ["c03_codecs.cpp"], "groups": ["core"]}])
c.stage("main", "h", c.scale(24000, 800000))
c.finish(require={"base64_encoded": 5000, "base64_rejected": 20000, "dates": 100000, "dates_rejected": 50000, "bool_texts": 60000})

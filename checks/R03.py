"""
R03: tokens signed with a key outside the configured set are kept apart and are
never spent.
"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import R01
from mc.runner import Check, Scenario

# the keys allowed at each start of the client
CONFIGS = [
    [{R01.KEY}, {R01.BADKEY}],
    [{R01.KEY}, {R01.KEY, R01.BADKEY}, set()],
    [set(), {R01.KEY}],
]

CHECK = Check(
    "R03",
    "model_checking",
    "the redemption state space of R01 with a signing key chosen per redeemed group "
    "(configured / not configured) and a set of configured keys which changes when the "
    "client is restarted; at every state the spendable count must equal the "
    "number of tokens signed with a configured key, and at the end of every history "
    "spending everything must yield exactly those tokens, before and after a restart",
    [
        "the redeemer reports the key which the issuer's proof was checked against (R02)",
        "SQLite commits are atomic",
    ],
    [
        Scenario(
            "mixed-keys",
            R01.make,
            dict(groups=3, vouchers=1, tokens=5, puts=1, ticks=1, crashes=1, bad=1,
                 keys=[R01.KEY, R01.BADKEY], spend=True),
            dict(groups=3, vouchers=1, tokens=5, puts=2, ticks=2, crashes=1, bad=2,
                 keys=[R01.KEY, R01.BADKEY, ""], spend=True),
        ),
        Scenario(
            "reconfigured",
            R01.make,
            dict(groups=3, vouchers=1, tokens=3, puts=1, ticks=0, crashes=1, bad=0,
                 keys=[R01.KEY, R01.BADKEY], spend=True, configs=CONFIGS),
            dict(groups=3, vouchers=2, tokens=3, puts=2, ticks=1, crashes=2, bad=1,
                 keys=[R01.KEY, R01.BADKEY], spend=True, configs=CONFIGS),
        ),
        Scenario(
            "mixed-keys-two-vouchers",
            R01.make,
            dict(groups=2, vouchers=2, tokens=3, puts=2, ticks=0, crashes=0, bad=0,
                 keys=[R01.KEY, R01.BADKEY], spend=True),
            dict(groups=2, vouchers=2, tokens=3, puts=2, ticks=1, crashes=1, bad=1,
                 keys=[R01.KEY, R01.BADKEY], spend=True),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())

"""C25: no function modifies its arguments.

The contracts of C01 to C24 are run again with a frame monitor instead of their postconditions (pyvc/frame.py)."""
import importlib
from pyvc.frame import frame_of

SOURCES = ["c%02d" % i for i in range(1, 25)]
FUNCTIONS, CONTRACTS = [], []
for _s in SOURCES:
    _m = importlib.import_module("contracts." + _s)
    for _f in _m.FUNCTIONS:
        if _f not in FUNCTIONS:
            FUNCTIONS.append(_f)
    for _n, _c in _m.CONTRACTS:
        CONTRACTS.append(("%s / %s" % (_s.upper(), _n), frame_of(_c)))

TRUSTED = ["frame rule for loops of unbounded length: a variable that held (a view of) an argument before the loop must not be written to in place in any iteration",
           "functions that a contract replaces by their own contract (e.g. fwdkin inside iterative_invkin) leave their arguments alone; each of them is itself under a frame contract here"]
ASSUMPTIONS = ["the preconditions of the contracts of C01 to C24, under which the calls are made",
               "private attributes (leading underscore) of the objects passed in are not part of them"]

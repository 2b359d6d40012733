"""Cross correlation of signals in all modes."""
from . import S09

ASSUMPTIONS = S09.ASSUMPTIONS
CASES = S09.cases("correlate")

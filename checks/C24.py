"""C24: where total column water is given, the two layers together hold exactly that."""
from engine.runner import Scenario

from . import C23, C25

SCENARIOS = [Scenario("model-levels", C23.make(C23.SETS[:3], 1, 2, tcw=True), "3 choices of 2 to 4 levels, 1x2 cells, any fields"),
             Scenario("pressure-levels", C25.make([(85000, 50000)], 2, 2, tcw=True, at=[(0, 1)]),
                      "levels at 850, 500 hPa, 2x2 cells, any surface pressure in one column"),
             Scenario("model-levels-later-instant", C23.make(C23.SETS[:2], 1, 2, tcw=True, later=True),
                      "2 choices of levels, 1x2 cells, the second of three instants of a day"),
             Scenario("pressure-levels-later-instant", C25.make([(85000, 50000)], 2, 2, tcw=True, at=[(1, 0)], later=True),
                      "levels at 850, 500 hPa, the second of three instants of a day"),
             Scenario("model-levels-6", C23.make([((90, 100, 111, 112, 120, 137), 111)], 2, 2, tcw=True),
                      "6 levels, 2x2 cells, any fields", thorough_only=True)]
ASSUMPTIONS = ["the column holds some water vapour", "storing as 32-bit float is read as exact"]
OUTSIDE = C23.OUTSIDE

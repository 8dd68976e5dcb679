"""Results do not depend on the unit of time: dimensional consistency in time of every operation."""
from units import *


def run(mods, rep):
    unit_rule(mods, rep, 0, "time-scaling")

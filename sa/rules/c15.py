"""Results scale with the unit of charge: dimensional consistency in charge of every operation."""
from units import *


def run(mods, rep):
    unit_rule(mods, rep, 1, "charge-scaling")

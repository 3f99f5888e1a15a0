"""C02: every interpretation of a circuit sees the same program."""
from lib import build
import c01


def design(c):
    c.model("CircuitSched", constants={} if c.quick else {"Workers": "{1, 2, 3, 4}"})


def conform(c):
    c01.prog_conform(c, "C02", deep=True)


PARTS = [design, conform]
ASSUME = c01.ASSUME

"""C18: digit-type comparison and conversion."""
from . import c17
from .common import *


def scenarios(tier):
    return c17.scenarios(tier, (5, 6))


META = {
    'title': 'digit-type comparison and conversion',
    'bounds': 'every pair of values of all eleven built-in digit types (8 to 64 bits), all operand orders; default, copy, move and '
              'converting construction, the four assignments, self assignment and conversion back',
    'outside': 'operands of mixed integer types',
    'assumptions': TRUST,
}

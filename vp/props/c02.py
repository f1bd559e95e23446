"""C02: subtraction is exact."""
from . import c01
from .common import *


def scenarios(tier):
    return c01.scenarios(tier, 'sub')


META = dict(c01.META, title='subtraction')

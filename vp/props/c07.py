"""C07: equality."""
from . import c06
from .common import *


def scenarios(tier):
    return c06.scenarios(tier, 'equality')


META = dict(c06.META, title='equality')

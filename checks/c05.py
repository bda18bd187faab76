"""C05: the firehose misses nothing and keeps making progress."""
from . import fire

QUICK_S = 130
REAL, STUB = fire.REAL, fire.STUB
ASSUMPTIONS = ['the hub\'s clock runs at the true rate']


def run(env):
    fire.run(env, 'complete')

"""C04: each firehose subscriber sees strictly increasing, duplicate-free real events."""
from . import fire

QUICK_S = 130
REAL, STUB = fire.REAL, fire.STUB
ASSUMPTIONS = ['sequence numbers are unique (C03)']


def run(env):
    fire.run(env, 'order')

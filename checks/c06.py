"""C06: commit events are self-contained and inductively verifiable."""
from . import fire

QUICK_S = 130
REAL, STUB = fire.REAL, fire.STUB
ASSUMPTIONS = []


def run(env):
    fire.run(env, 'contents')

#!/opt/venv/bin/python
"""check.py PROPERTY [--replay FILE] [--tier quick|thorough] [--one SEED]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import boot  # noqa: E402,F401  first: installs the seams
from sim import runner  # noqa: E402

sys.exit(runner.main())

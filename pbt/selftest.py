#!/opt/venv/bin/python
"""Setup: nothing to build; makes sure that everything the checks need is here."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.chdir('/tmp')
from pbt import core  # noqa
core.bootstrap()
print('ok')

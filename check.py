#!/opt/venv/bin/python
"""check.py CNN [quick|thorough]: decide one property against /repo's working tree."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.common import main  # noqa: E402

sys.exit(main(sys.argv))

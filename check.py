#!/usr/bin/env python3
"""check.py ID            decide property ID (VERIF_SEED, VERIF_TIER)
   check.py ID --replay F execute a replay file again (exit 1 if it still fails)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import main  # noqa: E402

sys.exit(main.main(sys.argv[1:]))

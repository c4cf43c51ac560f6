#!/usr/bin/env python3
"""run.py <property>            run the check of one property (VERIF_TIER, VERIF_SEED)
   run.py --setup              build everything once
   run.py <property> --replay CFG MODE ROUTE NAME SIG ARGS   repeat one observation"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
sys.dont_write_bytecode = True
import checks  # noqa: E402

sys.exit(checks.main(sys.argv[1:]))

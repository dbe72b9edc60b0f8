#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, os, sys

if not sys.flags.utf8_mode:      # names of files are UTF-8, whatever the locale
    os.execve(sys.executable, [sys.executable, "-X", "utf8"] + sys.argv, dict(os.environ, PYTHONUTF8="1"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import check, props

a = argparse.ArgumentParser()
a.add_argument("prop")
a.add_argument("--tier")
a.add_argument("--seed")
a.add_argument("--replay")
a = a.parse_args()
if a.tier:
    os.environ["VERIF_TIER"] = a.tier
if a.seed:
    os.environ["VERIF_SEED"] = a.seed
sys.exit(check.main(a.prop, props.LEVEL[a.prop], props.BODY[a.prop], a.replay))

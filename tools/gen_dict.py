#!/usr/bin/env python3
"""Writes dict.json: the numbers and strings in the sources of the pinned tree (see dictionary() in check.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, ".."))
import check
c = check.literals("/repo")
json.dump(dict(sorted(c.items())), open(os.path.join(here, "../dict.json"), "w"), indent=0)
print(len(c))

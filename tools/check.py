#!/usr/bin/env python3
"""Decide one property: check.py <ID> (the tier and the seed are in the environment)."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import Broken, Check, say
import plan


def main():
    property = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = Check(property, tier, seed)
    say("check %s (%s, seed %d)" % (property, tier, seed))
    try:
        plan.CHECKS[property](check)
    except Broken as error:
        say("BROKEN CHECK: %s" % error)
        # A violation found before that is still one.
        if check.violations == 0:
            sys.exit(2)
    check.finish(plan.ASSUMPTIONS)
    known(property)
    if check.violations:
        say("VIOLATION property=%s replay=%s" % (property, check.replay))
        sys.exit(1)
    say("held: %d states, %d runs of the code" % (check.states, check.validated))


def known(property):
    # There are no unrepaired findings; were there any, they would be announced here.
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
    with open(path) as file:
        for line in file:
            if line.startswith("finding: property=%s " % property):
                say("KNOWN-FINDING: " + line[len("finding: "):].strip())


main()

#!/usr/bin/env python3
"""check.py <property id>: the check of one property (see MANIFEST.json)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    prop = sys.argv[1]
    rep = vlib.Report(prop)
    try:
        checks.CHECKS[prop](rep)
        rc = rep.finish()
    except vlib.CheckError as e:
        vlib.log("ERROR %s: %s" % (prop, e))
        # What was found before still counts.
        rc = rep.finish() if rep.violations else 2
    finally:
        vlib.cleanup()
    sys.exit(rc)


main()

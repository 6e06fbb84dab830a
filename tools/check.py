#!/usr/bin/env python3
"""The entry point of all checks: check.py <property id>."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib          # noqa: E402
import checks       # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        lib.build()
        if prop == "setup":
            return 0
        c = lib.Check(prop)
        checks.CHECKS[prop](c)
        return c.finish()
    except lib.CheckError as e:
        print("ERROR: " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())

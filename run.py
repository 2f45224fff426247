#!/usr/bin/env python3
"""run.py setup | run.py <PROPERTY> [quick|thorough] | run.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        print("engine:", driver.build_engine())
        return 0
    import specs
    props = {p.pid: p for p in specs.PROPS}
    if sys.argv[1] == "--replay":
        return driver.replay(props, sys.argv[2])
    if sys.argv[1] == "list":
        print(" ".join(props))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return driver.check(props[sys.argv[1]], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(2)

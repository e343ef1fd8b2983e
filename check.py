#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py --replay <file>   |   check.py --list"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.stdout.reconfigure(line_buffering=True)
import registry


def main():
    a = sys.argv[1:]
    if not a or a[0] == "--list":
        print("\n".join(sorted(registry.CHECKS)))
        return 0
    if a[0] == "--replay":
        return registry.replay_file(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    return registry.run(a[0], tier)


sys.exit(main())

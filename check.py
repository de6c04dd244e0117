#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo by bounded exhaustive exploration."""
import importlib, sys, traceback, subprocess
sys.path.insert(0, __file__.rsplit("/", 1)[0] if "/" in __file__ else ".")
from gen import core, props


def main():
    prop = sys.argv[1]
    res = core.Result(prop)
    try:
        props.CHECKS[prop](res)
    except core.CheckError as e:
        print(f"{prop}: the check gave no answer: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        print(f"{prop}: the check gave no answer: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return res.finish()


if __name__ == "__main__":
    sys.exit(main())

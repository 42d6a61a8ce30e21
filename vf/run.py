import sys

from vf.core import run_check

if __name__ == "__main__":
    prop = sys.argv[1]
    sys.exit(run_check(f"vf.checks.{prop.lower()}", prop, sys.argv[2:]))

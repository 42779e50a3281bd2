#!/usr/bin/env python3
import importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "lib"))
sys.path.insert(0, os.path.join(H, "checks"))
import check


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    if pid == "all":
        import glob
        rc = 0
        for p in sorted(glob.glob(os.path.join(H, "checks", "P*.py"))):
            m = importlib.import_module(os.path.basename(p)[:-3])
            rc |= check.run(m.META["id"], tier, m.run, m.META)
        sys.exit(rc)
    m = importlib.import_module(pid)
    sys.exit(check.run(pid, tier, m.run, m.META))


main()

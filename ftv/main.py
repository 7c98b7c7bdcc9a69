import argparse
import os
import sys

from ftv import common


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--case", type=int)
    ap.add_argument("--procs", type=int)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        import featuretools
        where = os.path.realpath(featuretools.__file__)
        if not where.startswith(os.path.realpath(common.REPO) + "/"):
            print("INCONCLUSIVE: featuretools imported from", where)
            sys.exit(3)
    except Exception as e:  # the code under test does not import
        print("INCONCLUSIVE: cannot import featuretools: %r" % e)
        sys.exit(3)
    rc = common.run_check(a.pid, "ftv.checks." + a.pid.lower(), tier, int(a.seed),
                          only_case=a.case, procs=a.procs, verbose=a.verbose)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()

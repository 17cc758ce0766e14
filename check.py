#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N] | --replay FILE | --digests C01 --indices ..."""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--indices", default="")
    ap.add_argument("--quiet", action="store_true")
    a = ap.parse_args()
    if sys.version_info < (3, 12):
        print("Python 3.12 needed")
        return 2
    if "PYTHONHASHSEED" not in os.environ:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from dst import runner
    if a.replay:
        res, same = runner.replay_file(a.replay, not a.quiet)
        if res["harness"]:
            return 2
        return 1 if same else 0
    if a.digests:
        runner.digests(a.digests, a.tier, a.seed, [int(x) for x in a.indices.split(",") if x])
        return 0
    return runner.check(a.prop, a.tier, a.seed)


if __name__ == "__main__":
    rc = 2
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

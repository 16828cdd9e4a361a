#!/usr/bin/env python3-vt
"""run.py PROPERTY [quick|thorough]"""
import importlib, os, signal, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from lib import build, evid  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ck = evid.Check(prop, tier)

    def late(*_):
        ck.inconclusive.append(['time', 'the time limit of the check was reached'])
        code = ck.finish()
        sys.stdout.flush()
        subprocess.run(['pkill', '-KILL', '-P', str(os.getpid())])
        os._exit(code)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(840 if tier == 'quick' else 6 * 3600)
    try:
        mod = importlib.import_module('props.' + prop)
        mod.check(ck)
    except build.BuildError as e:
        # the code under check no longer fits the harness: no verdict
        ck.inconclusive.append(['build', str(e)])
    except Exception as e:
        # the encoding does not reach this version of the code: no verdict
        traceback.print_exc()
        ck.inconclusive.append(['engine', f'{type(e).__name__}: {e}'])
    sys.exit(ck.finish())


main()

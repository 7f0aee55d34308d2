#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 << 20)
from lib import core


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('checks.' + pid)
    work = core.Work(pid)
    rep = core.Report(pid, tier)
    try:
        mod.run(rep, tier, work)
        return core.finish(rep)
    except core.Broken as e:
        print(f'ANALYSIS-BROKEN property={pid}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid}')
        return 2
    finally:
        work.close()


if __name__ == '__main__':
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 2)

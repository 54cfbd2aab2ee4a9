"""python3-vt checks/run.py <property id>"""
import sys
from common import run


def registry():
    R = {}
    import p_loops
    R.update(p_loops.CHECKS)
    import p_threads
    R.update(p_threads.CHECKS)
    import p_getitem
    R.update(p_getitem.CHECKS)
    import p_recarray
    R.update(p_recarray.CHECKS)
    import p_sort
    R.update(p_sort.CHECKS)
    import p_hooks
    R.update(p_hooks.CHECKS)
    import p_handoff
    R.update(p_handoff.CHECKS)
    return R


if __name__ == '__main__':
    sys.exit(run(registry()[sys.argv[1]]()))

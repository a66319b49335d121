"""python3 -m gcv.check C08 [root]: decide one property from the sources of the working tree."""
import importlib
import os
import sys
import traceback

sys.setrecursionlimit(20000)


def main(argv):
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(run(argv)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)


def run(argv):
    from .report import Check, Undecided
    from .alg import Limit
    from .state import Unsup
    pid = argv[0]
    root = argv[1] if len(argv) > 1 else os.environ.get('GCV_ROOT', '/repo')
    m = importlib.import_module('gcv.checks.' + pid.lower())
    c = Check(pid, root)
    for f in m.PARTS:
        try:
            c.attempt('%s.%s' % (m.__name__, f.__name__), f, c, secs=1000)
        except Undecided:
            pass
        except (Limit, Unsup, RecursionError) as ex:
            c.undecided(f.__name__, '%s.%s' % (m.__name__, f.__name__), '%s: %s' % (type(ex).__name__, ex))
        except SyntaxError as ex:
            c.undecided(f.__name__, '%s:%s' % (ex.filename, ex.lineno), 'does not compile')
        except Exception:
            if os.environ.get('GCV_DEBUG'):
                traceback.print_exc()
            c.undecided(f.__name__, '%s.%s' % (m.__name__, f.__name__), 'analysis error: ' + traceback.format_exc()[-600:])
    return c.finish(m.EXPLANATION)


if __name__ == '__main__':
    main(sys.argv[1:])

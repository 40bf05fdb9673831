import os
import sys

from . import runner


def main(argv):
    if argv and argv[0] == "--replay":
        return runner.replay(argv[1])
    if argv and argv[0] == "--selftest":
        from . import selftest

        return selftest.main()
    only = None
    verbose = False
    props = []
    for a in argv:
        if a.startswith("--only="):
            only = a[7:]
        elif a == "-v":
            verbose = True
        else:
            props.append(a)
    rc = 0
    for p in props:
        rc = max(rc, runner.check(p, only=only, verbose=verbose))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

import sys

from . import core

if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "replay":
        from . import replay

        sys.exit(replay.main(a[1:]))
    if a and a[0] == "setup":
        from . import selftest

        sys.exit(selftest.main())
    sys.exit(core.main(a))

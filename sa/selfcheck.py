"""setup: the checker parses and the package under analysis loads."""
import sys

from .engine import Interp


def main():
    I = Interp()
    print("modules %d, classes %d" % (len(I.p.modules), len(I.classes)))
    return 0


if __name__ == "__main__":
    sys.exit(main())

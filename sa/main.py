import importlib
import sys
import time


def main():
    pid = sys.argv[1]
    t = time.time()
    m = importlib.import_module("sa.checks." + pid.lower())
    sys.exit(m.main())


if __name__ == "__main__":
    main()

"""python harness/main.py Cnn [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.path.insert(0, "/repo/src")
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import core  # noqa: E402


def _main():
    prop = sys.argv[1]
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import direpack  # noqa: F401

        root = os.path.realpath(direpack.__path__[0])
        if root != "/repo/src/direpack":
            print("direpack is imported from %s, not /repo/src" % root)
            sys.exit(2)
        mod = importlib.import_module("props." + prop)
    sys.exit(core.main(prop, mod, sys.argv[2:]))


if __name__ == "__main__":
    _main()

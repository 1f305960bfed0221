#!/usr/bin/env python3
"""run.py check <property> | run.py replay <file>"""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tool"))


def main():
    if sys.argv[1] == "check":
        prop = sys.argv[2]
        mod = importlib.import_module("checks." + prop.lower())
        return mod.main()
    if sys.argv[1] == "setup":
        import core
        print("repository:", core.REPO, "compiler:", core.sh(["g++", "--version"]).stdout.decode().splitlines()[0])
        return 0
    if sys.argv[1] == "replay":
        print(open(sys.argv[2]).read())
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())

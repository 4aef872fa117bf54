"""main.py ID | main.py ID --replay FILE | main.py ID --case JSON"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine  # noqa: E402


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    if len(sys.argv) > 3:
        if sys.argv[2] == '--replay':
            with open(sys.argv[3]) as f:
                d = json.load(f)
            family, case = d['family'], d['case']
        else:
            family, case = json.loads(sys.argv[3])
        outcome, msg, key = engine.single(mod.families(engine.TIER), family, case)
        if msg is None:
            print('holds: %s' % engine.brief(str(outcome)))
            return 0
        print(msg)
        return 1
    return engine.main(mod, pid)


if __name__ == '__main__':
    sys.exit(main())

"""python checks/run.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--verbose]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vh import core  # noqa: E402

if __name__ == '__main__':
    prop = sys.argv[1]
    try:
        mod = importlib.import_module('vh.p_' + prop.lower())
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
    sys.exit(core.run(mod.CHECK, sys.argv[2:]))

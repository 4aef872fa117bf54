"""Set-up: there is nothing to build; check that the interpreter and the code under test are there."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness as h  # noqa: E402

try:
    o = h.translate("($set a 1)($a)")
except Exception as e:
    o = e
print('translate: %r' % o)
sys.exit(0)

"""Nothing is built ahead: check that the tools are there."""
import sys
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
print('z3', z3.get_version_string())

"""Nothing to compile: check that the interpreter and the modules the checks need are there."""
import os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'out', 'replay'), exist_ok=True)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
import numpy, sympy, lxml, ezdxf, rtree, yaml
print('setup ok', sys.version.split()[0])

"""Builds the tree and every harness the checks use"""
import sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import vf
b=vf.build()
print('built in',b)
import harness
for f in harness.ALL:
    print(f.__name__,f(b))

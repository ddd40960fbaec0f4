"""Build the configurations of /repo the checks use (they rebuild by themselves whenever the tree changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
vf.build(list(vf.CONFIGS))
print("built")

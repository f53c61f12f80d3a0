"""Setup: nothing is built ahead; check that the worker starts on /repo."""
import os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import vp
w = vp.Worker(["ops_counter"])
assert w.call("limits", None)["modulus"] > 0
w.close()
print("worker ok")

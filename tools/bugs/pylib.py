import sys, ctypes, gc
T = sys.argv[1]; sys.path.insert(0, T)
import pygeodiff
from pygeodiff.__about__ import __version__ as VER
stub = ctypes.CDLL(T + "/stub.so")
D = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.POINTER(ctypes.c_char_p))
rc = 0; calls = []
def _d(name, n, a): calls.append((name.decode(), [a[i] for i in range(n)])); return rc
disp = D(_d)
VERB = VER.encode()
stub.stub_setup(disp, VERB)
def ret(v):
    global rc; rc = v
def check(c, what):
    if not c: print("not true: " + what, flush=True); import os; os._exit(1)
def raised(f, *a):
    try: f(*a)
    except Exception as e: return type(e).__name__
    return None
g = pygeodiff.GeoDiff(T + "/stub.so")

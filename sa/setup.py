import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import load

for k in ("lib", "noxml", "bin"):
    print(load.dump(k))

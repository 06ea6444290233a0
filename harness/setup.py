import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

print(vlib.java_classes())
print(vlib.extension())

"""setup: the package imports and the source tree is the one under /repo"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import setup_imports
setup_imports()
print("ok")

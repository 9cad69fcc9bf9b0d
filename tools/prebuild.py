"""setup_cmd: builds the instrumented programs once (the checks rebuild whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B

PROGS = ["count", "integrate", "latte-maximize", "latte-minimize", "top-ehrhart-knapsack",
                 "latte2ine", "latte2ext", "ConvertCDDineToLatte", "triangulate", "polyhedron-to-cones", "normalize/hilbert-from-rays", "ehrhart",
                 "triangulate-boundary", "aggregate", "test-todd"]
B.build("asan", PROGS)
B.build("plain", PROGS)          # for memcheck

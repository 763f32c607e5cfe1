#!/usr/bin/env python3
"""rewrites support/eval_apply.spec from the current tree (by hand only, after reading the differences)"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from checks import G04
from vt import mesc
m = mesc.Mes()
G04.save(G04.transitions(m, *G04.extract(m)))

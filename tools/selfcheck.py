#!/usr/bin/env python3
"""setup: the tools the analyses need are present (nothing is built ahead: every check compiles from /repo itself)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import prep, ir
assert os.path.exists(prep.CLANGXX)
print("ok")

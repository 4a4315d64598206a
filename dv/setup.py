#!/usr/bin/env python3-vt
"""nothing to build ahead: checks that the tools the checks use are there"""
import os, subprocess, sys
import z3
for t in ('/usr/bin/clang-18', '/usr/bin/clang++-18', '/usr/bin/opt-18', '/usr/local/bin/z3-new', '/usr/bin/z3', '/usr/bin/cvc5', '/usr/bin/gcc', '/usr/bin/g++'):
    if not os.path.exists(t): sys.exit('missing ' + t)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('setup ok')

#!/usr/bin/env python3
"""reachability: every marked place must be reachable under the contracts (its assert(false) must fail)"""
import sys, os
a = sys.argv[1:] or ['all']
sys.path.insert(0, '/verif'); sys.argv = ['x']
import check
w = '/tmp/v/marks'; os.makedirs(w, exist_ok=True)
print(check.reachable(w, check.typemap(w), a))

#!/usr/bin/env python3
"""Builds what the checks share, so that each check starts from warm
dependencies; every check still rebuilds what it needs itself."""
import sys
sys.dont_write_bytecode = True
import vlib

for profile, san in (('checked', None), ('plain', None), ('checked', 'address')):
    try:
        vlib.build(profile, sanitizer=san)
        print('built', profile, san or '', flush=True)
    except vlib.Inconclusive as e:
        print(e)
        sys.exit(1)

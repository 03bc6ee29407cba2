#!/usr/bin/env python3
"""overlay.json for building the drivers inside the module under test"""
import json, os, sys
repo, out = sys.argv[1], sys.argv[2]
inner = len(sys.argv) > 3 and sys.argv[3] == 'inner'
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rep = {}
for f in sorted(os.listdir(os.path.join(here, 'drv'))):
    if f.endswith('.go'):
        rep[os.path.join(repo, 'verifdrv', f)] = os.path.join(here, 'drv', f)
if inner:
    for pkg in ('internal', 'netcdf/util', 'netcdf/cdf', 'netcdf/hdf5'):
        d = os.path.join(here, 'drv', 'inner', pkg)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith('.go'):
                    rep[os.path.join(repo, pkg, f)] = os.path.join(d, f)
json.dump({'Replace': rep}, open(out, 'w'))

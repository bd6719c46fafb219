#!/usr/bin/env python3
"""Record the integer constants of /repo's sources for which the partitions of the scenarios were chosen (development tool)."""
import json, os, sys, tempfile, glob, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sva import driver
w = tempfile.mkdtemp()
driver.build(['T01.cpp'], w)
c = driver.constants(sorted(glob.glob(w + '/*.ll')) and [os.path.join(w, os.path.basename(s) + '.ll') for s in sorted(glob.glob(driver.REPO + '/src/*.cpp'))])
json.dump({str(k): c[k] for k in sorted(c)}, open(H + '/sva/consts.json', 'w'), indent=0)
print(len(c), 'constants')
shutil.rmtree(w)

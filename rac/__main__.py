"""python -m rac PROPERTY --seed N --tier quick|thorough [--case ID]"""
import argparse
import json
import os
import sys

sys.path.insert(0, os.environ.get('DSCH_SRC', '/repo'))
from . import core, props  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--tier', default='quick')
ap.add_argument('--budget', type=float, default=120)
ap.add_argument('--case')
ap.add_argument('--out')
a = ap.parse_args()
res = core.run(a.prop, props.PROPS[a.prop], a.seed, a.tier, a.budget,
               only=a.case)
text = json.dumps(res, indent=1, default=repr)
if a.out:
    open(a.out, 'w').write(text)
else:
    print(text)
sys.exit(1 if res['failures'] else 0)

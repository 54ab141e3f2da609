"""writes contracts/loops.json: the loops that the loop invariants of the contracts were written for"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import loader, verify
loader.load()
names = sorted(f[:-3] for f in os.listdir(os.path.join(os.path.dirname(verify.LOOPFILE))) if f.endswith('.py') and not f.startswith('_'))
d = {c.id: verify.skeleton(c) for c in verify.load_contracts(names) if c.loops}
json.dump(d, open(verify.LOOPFILE, 'w'), indent=1)
print(len(d), [k for k, v in d.items() if not v])
os._exit(0)

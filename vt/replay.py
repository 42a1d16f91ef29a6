#!/usr/bin/env python3
"""replay FILE: rebuild the unit named in a replay file natively from /repo and feed it the recorded inputs."""
import sys, os, re, tempfile, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vt'))
import run
t = open(sys.argv[1]).read()
pid, name = re.search(r'# property (\S+) unit (\S+)', t).groups()
vals = [int(x) for x in t.splitlines() if re.match(r'^-?\d+$', x)]
udir = os.path.join(V, 'units', pid)
spec = importlib.util.spec_from_file_location('u', os.path.join(udir, 'unit.py'))
mod = importlib.util.module_from_spec(spec)
mod.TIER, mod.V, mod.REPO = 'thorough', V, run.REPO
spec.loader.exec_module(mod)
wd = tempfile.mkdtemp(prefix='vt-replay-')
try:
    tree = run.Tree(wd)
    u = [x for x in mod.UNITS if x['name'] == name]
    if not u:
        print(t)
        sys.exit(0)
    if not vals:
        print('no failing input recorded; the failed obligation and the verifier output:')
        print(t)
        sys.exit(1)
    ok, out = run.Unit(tree, udir, u[0], wd).replay(vals)
    print(out)
    print('REPRODUCED' if ok else 'not reproduced')
    sys.exit(1 if ok else 0)
finally:
    shutil.rmtree(wd, ignore_errors=True)

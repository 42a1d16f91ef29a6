#!/usr/bin/env python3
"""Runs the checks of one property: deductive verification of /repo's current source,
replay of counterexamples on the natively compiled code, evidence."""
import sys, os, json, subprocess, tempfile, shutil, time, importlib.util, re, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vt'))
import dsl
REPO = os.environ.get('VT_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = float(os.environ.get('VT_BUDGET', '760' if TIER == 'quick' else '6000'))


def left():
    return BUDGET - (time.time() - T0)


def sh(cmd, timeout=600, cwd=None, env=None, mem=None):
    """returns rc, stdout, stderr; rc None on timeout"""
    def pre():
        os.setsid()
        if mem:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, '', 'timeout'


class Tree:
    """Include path for /repo's current source: generated headers are regenerated from their
    templates in the working tree, never taken from an older build."""

    def __init__(self, d):
        self.d = d
        gp = os.path.join(d, 'gen', 'parted')
        os.makedirs(gp)
        idir = os.path.join(REPO, 'include', 'parted')
        for f in os.listdir(idir):
            if f.endswith('.in.h'):
                t = open(os.path.join(idir, f), encoding='utf8', errors='replace').read()
                t = re.sub(r' _GL_ATTRIBUTE_(CONST|PURE)\b', '', t)
                open(os.path.join(gp, f[:-5] + '.h'), 'w').write(t)
        g = os.path.join(REPO, 'libparted', 'labels', 'pt-limit.gperf')
        r = subprocess.run(['gperf', '-C', '-N', 'pt_limit_lookup', '-n', '-t', '-s', '6', '-k', '*',
                            '--language=ANSI-C', g], stdout=subprocess.PIPE)
        if r.returncode == 0:
            t = r.stdout.decode()
            t = re.sub(r'(?m)^(.*__GNUC_STDC_INLINE__.*)$', r'static\n\1', t)
            open(os.path.join(d, 'gen', 'pt-limit.c'), 'w').write(t)
        b = os.path.join(REPO, '_build')
        lib = os.path.join(b, 'lib')
        if not os.path.exists(os.path.join(lib, 'config.h')):
            lib = os.path.join(V, 'fallback', 'lib')
        self.inc = ['-I' + os.path.join(V, 'inc'), '-I' + os.path.join(d, 'gen'), '-I' + lib,
                    '-I' + REPO + '/lib', '-I' + REPO + '/include', '-I' + REPO + '/libparted/labels',
                    '-I' + REPO + '/libparted', '-I' + REPO + '/parted', '-I' + REPO]
        self.defs = ['-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-DLOCALEDIR="/nonexistent"']


GENERIC = ('pointer', 'bounds', 'overflow', 'division', 'undefined-shift', 'assigns', 'postcondition', 'precondition')


def classify(results):
    ok, fail, reach_ok, reach_bad, unwind, unknown = [], [], [], [], [], []
    for r in results:
        d, st, p = r.get('description', ''), r['status'], r['property']
        if d.startswith('REACH:'):
            (reach_ok if st == 'FAILURE' else reach_bad).append(r)
        elif 'unwind' in p or 'unwinding assertion' in d or 'recursion' in p:
            if st != 'SUCCESS':
                unwind.append(r)
        elif st == 'SUCCESS':
            ok.append(r)
        elif st == 'FAILURE' and '.no-body.' in p:
            unknown.append(r)       # a callee without contract or body: nothing is known, not a violation
        elif st == 'FAILURE':
            fail.append(r)
        else:
            unknown.append(r)
    return ok, fail, reach_ok, reach_bad, unwind, unknown


class Unit:
    def __init__(self, tree, udir, u, wd):
        self.t, self.u, self.udir = tree, u, udir
        self.name = u['name']
        self.wd = os.path.join(wd, re.sub(r'\W', '_', self.name))
        os.makedirs(self.wd)
        self.res = dict(name=self.name, status='undecided', reason='', obligations=0, discharged=0, wall=0.0,
                        solver_s=0.0, failed=[], functions=u.get('functions') or ([u['enforce']] if u.get('enforce') else []),
                        bounded=u.get('bounded'), replaced=u.get('replace', []) + [a for a, b in u.get('replace_calls', [])], backend=u.get('backend', ('SMT (%s)' % ' '.join(u['smt'])) if u.get('smt') else 'SAT (%s)' % u.get('sat', 'cadical')))

    def contracts(self):
        cs = []
        for f in self.u.get('contracts', []):
            cs += dsl.parse(open(os.path.join(self.udir, f)).read())
        return cs

    def flags(self):
        return self.t.inc + self.t.defs + ['-I' + self.udir, '-I' + self.wd] + self.u.get('defines', []) + \
            ['-I' + os.path.join(REPO, x) for x in self.u.get('inc', [])]

    def harness(self):
        return self.u.get('fn') or 'h_' + self.u['enforce']

    def prep_repo_src(self, native):
        """paths of /repo sources linked into the unit (possibly mechanically annotated with loop contracts)"""
        return [os.path.join(REPO, s) for s in self.u.get('repo', [])]

    def verify(self):
        u = self.u
        if not u.get('loops_for'):
            return self.verify1()
        r = self.verify1()
        if r['status'] == 'proved' or not u.get('fallback'):
            return r
        # the loop contract names the locals of a loop: when it does not fit the loop any more, a bounded check of the same contract decides
        why = '; '.join('%s %s' % (f['property'], f['description']) for f in r['failed'][:3]) or r['reason']
        wall, solver = r['wall'], r['solver_s']
        self.u = dict({k: v for k, v in u.items() if k != 'loops_for'}, **u['fallback'])
        r.update(status='undecided', reason='', obligations=0, discharged=0, failed=[], bounded=u['fallback']['bounded'])
        r = self.verify1()
        r['wall'] += wall
        r['solver_s'] += solver
        r['reason'] += ' (loop contract not discharged: %s)' % why
        return r

    def loop_file(self, gb):
        """CBMC loop contracts (invariant, assigns, decreases) attached to the loops of the real functions"""
        rc, o, e = sh(['goto-instrument', '--show-loops', gb], 60)
        loops = re.findall(r'Loop (\S+)\.(\d+):\s+file (.*) line (\d+) function', o or '')
        rc, o, e = sh(['goto-instrument', '--show-symbol-table', gb], 60)
        syms = re.findall(r'(?m)^Symbol\.+: (\S+)$', o or '')
        fs = {}
        for L in self.u['loops_for']:
            own = []
            for f, i, file, line in loops:
                if f == L['fn']:
                    try:
                        src = open(file).read().splitlines()[int(line) - 1]
                    except (OSError, IndexError):
                        src = ''
                    if 'PED_ASSERT' not in src and 'vt_' not in src:
                        own.append(i)
            if L.get('k', 0) >= len(own):
                return None
            mp = []
            for n in sorted(set(re.findall(r'(?<![\w.>])[A-Za-z_]\w*', ' '.join([L['assigns'], L['inv'], L.get('dec', '')])))):
                n_ = L.get('map', {}).get(n)
                c = [n_] if n_ else [x for x in syms if re.match(re.escape(L['fn']) + r'::(\S+::)?' + n + '$', x)] or [x for x in syms if x == n]
                if c:
                    mp.append('%s,%s' % (n, c[0]))
            d = dict(loop_id=own[L.get('k', 0)], assigns=L['assigns'], invariants=L['inv'], symbol_map=';'.join(mp))
            if L.get('dec'):
                d['decreases'] = L['dec']
            fs.setdefault(L['fn'], []).append(d)
        p = os.path.join(self.wd, 'loops.json')
        json.dump(dict(functions=[{f: v} for f, v in fs.items()]), open(p, 'w'))
        return p

    def verify1(self):
        u, t0 = self.u, time.time()
        r = self.res
        lim = lambda: min(u.get('timeout', 300 if TIER == 'quick' else 3000), left())
        cs = self.contracts()
        want = set([u['enforce']] if u.get('enforce') else []) | set(u.get('replace', []))
        wrap = u.get('wrap')    # Hoare-triple wrapper (requires assumed, ensures asserted) instead of dfcc
        open(os.path.join(self.wd, 'vt_contracts.h'), 'w').write(dsl.gen_native(cs) if wrap else dsl.gen_cbmc(cs, want))
        h = self.harness()
        a, b = os.path.join(self.wd, 'a.gb'), os.path.join(self.wd, 'b.gb')
        srcs = [os.path.join(self.udir, u['src'])] + [x if x.startswith('/') else os.path.join(V, x) for x in u.get('extra', [])] + self.prep_repo_src(False)
        rc, o, e = sh(['goto-cc', '-DVT_CBMC'] + (['-DVT_WRAP'] if wrap else []) + self.flags() + srcs + (['-c', '-o', a] if u.get('late') else ['--function', h, '-o', a]), lim())
        if rc != 0:
            r['reason'] = 'goto-cc: ' + (o + e)[-1500:]
            r['wall'] = time.time() - t0
            return r
        cur = a
        if u.get('remove_bodies'):
            c = os.path.join(self.wd, 'r.gb')
            rc, o, e = sh(['goto-instrument'] + sum([['--remove-function-body', f] for f in u['remove_bodies']], []) + [cur, c], lim())
            if rc == 0:
                cur = c
        if u.get('replace_calls'):  # callee contracts: calls go to the contract's body (requires asserted, effects havocked, ensures assumed)
            # a callee that no longer exists (inlined, renamed) has no contract to stand for it: its code is verified in place
            for p in u['replace_calls']:
                c = os.path.join(self.wd, 'rc-%s.gb' % p[0])
                rc, o, e = sh(['goto-instrument', '--replace-calls', '%s:%s' % p, cur, c], lim())
                if rc == 0:
                    cur = c
                else:
                    r['reason'] += 'not replaced: %s (%s) ' % (p[0], (o + e).strip()[-120:])
        if u.get('late'):       # linked after the replacement: its call through a pointer reaches a recursive function itself, whose inner calls are the contract's
            c = os.path.join(self.wd, 'l.gb')
            rc, o, e = sh(['goto-cc', '-DVT_CBMC'] + self.flags() + [cur, os.path.join(self.udir, u['late']), '--function', h, '-o', c], lim())
            if rc != 0:
                r['reason'] = 'goto-cc: ' + (o + e)[-1500:]
                r['wall'] = time.time() - t0
                return r
            cur = c
        if u.get('fptr'):       # resolve calls through operation tables before contract instrumentation
            c = os.path.join(self.wd, 'fp.gb')
            rc, o, e = sh(['goto-instrument', '--remove-function-pointers', cur, c], lim())
            if rc == 0:
                cur = c
        if (u.get('enforce') and not wrap) or u.get('replace') or u.get('loops_for'):
            cmd = ['goto-instrument'] + ([] if u.get('may_fail_malloc') else ['--no-malloc-may-fail']) + ['--dfcc', h]
            if u.get('enforce') and not wrap:
                cmd += ['--enforce-contract', u['enforce']]
            for f in u.get('replace', []):
                cmd += ['--replace-call-with-contract', f]
            if u.get('loops_for'):
                lf = self.loop_file(cur)
                if not lf:
                    r['reason'] = 'no such loop'
                    r['wall'] = time.time() - t0
                    return r
                cmd += ['--loop-contracts-file', lf, '--apply-loop-contracts']
            rc, o, e = sh(cmd + [cur, b], lim())
            if rc != 0:
                r['reason'] = 'goto-instrument: ' + (o + e)[-1500:]
                r['wall'] = time.time() - t0
                return r
            cur = b
        cmd = ['cbmc', cur, '--drop-unused-functions', '--json-ui', '--verbosity', '8'] + (u['smt'] if u.get('smt') else ['--sat-solver', os.environ.get('VT_SAT') or u.get('sat', 'cadical')]) + u.get('cbmc', [])
        if not u.get('may_fail_malloc'):
            cmd += ['--no-malloc-may-fail']
        if u.get('unwind'):
            cmd += ['--unwind', str(u['unwind'])]
        for s in u.get('unwindset', []):
            cmd += ['--unwindset', s]
        self.cmd = cmd
        groups = [[]]
        if u.get('split'):      # one solver run per group of obligations (all groups together are all obligations)
            rc, o, e = sh(cmd[:2] + [x for x in cmd[2:] if x != '--json-ui'] + ['--show-properties', '--json-ui'], lim(), mem=u.get('mem', 9000))
            names = re.findall(r'"name": "([^"]+)"', o or '')
            gs = {}
            for n in names:
                k = [i for i, x in enumerate(u['split']) if re.search(x, n)]
                gs.setdefault((k[0], n if u['split'][k[0]].endswith('$') else '') if k else None, []).append(n)
            if names:
                groups = [sum([['--property', n] for n in g], []) for g in gs.values()]
        results, msgs = [], ''
        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(lambda g: sh(cmd + g, lim(), mem=u.get('mem', 9000)), groups))
        r['wall'] = time.time() - t0
        for rc, o, e in outs:
            if rc is None:
                r['reason'] += 'solver timeout'
                return r
            try:
                js = json.loads(o)
            except ValueError:
                r['reason'] += 'cbmc output: ' + (o + e)[-800:]
                return r
            got = False
            for m in js:
                if 'result' in m:
                    results += m['result']
                    got = True
                if 'messageText' in m:
                    msgs += m['messageText'] + '\n'
            if not got:
                results = None
                break
        r['solver_s'] = sum(float(x) for x in re.findall(r'Runtime (?:decision procedure|Solver): ([\d.e-]+)s', msgs))
        if results is None:
            r['reason'] = 'cbmc gave no result: ' + msgs[-800:]
            return r
        ok, fail, rok, rbad, unw, unk = classify(results)
        ign = u.get('ignore', [])
        fail = [f for f in fail if not any(re.search(i, f['property'] + ' ' + f.get('description', '')) for i in ign)]
        r['obligations'] = len(ok) + len(fail) + len(unk)
        r['discharged'] = len(ok)
        r['reach'] = len(rok)
        if fail:
            r['status'] = 'failed'
            r['failed'] = [dict(property=f['property'], description=f.get('description', ''),
                                file=f.get('sourceLocation', {}).get('file', ''),
                                line=f.get('sourceLocation', {}).get('line', ''),
                                function=f.get('sourceLocation', {}).get('function', '')) for f in fail]
        elif unk:
            r['reason'] = 'no verdict on %d obligations: %s' % (len(unk), ', '.join(x['property'] for x in unk[:4]))
        elif unw:
            r['reason'] = 'unwinding bound reached: ' + ', '.join(x['property'] for x in unw[:4])
        elif rbad or not rok or r['obligations'] == 0:
            r['reason'] = 'vacuous: unreachable ' + ', '.join(x.get('description', '') for x in rbad[:4])
        else:
            r['status'] = 'proved' if not u.get('bounded') else 'bounded'
        return r

    def trace(self, prop):
        rc, o, e = sh(self.cmd + ['--trace', '--property', prop], min(300, left()), mem=self.u.get('mem', 9000))
        if rc is None:
            return None, 'timeout'
        try:
            js = json.loads(o)
        except ValueError:
            return None, o[-500:]
        for m in js:
            for r in m.get('result', []):
                if r['property'] == prop and 'trace' in r:
                    vals, txt = [], []
                    for s in r['trace']:
                        if s.get('stepType') == 'input' and s.get('inputID') == 'vt':
                            d = s['values'][0]
                            v = d.get('data')
                            if d.get('binary'):
                                v = int(d['binary'], 2)
                            else:
                                v = int(re.sub(r'[a-zA-Z]+$', '', str(v))) & ((1 << 64) - 1)
                            vals.append(v & ((1 << 64) - 1))
                        elif s.get('stepType') == 'failure':
                            txt.append('%s: %s' % (s.get('property'), s.get('reason')))
                    return vals, '\n'.join(txt)
        return None, 'no trace'

    def build_native(self, san=True):
        u = self.u
        cs = self.contracts()
        nd = os.path.join(self.wd, 'n' + ('s' if san else ''))
        os.makedirs(nd, exist_ok=True)
        open(os.path.join(nd, 'vt_contracts.h'), 'w').write(dsl.gen_native(cs))
        open(os.path.join(nd, 'm.c'), 'w').write('#include "%s"\nvoid vt_harness (void) { %s (); }\n' % (os.path.join(self.udir, u['src']), self.harness()))
        exe = os.path.join(nd, 'native')
        cc = ['clang' if u.get('clang') else 'gcc', '-std=gnu11', '-w', '-g', '-O1', '-DVT_NATIVE', '-fno-strict-aliasing', '-ffunction-sections', '-fdata-sections',
              '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-fno-builtin-malloc']
        if san:
            cc += ['-fsanitize=address,undefined', '-fno-sanitize=alignment,shift,vla-bound', '-fno-sanitize-recover=all']
        drv = os.path.join(nd, 'drv.o')
        rc, o, e = sh(['gcc', '-O1', '-g', '-w', '-c', os.path.join(V, 'inc', 'native_main.c'), '-o', drv], 100)
        rc, o, e = sh(cc + ['-I' + nd] + self.flags() + [os.path.join(nd, 'm.c'), drv]
                      + [x if x.startswith('/') else os.path.join(V, x) for x in u.get('extra', [])]
                      + self.prep_repo_src(True) + u.get('libs', []) + ['-o', exe], 200)
        return (exe, '') if rc == 0 else (None, (o + e)[-1500:])

    def nenv(self, save=None):
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=3:allocator_may_return_null=1'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=3'
        if save:
            env['VT_SAVE'] = save
        return env

    def replay(self, vals):
        if self.u.get('no_native'):
            return False, 'no native build of this unit (callees stand in by contract)'
        f = os.path.join(self.wd, 'in.txt')
        open(f, 'w').write('\n'.join(map(str, vals)) + '\n')
        outs = ''
        for san in (True, False):
            if not san and self.u.get('san_only'):
                continue
            exe, err = self.build_native(san)
            if not exe:
                outs += 'native build failed: ' + err
                continue
            rc, o, e = sh([exe, 'replay', f], 60, env=self.nenv())
            outs += '[%s] rc=%s %s %s\n' % ('sanitized' if san else 'plain', rc, o[-600:], e[-1200:])
            if (rc not in (0, 4, None) or 'FAILED' in o) and not re.search('pc 0x0+ ', e):
                return True, outs
        return False, outs

    def search(self, secs, seed=SEED):
        if self.u.get('no_native'):
            return False, 'no native build of this unit (callees stand in by contract)', None
        exe, err = self.build_native(True)
        if not exe:
            exe, err = self.build_native(False)
        if not exe:
            return None, 'native build failed: ' + err, None
        save = os.path.join(self.wd, 'found.txt')
        rc, o, e = sh([exe, 'search', str(secs), str(seed)], secs + 60, env=self.nenv(save))
        if re.search('pc 0x0+ ', e):    # a callee outside the unit was reached: says nothing
            return False, 'native run left the unit', None
        if 'FAILED' in o or rc not in (0, None):
            vals = [int(x) for x in open(save).read().split()] if os.path.exists(save) else []
            return True, o[-400:] + e[-1200:], vals
        return False, o[-400:], None


def main():
    pid = sys.argv[1]
    only = sys.argv[2:] and sys.argv[2] or None
    udir = os.path.join(V, 'units', pid)
    spec = importlib.util.spec_from_file_location('unit_' + pid, os.path.join(udir, 'unit.py'))
    mod = importlib.util.module_from_spec(spec)
    mod.TIER, mod.V, mod.REPO = TIER, V, REPO
    spec.loader.exec_module(mod)
    wd = tempfile.mkdtemp(prefix='vt-%s-' % pid)
    code = 3
    try:
        code = run(pid, udir, mod, wd, only)
    finally:
        if not os.environ.get('VT_KEEP'):
            shutil.rmtree(wd, ignore_errors=True)
    sys.exit(code)


def known_findings(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) unit=(\S+) obligation=(\S+) (.*)$', ln.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def run(pid, udir, mod, wd, only):
    tree = Tree(wd)
    units = [Unit(tree, udir, u, wd) for u in mod.UNITS if (not only or re.search(only, u['name']))
             and (TIER == 'thorough' or not u.get('thorough_only'))]
    units.sort(key=lambda x: -x.u.get('weight', 1))
    extra = []
    with ThreadPoolExecutor(int(os.environ.get('VT_JOBS', '8'))) as ex:
        futs = [ex.submit(x.verify) for x in units]
        if hasattr(mod, 'EXTRA'):          # other back ends (IR -> SMT); same result dictionaries
            extra = mod.EXTRA(tree, wd, TIER, SEED, only)
        for f in futs:
            f.result()
    violations = []
    known = []
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)

    def report(name, obligations, vals, found, txt, verdict):
        rp = os.path.join(V, 'replays', '%s-%s.txt' % (pid, re.sub(r'\W', '_', name)))
        with open(rp, 'w') as f:
            f.write('# property %s unit %s\n' % (pid, name))
            f.write('# replay: python3 %s/vt/replay.py %s\n' % (V, rp))
            for ob in obligations:
                f.write('# failed obligation: %s\n' % json.dumps(ob))
            f.write('# %s\n' % verdict)
            for ln in (txt or '').splitlines():
                f.write('#   ' + ln + '\n')
            for v in vals or []:
                f.write('%d\n' % v)
        violations.append((name, rp, found))

    for x in units:
        r = x.res
        if r['status'] == 'failed':
            kf = known_findings(pid)
            rest = []
            for ob in r['failed']:
                hit = [k for k in kf if k[0] == x.name and k[1] == ob['property']]
                if hit:
                    known.append(hit[0])
                else:
                    rest.append(ob)
            if not rest:
                r['status'] = 'known-finding'
                continue
            done = False
            logtxt = ''
            for ob in rest[:6]:
                if left() < 60:
                    break
                vals, txt = x.trace(ob['property'])
                if vals is None:
                    logtxt += 'no trace for %s: %s\n' % (ob['property'], txt)
                    continue
                good, out = x.replay(vals)
                logtxt += '%s: %s' % (ob['property'], out)
                if good:
                    report(x.name, [ob], vals, True, out, 'counterexample reproduced on the natively compiled code')
                    done = True
                    break
            if not done:
                secs = min(40 if TIER == 'quick' else 300, max(5, left() - 60))
                found, out, vals = x.search(secs)
                if found:
                    report(x.name, rest, vals, True, logtxt + out, 'failing input found by native search over the contract')
                else:
                    report(x.name, rest, None, False, logtxt + str(out), 'obligation not discharged; no failing input found')
        elif r['status'] == 'undecided':
            secs = min(30 if TIER == 'quick' else 300, left() - 20)
            found, out, vals = x.search(secs) if secs >= 5 else (False, 'no time left for native search', None)
            r['fallback'] = out
            if found:
                report(x.name, [], vals, True, out, 'verifier undecided (%s); failing input found by native search over the contract' % r['reason'])
            elif found is None:
                r['status'] = 'error'
            else:
                r['status'] = 'explored'
        elif TIER == 'thorough' and not x.u.get('no_native'):
            secs = min(x.u.get('native_s', 20), max(1, left() - 60))
            if left() > 90:
                found, out, vals = x.search(secs)
                r['cross_check'] = out if found is not None else 'not built'
                if found:
                    report(x.name, [], vals, True, out, 'native cross-check of the contract failed')
    for r in extra:
        if r['status'] == 'failed':
            rp = os.path.join(V, 'replays', '%s-%s.txt' % (pid, re.sub(r'\W', '_', r['name'])))
            with open(rp, 'w') as f:
                f.write('# property %s unit %s\n' % (pid, r['name']))
                f.write('# failed obligations: %s\n' % json.dumps(r['failed']))
                f.write('# ' + '\n# '.join(r.get('replay_text', '').splitlines()) + '\n')
            violations.append((r['name'], rp, bool(r.get('confirmed'))))
    allr = [x.res for x in units] + extra
    write_evidence(pid, mod, allr, violations)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    for r in allr:
        print('%-44s %-10s obligations=%d discharged=%d wall=%.1fs %s' % (r['name'], r['status'], r['obligations'], r['discharged'], r['wall'], r['reason'][:200].replace('\n', ' ')))
        if r['status'] == 'failed':
            for ob in r['failed'][:3]:
                print('    failed obligation: %s' % json.dumps(ob))
    for n, rp, found in violations:
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if found else ' no-failing-input-found'))
    if violations:
        return 1
    if any(r['status'] == 'error' for r in allr):
        print('error: neither verifier nor native exploration could be run for some unit')
        return 2
    return 0


def write_evidence(pid, mod, allr, violations):
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    # units with a stated bound are counted separately, never as proved
    ob = sum(r['obligations'] for r in allr if not r['bounded'])
    di = sum(r['discharged'] for r in allr if not r['bounded'])
    proved = [r for r in allr if r['status'] == 'proved']
    bounded = [r for r in allr if r['status'] == 'bounded']
    expl = [r for r in allr if r['status'] in ('explored', 'error')]
    ev = dict(property=pid, tier=TIER, seed=SEED, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(
                  obligations=ob, discharged=di,
                  proved_units=len(proved), bounded_units=len(bounded),
                  bounded_obligations=sum(r['obligations'] for r in allr if r['bounded']),
                  bounded_discharged=sum(r['discharged'] for r in bounded),
                  explanation='Each unit runs the real functions against contracts; obligations/discharged count the units without a bound (%d proved), '
                              'bounded_obligations/bounded_discharged the units with a stated bound (%d: every obligation decided for all inputs inside the bound given in the unit entry).' % (len(proved), len(bounded)),
                  checker_cmd=getattr(mod, 'CHECKER', 'goto-cc; goto-instrument --dfcc --enforce-contract/--replace-call-with-contract; cbmc (SAT)'),
                  trusted_base=getattr(mod, 'TRUSTED', []),
                  functions_under_contract=sorted(set(sum([r['functions'] for r in allr if r['status'] in ('proved', 'bounded')], []))),
                  units=[dict(unit=r['name'], status=r['status'], functions=r['functions'], obligations=r['obligations'],
                              discharged=r['discharged'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall'], 2), backend=r['backend'],
                              bound=r['bounded'], callees_replaced_by_contract=r['replaced'], reachability_checks=r.get('reach', 0),
                              reason=r['reason'][:400], fallback=r.get('fallback', ''), cross_check=r.get('cross_check', '')) for r in allr],
                  not_decided_by_verifier=[r['name'] for r in expl]),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - T0, 2),
              violations=len(violations))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()

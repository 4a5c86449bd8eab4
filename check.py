#!/usr/bin/env python3
"""One property: contracts extracted from /repo's current source, discharged by Verus; refused obligations replayed natively.

  check.py Cxx            quick (VERIF_TIER=thorough: longer native search, more solver effort)
  check.py --baseline     rewrites contracts/baseline.json (loop shapes of the functions under contract)
  check.py --status       all obligations, by function
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, '.build')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
T0 = time.time()
VERUS = shutil.which('verus') or '/opt/veriftools/verus/verus'

def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'

def env(target):
    e = dict(os.environ)
    e['CARGO_TARGET_DIR'] = os.path.join(B, target)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.pop('RUSTFLAGS', None)
    return e

def build_vx():
    rc, o, e = sh(['cargo', 'build', '--offline', '-q'], 600, cwd=os.path.join(V, 'vx'), env=env('vx'))
    if rc:
        print('cannot build the extractor:\n' + e[-3000:])
        sys.exit(2)
    return os.path.join(B, 'vx', 'debug', 'vx')

def build_replay():
    """the native oracle; without the internal parts if those no longer compile"""
    last = ''
    for feats in (['--features', 'internal'], []):
        rc, o, e = sh(['cargo', 'build', '--release', '--offline', '-q'] + feats, 600, cwd=os.path.join(V, 'replay'), env=env('replay'))
        if rc == 0:
            return os.path.join(B, 'replay', 'release', 'replay'), bool(feats)
        last = e
    print('cannot build the native oracle on the crate:\n' + last[-3000:])
    return None, False

# ---------------------------------------------------------------- verification
VERIF_MSG = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic',
             'possible division', 'possible bit shift', 'decreases not satisfied', 'unable to prove', 'could not prove', 'recommendation not met', 'constant may not', 'loop invariant',
             'requires not satisfied', 'unreachable', 'assertion not satisfied', 'failed this', 'ensures not satisfied', 'not satisfied')
C02_MSG = ('possible arithmetic', 'possible division', 'possible bit shift', 'unreachable')

class Run:
    pass

def skeleton(src):
    """the shape of the loops and iterator chains of a function, without names, values and operators"""
    t = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z0-9_]*|\d[\w.]*|::|=>|\.\.=?|[^\sA-Za-z0-9_]', src)
    out = []
    opens = []  # of each open brace, where it was written: braces with a loop inside are part of the shape
    chain = ('map', 'fold', 'for_each', 'filter', 'zip', 'enumerate', 'iter', 'iter_mut', 'into_iter', 'chunks_exact', 'chunks_exact_mut', 'sum', 'any', 'all', 'rposition', 'position',
             'skip', 'take', 'rev', 'copied', 'cloned', 'flat_map', 'flatten', 'and_then', 'collect', 'foreach_sample', 'foreach_sample_zipped', 'foreach_frame', 'windows', 'count', 'filter_map', 'take_while',
             'skip_while', 'step_by', 'fill', 'min', 'max', 'last', 'find', 'scan', 'chain', 'retain', 'drain', 'extend', 'partition', 'partition_point', 'binary_search_by')
    i = 0
    while i < len(t):
        w = t[i]
        if w == 'for' and i + 1 < len(t) and t[i + 1] != '<':
            j, d, h = i + 1, 0, []
            while j < len(t) and not (t[j] == '{' and d == 0):
                d += t[j] in '([' 
                d -= t[j] in ')]'
                h.append(t[j])
                j += 1
            s = ' '.join(h)
            out.append('for ' + ('range' if re.search(r'\.\.', s.split(' in ', 1)[-1]) and '[' not in s.split(' in ', 1)[-1] else 'iter'))
        elif w in ('while', 'loop'):
            out.append(w)
        elif w == '{':
            opens.append(len(out))
            out.append('{')
        elif w == '}' and opens:
            k = opens.pop()
            if len(out) == k + 1:
                out.pop()
            else:
                out.append('}')
        elif w in ('min', 'max', 'take') and i > 0 and t[i - 1] in ('.', '::') and (t[i + 1:i + 3] == ['(', ')']) != (w != 'take'):
            pass  # of two numbers, of an option: no iterator
        elif w in chain and i > 0 and t[i - 1] in ('.', '::') :
            out.append('.' + w)
        i += 1
    return out

# builds that differ by a cfg from the one verified: they must give the same code but for these functions, which have contracts of their own
VARIANTS = {'precision-true-peak': (['precision-true-peak'], {'utils::f32.SampleAccumulator::scale_add': 'precise::f32.SampleAccumulator::scale_add'}),
            'release without features': (['-internal-tests', '-capi', '-debug_assertions'], {})}

def extract(vx, tag, assume, cfg=()):
    d = os.path.join(B, 'gen_' + tag)
    os.makedirs(d, exist_ok=True)
    out, mp = os.path.join(d, 'all.rs'), os.path.join(d, 'map.json')
    cmd = [vx, '--repo', REPO, '--specs', os.path.join(V, 'contracts'), '--out', out, '--map', mp]
    for a in sorted(assume):
        cmd += ['--assume', a]
    for c in cfg:
        cmd += ['--cfg', c]
    rc, o, e = sh(cmd, 120)
    if rc or not os.path.exists(mp):
        return None, None, (o + e)[-3000:]
    return out, json.load(open(mp)), ''

def verus(out, extra, timeout):
    cmd = [VERUS, os.path.basename(out), '--triggers-mode', 'silent', '--multiple-errors', '4', '--num-threads', '8', '--output-json', '--time-expanded', '--error-format=json'] + extra
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(out))
    try:
        js = json.loads(o[o.index('{'):])
    except ValueError:
        js = {}
    diags = []
    for l in e.splitlines():
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return rc, js, diags, ' '.join(cmd), e

def entry_at(m, line, kinds=('fn',)):
    for x in m['entries']:
        if x['kind'] in kinds and x.get('lines') and x['lines'][0] <= line <= x['lines'][1]:
            return x
    return None

def again_alone(out, m, fn, tier, rlimit):
    """the solver gave up on a function: once more its module alone, other seed, three times the resources"""
    rc, js, diags, cmd, raw = verus(out, ['--verify-only-module', fn['module'], '--rlimit', str(3 * (rlimit or (60 if tier == 'thorough' else 20))), '--smt-option', 'smt.random_seed=7'], 300)
    if not js.get('verification-results') or js['verification-results'].get('encountered-vir-error'):
        return False
    return not any(entry_at(m, s['line_start']) is fn for d in diags if d.get('level') == 'error' for s in d['spans'] if s['file_name'].endswith('all.rs'))

def texts(out, m):
    ls = open(out).read().splitlines()
    return {x['name']: '\n'.join(ls[x['lines'][0] - 1:x['lines'][1]]) for x in m['entries'] if x['kind'] == 'fn' and x.get('lines')}

def verify_all(vx, tag, tier):
    """the usual build, and the others as far as their code is not the same"""
    r = verify(vx, tag, tier)
    r.variants = {}
    if r.map is None or r.all_undecided:
        return r
    here = texts(*extract(vx, tag + '_a', {})[:2])
    for n, (cfg, known) in VARIANTS.items():
        out, m, err = extract(vx, tag + '_v', {}, cfg)
        if m is None:
            r.variants[n] = 'no extraction'
            continue
        there = texts(out, m)
        diff = sorted(k for k in here if there.get(k) != here[k] and k not in known)
        r.variants[n] = 'same code but for ' + ', '.join(known.values()) if known else 'same code'
        if diff:
            v = verify(vx, tag + '_v', tier, cfg=cfg, assume={k: 'own contract' for k in known})
            r.variants[n] = 'differs in %s: verified as well, %d obligations refused' % (', '.join(diff), len(v.failed))
            if v.map is None or v.all_undecided:
                r.variants[n] = 'differs in %s: not decided' % ', '.join(diff)
                continue
            for f in v.failed:
                if f['fn'] in diff and not any(g['fn'] == f['fn'] for g in r.failed):
                    f['at'] = '[build %s] ' % n + f['at']
                    r.failed.append(f)
            for k, w in v.undecided.items():
                r.undecided.setdefault(k, '[build %s] ' % n + w)
    return r

def verify(vx, tag, tier, rlimit=None, cfg=(), assume=None):
    """-> Run: map, failed obligations, undecided functions"""
    r = Run()
    r.assume, r.undecided, r.failed, r.lemma_failed = dict(assume or {}), {}, [], []
    r.note = ''
    computed, retried = {}, {}
    r.smt_ms, r.verified, r.errors = 0, 0, 0
    r.funcs = []
    for attempt in range(12):
        out, m, err = extract(vx, tag, r.assume, cfg)
        if m is None:
            r.map, r.note = None, 'extraction failed: ' + err
            return r
        r.map, r.out = m, out
        lines = open(out).read().splitlines()
        for x in m['entries']:
            if x['kind'] == 'missing':
                r.undecided.setdefault(x['name'], 'no longer in the source under this name')
            elif x['kind'] == 'fn' and x.get('unsupported') and x['name'] not in r.assume:
                r.undecided.setdefault(x['name'], 'outside of the extractable subset: ' + '; '.join(map(str, x['unsupported']))[:300])
        new = [n for n in r.undecided if any(x['kind'] == 'fn' and x['name'] == n and not x['assumed'] for x in m['entries'])]
        if new:
            for n in new:
                r.assume[n] = r.undecided[n]
            continue
        rc, js, diags, r.cmd, raw = verus(out, ['--rlimit', str(rlimit or (60 if tier == 'thorough' else 20))], 1500 if tier == 'thorough' else 500)
        errs = [d for d in diags if d.get('level') == 'error' and not d['message'].startswith('aborting due')]
        vr = js.get('verification-results', {})
        if not vr and not errs:
            r.map, r.note = None, 'the verifier gave no result: ' + raw[-1500:]
            return r
        r.verified, r.errors = vr.get('verified', 0), vr.get('errors', 0)
        r.smt_ms = js.get('times-ms', {}).get('smt', {}).get('total', 0)
        r.funcs = [f for mod in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []) for f in mod.get('function-breakdown', [])]
        r.failed, again, unattr = [], False, []
        parse = [d for d in errs if d['message'].startswith('expected ') and any(x['file_name'].endswith('all.rs') and entry_at(m, x['line_start']) for x in d['spans'])]
        for d in parse or errs:  # what cannot be parsed hides the rest of its module
            msg = d['message']
            sp = [s for s in d['spans'] if s['file_name'].endswith('all.rs')]
            foreign = [s for s in d['spans'] if not s['file_name'].endswith('all.rs')]
            prim = [s for s in sp if s['is_primary']] or sp
            fn = None
            for s in prim + sp:
                fn = fn or entry_at(m, s['line_start'])
            isv = any(k in msg for k in VERIF_MSG) and not vr.get('encountered-vir-error')
            if fn and not fn['src'] and ('simplif' in msg or isv):
                # a fact about all entries of a table, evaluated by the verifier: false
                if fn['name'] not in computed:
                    computed[fn['name']] = {'fn': fn['name'], 'file': fn['file'], 'src_line': 1, 'msg': 'computed to false: ' + msg, 'tags': sorted(fn['props']), 'at': lines[prim[0]['line_start'] - 1].strip()[:200],
                                            'clause': ' '.join(l.strip() for l in lines[fn['lines'][0] - 1:fn['lines'][1]])[:300], 'rendered': d.get('rendered', '')}
                    r.assume[fn['name']] = msg
                    again = True
                continue
            rl = 'rlimit' in msg.lower() or 'resource limit' in msg.lower()
            if fn and rl and fn['name'] not in retried:
                retried[fn['name']] = again_alone(out, m, fn, tier, rlimit)
            if fn and rl and retried[fn['name']]:
                continue
            if fn and (rl or not isv):
                if fn['name'] not in r.assume:
                    why = ('the solver gave up: ' if rl else 'not accepted by the verifier: ') + msg[:200]
                    r.assume[fn['name']] = why
                    r.undecided[fn['name']] = why
                    again = True
                continue
            if not fn or not isv:
                unattr.append(d)
                continue
            tags, clause = set(), ''
            for s in sp:
                own = entry_at(m, s['line_start'])
                for ln in range(s['line_start'], s['line_end'] + 1):
                    t = re.search(r'//# ([C0-9 ]+)', lines[ln - 1])
                    if t:
                        tags |= set(t.group(1).split())
                        clause = clause or lines[ln - 1].strip()
            inpre = [s for s in sp if not entry_at(m, s['line_start']) and (entry_at(m, s['line_start'], ('raw',)) or {}).get('module') in ('pre', 'fl')]
            if any(k in msg for k in C02_MSG):
                tags = {'C02'}
            elif msg.startswith('precondition') and (foreign or inpre) and not [s for s in sp if entry_at(m, s['line_start']) not in (fn, None)]:
                tags = {'C02'}
            elif msg.startswith('precondition'):
                tags |= {'C02'} | set(fn['props'])
            elif not tags:
                tags = set(fn['props'])
            s0 = prim[0] if prim else {'line_start': 0}
            r.failed.append({'fn': fn['name'], 'file': fn['file'], 'src_line': fn['src_line'], 'msg': msg, 'tags': sorted(tags),
                             'at': lines[s0['line_start'] - 1].strip()[:200] if s0['line_start'] else '', 'clause': clause[:300] or next((lines[s['line_start'] - 1].strip()[:300] for s in sp if not s['is_primary']), ''),
                             'rendered': d.get('rendered', '')})
        if again:
            continue
        if unattr:
            r.lemma_failed = [d['message'] + ' ' + '; '.join('%s:%d' % (os.path.basename(s['file_name']), s['line_start']) for s in d['spans']) for d in unattr]
            if vr.get('encountered-vir-error') or not vr:
                r.map_ok = False
                r.note = 'not accepted by the verifier outside of the extracted functions: ' + '; '.join(r.lemma_failed)[:800]
                r.all_undecided = True
                return r
        r.all_undecided = False
        if r.failed:
            # an obligation counts as refused only if the solver refuses it twice, the second time along another path
            rc, js2, diags2, cmd2, raw2 = verus(out, ['--rlimit', str(2 * (rlimit or (60 if tier == 'thorough' else 20))), '--smt-option', 'smt.random_seed=11'], 1500 if tier == 'thorough' else 300)
            if js2.get('verification-results'):
                twice = set()
                for d in diags2:
                    if d.get('level') == 'error':
                        for s in d['spans']:
                            x = entry_at(m, s['line_start']) if s['file_name'].endswith('all.rs') else None
                            if x:
                                twice.add(x['name'])
                r.unstable = sorted({f['fn'] for f in r.failed} - twice)
                r.failed = [f for f in r.failed if f['fn'] in twice]
        r.failed += computed.values()
        return r
    r.note = 'no stable extraction'
    r.all_undecided = True
    return r

def baseline():
    p = os.path.join(V, 'contracts', 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def shape_changed(r, name):
    b = baseline().get(name)
    x = next((x for x in r.map['entries'] if x['kind'] == 'fn' and x['name'] == name), None)
    if b is None or x is None:
        return None
    now = {'loops': skeleton(x['src']), 'inlined': sorted(map(str, x['inlined']))}
    if now['loops'] != b['loops']:
        return 'its loops are written differently'
    if now['inlined'] != b['inlined']:
        return 'it calls other helpers'
    return None

def fn_props(x):
    return set(x.get('props') or [])

def clause_count(lines, x):
    """requires/ensures/invariant clauses with a property tag in a function"""
    return sum(1 for l in lines[x['lines'][0] - 1:x['lines'][1]] if '//#' in l)

def theorems(prop, r):
    """lemmas about the specifications, not about the code: their doc comments begin with the properties"""
    done = {f['function'].split('::', 1)[-1]: f.get('success', True) for f in r.funcs}
    out = []
    d = os.path.join(V, 'contracts')
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.vspec'):
            mod = ''
            text = open(os.path.join(d, fn)).read()
            for m in re.finditer(r'^@module (\w+)|((?:^/// .*\n)+)^pub proof fn (\w+)', text, re.M):
                if m.group(1):
                    mod = m.group(1)
                    continue
                doc = ' '.join(l[4:] for l in m.group(2).splitlines())
                t = re.match(r'((?:C\d\d ?)+): *(.*)', doc)
                if t and prop in t.group(1).split():
                    ok = [v for n, v in done.items() if n == mod + '::' + m.group(3)]
                    out.append({'lemma': mod + '::' + m.group(3), 'states': t.group(2), 'status': 'discharged' if all(ok) else 'not discharged'})
    return out

def native(rp, internal, prop, seed, budget, out):
    d = os.path.join(V, 'contracts', 'directed.txt')
    cmd = [rp, 'search', '--prop', prop, '--seed', str(seed), '--budget', str(budget), '--out', out]
    if os.path.exists(d):
        cmd += ['--directed', d]
    rc, o, e = sh(cmd, budget * 2 + 60)
    if rc and not re.search(r'^FAIL ', o, re.M):
        rc, o, e = sh(cmd, budget * 2 + 60)  # killed or aborted: not believed unless it happens again
    st = re.search(r'CASES (\d+) NONTRIVIAL (\d+) SAMPLE (.*)', o)
    res = {'cases': int(st.group(1)) if st else 0, 'nontrivial': int(st.group(2)) if st else 0, 'sample': st.group(3)[:800] if st else ''}
    f = re.search(r'^FAIL \S+ (.*)', o, re.M)
    if f:
        res['fail'] = f.group(1)
    elif rc not in (0,):
        # killed or aborted while running the crate
        res['fail'] = 'the process died (exit %d) while running the crate: %s' % (rc, e[-300:].replace('\n', ' '))
        with open(out, 'w') as h:
            h.write('# property %s\n# %s\n# rerun: %s\n' % (prop, res['fail'], ' '.join(cmd)))
    return res

TRUST = json.load(open(os.path.join(V, 'contracts', 'trust.json'))) if os.path.exists(os.path.join(V, 'contracts', 'trust.json')) else {}

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    os.makedirs(B, exist_ok=True)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if sys.argv[1] in ('--baseline', '--status'):
        r = verify(build_vx(), 'base', tier)
        if sys.argv[1] == '--baseline':
            b = {x['name']: {'loops': skeleton(x['src']), 'inlined': sorted(map(str, x['inlined']))} for x in r.map['entries'] if x['kind'] == 'fn'}
            json.dump(b, open(os.path.join(V, 'contracts', 'baseline.json'), 'w'), indent=0, sort_keys=True)
        print('verified', r.verified, 'errors', r.errors, 'undecided', r.undecided, r.note)
        for f in r.failed:
            print(f['fn'], f['tags'], f['msg'], '|', f['at'], '|', f['clause'])
        for l in r.lemma_failed:
            print('unattributed', l)
        return 0
    prop = sys.argv[1]
    import threading
    box = {}
    th = threading.Thread(target=lambda: box.update(rp=build_replay()))
    th.start()
    vx = build_vx()
    th.join()
    rp, internal = box['rp']
    if rp is None:
        return 2
    import props
    P = props.PROPS[prop]
    r = verify_all(vx, prop, tier)
    rep = os.path.join(B, 'replays')
    os.makedirs(rep, exist_ok=True)
    rfile = os.path.join(rep, prop + '.txt')
    if os.path.exists(rfile):
        os.remove(rfile)
    lost = r.map is None or r.all_undecided
    mine, undec, hard = [], {}, []
    if not lost:
        gen = open(r.out).read().splitlines()
        tagged = lambda x: x.get('lines') and any(re.search(r'//# .*\b%s\b' % prop, l) for l in gen[x['lines'][0] - 1:x['lines'][1]])
        mine = [x for x in r.map['entries'] if x['kind'] == 'fn' and (prop in fn_props(x) or tagged(x))]
        names = {x['name'] for x in mine} | {n for n in r.undecided if prop in P.get('fns', {}).get(n, [prop] if not P.get('fns') else [])}
        undec = {n: w for n, w in r.undecided.items() if n in names}
        for f in r.failed:
            if prop in f['tags']:
                why = shape_changed(r, f['fn'])
                if why:
                    undec.setdefault(f['fn'], 'refused (%s), but %s' % (f['msg'], why))
                    f['soft'] = True
                hard.append(f)
    for w in props.suspicion(prop, REPO):
        undec[w.split(': ', 1)[-1]] = w
    budget = P.get('budget', 8)
    if hard or undec or lost:
        budget = max(budget, 90)
    elif r.failed or r.undecided or r.lemma_failed:
        budget = max(budget, 45)  # something else than this property's obligations is refused: it may show here as well
    if tier == 'thorough':
        budget = max(budget, 240)
    out = os.path.join(rep, prop + '.case')
    if os.path.exists(out):
        os.remove(out)
    nat = native(rp, internal, prop, seed, budget, out)
    extra = props.extra(prop, tier, REPO, V, B) if hasattr(props, 'extra') else []
    verdict, line = 0, ''
    oblig = '\n'.join('# refused obligation of %s (%s:%s): %s\n#   at: %s\n#   clause: %s\n%s' % (
        f['fn'], f['file'], f['src_line'], f['msg'], f['at'], f['clause'], '\n'.join('# | ' + l for l in f['rendered'].splitlines())) for f in hard)
    bad = [x for x in extra if x.get('fail')]
    if 'fail' in nat:
        body = open(out).read() if os.path.exists(out) else ''
        open(rfile, 'w').write(body + '\n# re-run: %s run %s\n' % (os.path.relpath(rp, V), rfile) + oblig + '\n')
        print('found on the real code: ' + nat['fail'])
        verdict, line = 1, 'VIOLATION property=%s replay=%s' % (prop, rfile)
    elif bad:
        open(rfile, 'w').write('# property %s\n' % prop + '\n'.join('# %s: %s\n%s' % (x['name'], x['fail'], x.get('output', '')) for x in bad))
        print('\n'.join(x['name'] + ': ' + x['fail'] for x in bad))
        verdict, line = 1, 'VIOLATION property=%s replay=%s' % (prop, rfile) + ('' if all(x.get('input') for x in bad) else ' no-failing-input-found')
    elif [f for f in hard if not f.get('soft')]:
        open(rfile, 'w').write('# property %s\n# verifier: %s\n' % (prop, r.cmd) + oblig + '\n')
        verdict, line = 1, 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rfile)
    for f in hard:
        print('refused obligation: %s (%s:%s): %s | %s | %s%s' % (f['fn'], f['file'], f['src_line'], f['msg'], f['at'], f['clause'], '  [rewritten function: the bounded search decides]' if f.get('soft') else ''))
    for n, w in undec.items():
        print('undecided, bounded search instead: %s: %s' % (n, w))
    if lost:
        print('verification not possible, bounded search instead: ' + r.note)
    write_evidence(prop, P, tier, seed, r, lost, mine, undec, hard, nat, budget, internal, extra, verdict)
    if line:
        print(line)
    else:
        print('OK %s: %d functions under contract, %d undecided; native search: %d cases (%d non-trivial) in %d s' % (prop, len(mine), len(undec), nat['cases'], nat['nontrivial'], budget))
    return verdict

def write_evidence(prop, P, tier, seed, r, lost, mine, undec, hard, nat, budget, internal, extra, verdict):
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    cov = {}
    bad = {f['fn'] for f in hard}
    queries = {}
    for f in r.funcs:
        n = f['function'].split('::', 1)[1] if '::' in f['function'] else f['function']
        queries[n] = f
    fns = []
    mods = set()
    if not lost:
        lines = open(r.out).read().splitlines()
        for x in mine:
            mods.add(x['module'])
            fns.append({'function': x['name'], 'at': 'src/%s:%s' % (x['file'], x['src_line']), 'tagged_clauses': clause_count(lines, x),
                        'status': 'assumed (undecided)' if x['assumed'] else ('refused' if x['name'] in bad else 'discharged'),
                        'rewriting': x['rules'], 'inlined': x['inlined']})
        own = [f for n, f in queries.items() if n.split('::')[0] in mods]
        cov['obligations'] = len(own) + len(undec)
        cov['discharged'] = sum(1 for f in own if f.get('success', True) and f['function'].split('::', 1)[-1] not in bad)
        cov['theorems'] = theorems(prop, r)
        cov['clauses'] = sum(x['tagged_clauses'] for x in fns)
        cov['smt_time_ms'] = sum(f.get('time', 0) for f in own)
        cov['all_modules_verified'] = r.verified
    else:
        cov['obligations'] = 0
        cov['discharged'] = 0
    cov['checker_cmd'] = getattr(r, 'cmd', '') or 'verus'
    cov['back_end'] = 'Verus 0.2026.09.13 / Z3'
    cov['functions_under_contract'] = fns
    cov['undecided'] = undec
    cov['note'] = r.note
    cov['trusted_base'] = [t for t in TRUST.get('all', [])] + [t for m in sorted(mods) for t in TRUST.get(m, [])] + P.get('trust', [])
    cov['bounded'] = {'what': P.get('bounded', 'native search of call sequences on the real crate against an independent reference'), 'seconds': budget, 'internal_parts': internal,
                      'evaluations': nat['cases'], 'distinct_nontrivial': nat['nontrivial'], 'sample': nat['sample'], 'counted_as_proved': False}
    cov['evaluations'] = nat['cases']
    cov['distinct_nontrivial'] = nat['nontrivial']
    cov['rule'] = 'random sequences of API calls (configuration, reset, add, seed, queries; sizes around block boundaries); non-trivial: feeds at least one frame and makes more than two calls; every case has its own signal seed'
    cov['samples'] = [nat['sample']]
    cov['explanation'] = P.get('note', '')
    cov['other_builds'] = r.variants if not lost else {}
    cov['other_engines'] = [{k: v for k, v in x.items() if k != 'output'} for x in extra]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov, 'assumptions': cov['trusted_base'], 'wall_s': round(time.time() - T0, 1), 'violations': verdict}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    sys.exit(main())

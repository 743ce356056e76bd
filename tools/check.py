#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--replay FILE]

1. vx extracts the functions under contract from /repo/src and weaves the
   contracts of units/*/overlay.vx into them; Verus discharges every obligation.
2. The concrete harness (harness/, linked against /repo) searches for a failing
   input; it confirms what the verifier reports, and stands in (bounded) for
   functions that have come out of the verifier's reach.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LISO_REPO', '/repo')
B = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN
T0 = time.time()
def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, errors='replace', text=True)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return 124, d(x.stdout), d(x.stderr)
class Lock:
    def __init__(s, name): os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, name + '.lock'), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()

VX = os.path.join(B, 'vx/debug/vx')
LV = os.path.join(B, 'harness/debug/lv')
def build_vx():
    with Lock('vx'):
        rc, o, e = run(['cargo', 'build', '--offline', '--quiet'], 600, {'CARGO_TARGET_DIR': os.path.join(B, 'vx'), 'RUSTFLAGS': ''}, os.path.join(V, 'vx'))
    if rc != 0: raise SystemExit('vx does not build:\n' + e)
GEN = [('src/worker.rs', 'tty_worker', 'TtyState', 'ttystate_tty_worker.rs'), ('src/term/cross.rs', 'new', 'Crossterminal', 'crossterminal_new.rs'),
       ('src/term/vt52.rs', 'new', 'Vt52', 'vt52_new.rs'), ('src/lib.rs', 'new', 'InputOutput', 'inputoutput_new.rs')]
def build_harness():
    """builds the concrete harness against /repo's working tree; returns an error text or None"""
    with Lock('harness'):
        gen = os.path.join(B, 'gen'); os.makedirs(gen, exist_ok=True)
        for f, fn, ty, out in GEN:
            rc, o, e = run([VX, '--structexpr', os.path.join(REPO, f), fn, ty], 60)
            p = os.path.join(gen, out)
            if rc != 0 or not o.strip(): o = open(os.path.join(V, 'hooks/fallback', out)).read()
            if not os.path.exists(p) or open(p).read() != o: open(p, 'w').write(o)
        src = os.path.join(V, 'harness')
        if REPO != '/repo':
            src = os.path.join(B, 'harness-src'); shutil.rmtree(src, ignore_errors=True); shutil.copytree(os.path.join(V, 'harness'), src)
            t = open(src + '/Cargo.toml').read().replace('"/repo"', '"%s"' % REPO); open(src + '/Cargo.toml', 'w').write(t)
        env = {'LISO_VERIF_DIR': os.path.join(V, 'hooks'), 'LISO_VERIF_GEN': gen, 'RUSTFLAGS': '--cfg liso_verif', 'CARGO_TARGET_DIR': os.path.join(B, 'harness')}
        # cargo looks at modification times, which copies of the tree may not keep
        st = hashtree([os.path.join(REPO, 'src'), os.path.join(V, 'hooks'), gen, os.path.join(V, 'harness/src'), os.path.join(REPO, 'Cargo.toml')])
        stamp = os.path.join(B, 'harness.stamp')
        if os.path.exists(LV) and os.path.exists(stamp) and open(stamp).read() == st: return None
        if os.path.exists(stamp): os.remove(stamp)
        if os.path.exists(LV): os.remove(LV)
        for d in glob.glob(os.path.join(B, 'harness/debug/.fingerprint/l*-*')):
            if os.path.basename(d).startswith(('liso-', 'lv-')): shutil.rmtree(d, ignore_errors=True)
        rc, o, e = run(['cargo', 'build', '--offline', '--quiet'], 600, env, src)
        if rc != 0: return e
        open(stamp, 'w').write(st)
        return None
def hashtree(paths):
    import hashlib
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs: h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

# ---------------------------------------------------------------- proof

OBLIGATION = re.compile(r'not satisfied|assertion (failed|failure)|possible (arithmetic|division|bit shift)|overflow|resource limit|rlimit|decrease|might not be allowed|unreachable|failed this|cannot (show|prove)|recommendation|termination', re.I)
class Unit:
    """One run of vx and Verus."""
    def __init__(s, name, work):
        s.name = name; s.work = os.path.join(work, name); os.makedirs(s.work, exist_ok=True)
        s.trusted = []        # functions out of reach in this tree
        s.failures = []       # (function, properties, message, rendered, decided)
        s.undecided = []      # (function or None, reason)
        s.fns = []; s.obl = {}; s.verified = 0; s.smt_ms = 0; s.cmds = []; s.ok = False; s.base = []; s.perfn = {}
    def extract(s):
        cmd = [VX, os.path.join(V, 'units', s.name, 'overlay.vx'), REPO, s.rs, s.js, '--baseline', os.path.join(V, 'units', s.name, 'baseline')]
        for t in s.trusted: cmd += ['--trust', t]
        rc, o, e = run(cmd, 120)
        if rc != 0: return (o + e).strip() or 'vx failed'
        d = json.load(open(s.js)); s.fns = d['fns']; s.tags = {int(k): v for k, v in d['tags'].items()}
        s.src = open(s.rs).read().split('\n')
    def go(s, timeout):
        s.rs = os.path.join(s.work, s.name + '.rs'); s.js = os.path.join(s.work, s.name + '.json')
        for attempt in range(12):
            err = s.extract()
            if err: s.undecided.append((None, 'extraction: ' + err[:1000])); return
            lg = os.path.join(s.work, 'air'); shutil.rmtree(lg, ignore_errors=True)
            cmd = ['verus', s.rs, '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '12', '--log', 'air', '--log-dir', lg]
            s.cmds = ['vx units/%s/overlay.vx %s %s.rs' % (s.name, REPO, s.name), 'verus %s.rs --time-expanded --log air' % s.name]
            rc, o, e = run(cmd, timeout, cwd=s.work)
            if rc == 124: s.undecided.append((None, 'the verifier ran out of time')); return
            diags = []
            for l in e.split('\n'):
                if l.startswith('{'):
                    try: diags.append(json.loads(l))
                    except ValueError: pass
            try: res = json.JSONDecoder().raw_decode(o[o.index('{'):])[0]
            except ValueError: res = {}
            vr = res.get('verification-results', {})
            errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
            # errors that are not failed obligations: the text does not compile, or is outside the verifier's language
            comp = [d for d in errs if d.get('code') or not OBLIGATION.search(d['message'])]
            if not vr or vr.get('encountered-vir-error') or ('verified' not in vr) or comp:
                new = []
                for d in comp or errs:
                    f = s.fn_of(d)
                    if f and not f['trusted'] and f['name'] not in s.trusted and f['name'] not in new: new.append(f['name']); s.undecided.append((f['name'], 'out of reach of the verifier: ' + d['message'][:300]))
                if not new:
                    m = '; '.join(d['message'] for d in errs[:3]) or e[-500:]
                    s.undecided.append((None, 'the extracted text is not accepted: ' + m[:600])); s.render = ''.join((d.get('rendered') or '') for d in errs)[:4000]; return
                s.trusted += new
                continue
            break
        else:
            s.undecided.append((None, 'too many functions out of reach')); return
        s.verified = vr['verified']
        t = res.get('times-ms', {}).get('smt', {})
        s.smt_ms = t.get('smt-run', 0)
        for m in t.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []): s.perfn[f['function'].split('::', 1)[-1]] = (f['time-micros'], f['success'])
        s.obl = count_obligations(lg)
        shutil.rmtree(lg, ignore_errors=True)
        for f in s.fns:
            if f['missing']: s.undecided.append((f['name'], 'the function no longer exists under this name'))
            elif f['trusted'] and f['name'] not in s.trusted: pass
            elif f['lost']: s.undecided.append((f['name'], 'the contract no longer fits the text: ' + '; '.join(map(str, f['lost']))[:300]))
        for d in errs:
            f = s.fn_of(d)
            tags = set()
            for sp in d['spans']:
                if sp['file_name'].endswith(s.name + '.rs') and not ('end of the function' in (sp['label'] or '') or 'at this exit' in (sp['label'] or '')):
                    for ln in range(sp['line_start'], sp['line_end'] + 1):
                        if ln in s.tags and (sp['line_end'] - sp['line_start'] < 12): tags.update(re.split(r'[,\s]+', s.tags[ln].strip()))
            tags.discard('')
            if f is None:
                s.failures.append((None, sorted(tags), d['message'], d.get('rendered') or '', False)); s.undecided.append((None, 'in a lemma: ' + d['message'])); continue
            props = sorted(tags) or f['props']
            if not tags:
                # a function's untagged obligation
                props = f['props']
            decided = not (f['lost'] or f['missing'] or f['skeleton_changed'] or 'rlimit' in d['message'].lower() or 'resource limit' in d['message'].lower())
            if not decided: s.undecided.append((f['name'], 'the proof does not go through for its changed shape: ' + d['message']))
            s.failures.append((f['name'], props, d['message'], d.get('rendered') or '', decided))
        s.ok = True
        s.base = trusted_base('\n'.join(s.src), s.name)
    def fn_of(s, d):
        sp = sorted(d['spans'], key=lambda x: ('failed precondition' in (x['label'] or ''), not x['is_primary']))
        for x in sp:
            while x:  # (a failure in the text of a macro belongs to the function that uses the macro)
                if x['file_name'].endswith(s.name + '.rs'):
                    for f in s.fns:
                        if f['out_start'] <= x['line_start'] <= f['out_end']: return f
                x = (x.get('expansion') or {}).get('span')
    def canary(s):
        """with assert(false) at the start of every function, every function must fail"""
        lines = open(s.rs).read().split('\n'); want = []; ins = []
        for f in s.fns:
            if f['trusted'] or f['missing']: continue
            for i in range(f['out_start'] - 1, f['out_end']):
                if lines[i].startswith('{'): ins.append(i); want.append(f['name']); break
        for k, i in enumerate(ins):
            t = 'proof { assert(false); } // CANARY %d.\n' % k; j = i
            while lines[j + 1].strip().startswith('hide('): j += 1
            lines[j] = lines[j] + '\n' + t if j > i or 'hide(' in lines[j] else '{ ' + t + lines[i][1:]
        p = os.path.join(s.work, 'canary.rs'); open(p, 'w').write('\n'.join(lines))
        rc, o, e = run(['verus', p, '--error-format=json', '--output-json', '--multiple-errors', '2'], 600, cwd=s.work)
        bad = set()
        if '"verified"' not in o: return ['(the text with the assertions is not accepted) ' + n for n in want], len(ins)
        for l in e.split('\n'):
            if l.startswith('{'):
                try: d = json.loads(l)
                except ValueError: continue
                if d.get('level') == 'error':
                    for x in d.get('spans', []):
                        m = re.search(r'// CANARY (\d+)\.', x['text'][0]['text'] if x['text'] else '')
                        if m and x['is_primary']: bad.add(int(m.group(1)))
        return [n for k, n in enumerate(want) if k not in bad], len(ins)

def count_obligations(d):
    """number of assertions in the queries the verifier generated, by function"""
    r = {}
    for f in glob.glob(os.path.join(d, '*.air')):
        cur = None
        for l in open(f, errors='replace'):
            if l.startswith(';; Function-'):
                k = l.split(); cur = k[2].split('::', 1)[-1] if k[1] in ('Function-Def', 'Function-Termination', 'Function-Specs') else None
            elif cur and l.lstrip() in ('(assert\n',): r[cur] = r.get(cur, 0) + 1
    return r
def trusted_base(src, unit):
    r = []
    for m in re.finditer(r'external_body[^\n]*\n(?:\s*(?:#\[[^\n]*|//[^\n]*)\n)*\s*([^\n{;]*)', src):
        t = ' '.join(m.group(1).split())
        if t and not t.startswith(('pub struct', 'struct', 'pub enum')): r.append('assumed contract: ' + t[:140])
    for m in re.finditer(r'assume_specification[^\n]*', src): r.append(' '.join(m.group(0).split())[:160])
    for m in re.finditer(r'(?:broadcast )?axiom fn (\w+)', src): r.append('axiom ' + m.group(1))
    for m in re.finditer(r'\badmit\(\)|\bassume\(([^\n]*)\)', src): r.append('assumption in a proof: ' + ' '.join(m.group(0).split())[:120])
    return sorted(set(r))

# ---------------------------------------------------------------- concrete

def search(pid, seed, secs, out):
    if os.path.exists(out): os.remove(out)
    rc, o, e = run([LV, pid, '--seed', str(seed), '--secs', '%.1f' % secs, '--out', out], secs + 120)
    try: d = json.load(open(out))
    except Exception: return {'error': 'the harness ended with %s: %s' % (rc, (e or o)[-600:]), 'fail': None, 'cases': 0}
    return d
def confirm(pid, tape, out, n=2):
    what = None
    for _ in range(n):
        if os.path.exists(out): os.remove(out)
        run([LV, pid, '--replay', tape, '--out', out], 120)
        try: d = json.load(open(out))
        except Exception: continue
        if not d.get('fail'): return None
        what = d['fail']
    return what

def main():
    a = sys.argv[1:]; pid = a[0]
    if pid == '--setup':
        build_vx(); e = build_harness()
        if e: print(e)
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = PLAN[pid]
    if '--replay' in a: sys.exit(replay(pid, a[a.index('--replay') + 1]))
    work = os.path.join(B, 'run', pid); os.makedirs(work, exist_ok=True)
    build_vx(); log('vx built')
    herr = [None]; hres = [None]
    secs = plan['search'] if tier == 'quick' else max(240, plan['search'])
    has_lv = plan.get('lv', True)
    def concrete():
        herr[0] = build_harness()
        log('harness built' if not herr[0] else 'harness does not build')
        if not herr[0]: hres[0] = search(pid, seed, secs, os.path.join(work, 'lv.json'))
        if hres[0]: log('concrete: %s cases, %s' % (hres[0].get('cases'), 'FAIL ' + hres[0]['fail']['what'] if hres[0].get('fail') else hres[0].get('error', 'no failure')))
    th = None
    if has_lv: th = threading.Thread(target=concrete); th.start()
    units = [Unit(u, work) for u in plan['units']]
    ts = [threading.Thread(target=x.go, args=(400 if tier == 'quick' else 700,)) for x in units]
    for t in ts: t.start()
    for t in ts: t.join()
    for x in units:
        log('unit %s: %s functions, %s verified, %s obligations failed, undecided: %s' % (x.name, len(x.fns), x.verified, len(x.failures), [n for n, _ in x.undecided] or 'none'))
        for n, why in x.undecided: log('  undecided %s: %s' % (n, why))
    vac = []
    if tier == 'thorough':
        for x in units:
            if x.ok:
                b, n = x.canary(); log('canary %s: %d functions, vacuous: %s' % (x.name, n, b or 'none')); vac += ['%s/%s' % (x.name, y) for y in b]
    if th: th.join()
    fails = []; und = []
    for x in units:
        for f, props, msg, ren, dec in x.failures:
            if pid in props or (f is None and not props): (fails if dec else und).append((x.name, f, msg, ren))
        for f, why in x.undecided:
            fn = next((k for k in x.fns if k['name'] == f), None)
            if f is None or (fn and pid in fn['props']): und.append((x.name, f, why, ''))
    known = json.load(open(os.path.join(V, 'known-findings.json')))
    conc = None
    rdir = os.path.join(B, 'replay'); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.json' % pid)
    rounds = 0
    def confirmed(h):
        if not h or not h.get('fail'): return None
        return confirm(pid, h['fail']['tape'], os.path.join(work, 'lv2.json'))
    conc = confirmed(hres[0])
    if hres[0] and hres[0].get('fail') and not conc: log('the failure did not come again when replayed; ignored')
    extra = 0
    if has_lv and not herr[0] and not conc and (fails or und):
        # the verifier could not accept: look longer for a failing input
        for k in range(2 if tier == 'quick' else 6):
            h = search(pid, seed + 1000 * (k + 1), max(30, 2 * secs), os.path.join(work, 'lv.json')); extra += h.get('cases', 0)
            log('concrete, longer: %s' % (h['fail']['what'] if h.get('fail') else 'no failure'))
            conc = confirmed(h)
            if conc: break
    matched = []
    if conc:
        for k in known['findings']:
            if k['property'] == pid and k.get('tape') == conc['tape']: matched.append(k)
    for k in known['findings']:
        if k['property'] == pid: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    viol = 0; exitc = 0
    if conc and not matched:
        viol = 1
        json.dump({'property': pid, 'kind': 'concrete', 'tape': conc['tape'], 'what': conc['what'], 'steps': conc['steps'], 'rerun': 'tools/check.py %s --replay %s' % (pid, rpath),
                   'failed_obligations': [{'unit': u, 'function': f, 'obligation': m, 'verifier_output': r} for u, f, m, r in fails]}, open(rpath, 'w'), indent=1)
    elif fails:
        viol = 1
        json.dump({'property': pid, 'kind': 'obligation', 'failed_obligations': [{'unit': u, 'function': f, 'obligation': m, 'verifier_output': r} for u, f, m, r in fails]}, open(rpath, 'w'), indent=1)
    ev = evidence(pid, tier, seed, plan, units, hres[0], herr[0], fails, und, vac, viol, extra)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    if conc and not matched:
        for s in conc['steps']: print('   ', s)
        print('  ', conc['what'])
        for u, f, m, r in fails: print('   failed obligation in %s: %s' % (f, m)); print(r)
        print('VIOLATION property=%s replay=%s' % (pid, rpath)); exitc = 1
    elif fails:
        for u, f, m, r in fails: print('   failed obligation in %s: %s' % (f, m)); print(r)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath)); exitc = 1
    elif vac: print('contracts that are never entered:', vac); exitc = 2
    else:
        log('%s holds on everything checked%s' % (pid, '' if not und else ' (undecided by proof, decided by the bounded concrete check: %s)' % sorted(set(str(x[1]) for x in und))))
    sys.exit(exitc)

def evidence(pid, tier, seed, plan, units, h, herr, fails, und, vac, viol, extra):
    cov = {}
    mine = []; obl = dis = 0; base = []; cmds = []; smt = 0
    for x in units:
        names = {f['name'] for f in x.fns}
        bad = {f for f, *_ in x.failures} | {f for f, _ in x.undecided}
        for f in x.fns:
            if f['trusted'] or f['name'] in x.trusted or f['missing']: continue
            short = f['name'].split('::')[-1]
            o = sum(v for k, v in x.obl.items() if k == f['name'] or k.replace('impl&%', '').endswith('::' + short) and k.split('::')[-1] == short)
            if pid in f['props']:
                mine.append({'unit': x.name, 'function': f['name'], 'file': f['file'], 'line': f['src_line'], 'obligations': o, 'proved': f['name'] not in bad and None not in bad, 'extraction_rules': f['rules']})
        # every obligation of the unit is needed: contracts of callees are used by callers
        t = sum(x.obl.values()); obl += t
        ft = sum(1 for f in x.failures) ; dis += t - ft if x.ok else 0
        base += ['%s: %s' % (x.name, b) for b in x.base] + ['%s: %s is not verified in this tree (%s)' % (x.name, a, b) for a, b in x.undecided]
        cmds += x.cmds; smt += x.smt_ms
    if plan['level'] == 'proof':
        cov.update(obligations=obl, discharged=dis, checker_cmd=' && '.join(cmds), trusted_base=base,
                   functions_under_contract=mine, verified_items=sum(x.verified for x in units), back_end='Verus (Z3)', solver_ms=smt,
                   undecided=[[str(a), str(b), str(c)] for a, b, c, _ in und])
    elif units:
        cov.update(proved_part=dict(obligations=obl, discharged=dis, functions_under_contract=mine, solver_ms=smt, trusted_base=base, checker_cmd=' && '.join(cmds), undecided=[[str(a), str(b), str(c)] for a, b, c, _ in und]))
    if h:
        c = dict(evaluations=h.get('cases', 0) + extra, distinct_nontrivial=h.get('distinct_nontrivial', 0), rule=h.get('rule', ''), samples=h.get('samples', []))
        if plan['level'] == 'proof': cov['concrete_bounded'] = c
        else: cov.update(c)
    if herr: cov['concrete_bounded_error'] = herr[-500:]
    if plan['level'] not in ('proof',) and not h: cov.setdefault('evaluations', 0); cov.setdefault('distinct_nontrivial', 0); cov.setdefault('rule', ''); cov.setdefault('samples', [])
    if plan['level'] == 'other': cov['explanation'] = plan['note']
    if vac: cov['vacuous'] = vac
    return dict(property=pid, tier=tier, seed=seed, level=plan['level'], coverage=cov, wall_s=round(time.time() - T0, 2), violations=viol,
                assumptions=plan.get('assume', []) + ['extraction by vx (syntactic; its rules are listed in DESIGN.md)', 'Verus and Z3 are sound'])

def replay(pid, path):
    d = json.load(open(path))
    if d['kind'] != 'concrete':
        for o in d['failed_obligations']: print(o['function'], o['obligation']); print(o['verifier_output'])
        return 1
    build_vx(); e = build_harness()
    if e: print(e); return 2
    c = confirm(pid, d['tape'], os.path.join(B, 'replay.out'), 1)
    if c:
        for s in c['steps']: print('   ', s)
        print(c['what']); return 1
    print('does not fail'); return 0
main()

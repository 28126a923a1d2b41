#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--part NAME] [--case SECTION INDEX] [--jobs N]

Builds the harness parts of one property from /repo's working tree (headers and
src/*.cpp, with address and undefined-behaviour sanitizers), explores, writes
evidence/<PROPERTY>.json and exits 0 (held on everything explored) or 1 (a
VIOLATION line was printed).  Any other exit is an error of the check itself."""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, time, shutil, re

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
CACHE = os.path.join(BUILD, 'cache')
sys.path.insert(0, os.path.join(V, 'lib'))
from checks import CHECKS

CXX = '/usr/bin/g++'
BASE = ['-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
        '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-pthread']

def die(msg):
    print('run.py:', msg); sys.exit(2)

class NoCompile(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    for root in ('include', 'src'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                h.update(open(p, 'rb').read()); h.update(b'\0')
    for d in ('lib', 'harness'):
        for f in sorted(os.listdir(os.path.join(V, d))):
            if f.endswith(('.hpp', '.h', '.inc')):
                h.update(f.encode() + open(os.path.join(V, d, f), 'rb').read())
    return h.hexdigest()

def compile_one(src, flags, th):
    cmd = [CXX] + flags + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'lib'), '-I' + os.path.join(V, 'harness'), '-c', src]
    key = hashlib.sha256((th + '\0'.join(cmd)).encode() + open(src, 'rb').read()).hexdigest()[:32]
    obj = os.path.join(CACHE, key + '.o')
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, src + '\n' + r.stdout[-6000:]
    os.rename(tmp, obj)
    return obj, None

def trim_cache(limit=3 << 30):
    fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in (os.path.join(CACHE, f) for f in os.listdir(CACHE))]
    fs.sort(reverse=True); tot = 0
    for m, s, p in fs:
        tot += s
        if tot > limit: os.unlink(p)

def build(prop, parts, jobs):
    os.makedirs(CACHE, exist_ok=True)
    th = tree_hash()
    lib = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, 'src')) for f in fs if f.endswith('.cpp'))
    work = {}
    for p in parts:
        std = '-std=' + p.get('std', 'c++20')
        fl = BASE + [std] + p.get('flags', [])
        libfl = BASE + [std] + p.get('libflags', [])
        for s in lib:
            if s.endswith('xchar.cpp') and not p.get('xchar'): continue
            work.setdefault((s, tuple(libfl)), []).append(p['name'])
        work.setdefault((os.path.join(V, 'harness', p['src']), tuple(fl)), []).append(p['name'])
    objs = {p['name']: [] for p in parts}
    order = sorted(work, key=lambda k: (not k[0].startswith(V), 'xchar' not in k[0], 'format.cpp' not in k[0]))
    errs = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for k, (o, e) in zip(order, ex.map(lambda k: compile_one(k[0], list(k[1]), th), order)):
            if e: errs.append(e)
            for n in work[k]: objs[n].append(o)
    if errs:
        # the library compiles but documented uses of it do not: that is an answer, not a failure to give one
        mine = all(e.startswith(os.path.join(V, 'harness')) and ' error: ' in e and 'internal compiler error' not in e and 'No space left' not in e for e in errs)
        if mine: raise NoCompile('\n'.join(errs))
        die('does not compile:\n' + '\n'.join([l[:250] for e in errs for l in e.split('\n') if ' error: ' in l or 'atal' in l][:15] or [errs[0][-1500:]]))
    exes = {}
    for p in parts:
        h = hashlib.sha256('\0'.join(objs[p['name']]).encode()).hexdigest()[:24]
        exe = os.path.join(CACHE, h + '.exe')
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            r = subprocess.run([CXX] + BASE + p.get('ldflags', []) + objs[p['name']] + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: die('link failed:\n' + r.stdout[-4000:])
            os.rename(tmp, exe)
        exes[p['name']] = exe
    trim_cache()
    return exes

def main():
    a = sys.argv[1:]
    if not a: die(__doc__)
    prop = a[0]
    if prop == 'setup':
        if subprocess.run([CXX, '--version'], stdout=subprocess.DEVNULL).returncode: die('no compiler')
        os.makedirs(CACHE, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        print('setup ok'); return 0
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None; case = None; jobs = os.cpu_count() or 8
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i+1]; i += 2
        elif a[i] == '--part': only = a[i+1]; i += 2
        elif a[i] == '--case': case = a[i+1:i+3]; i += 3
        elif a[i] == '--jobs': jobs = int(a[i+1]); i += 2
        else: die('unknown option ' + a[i])
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if prop not in CHECKS: die('no such check: ' + prop)
    c = CHECKS[prop]
    parts = [p for p in c['parts'] if only in (None, p['name']) and (tier == 'thorough' or not p.get('thorough_only'))]
    t0 = time.time()
    try: exes = build(prop, parts, jobs)
    except NoCompile as e:
        rdir = os.path.join(V, 'replay'); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        rp = os.path.join(rdir, prop + '-compile.txt'); open(rp, 'w').write(str(e))
        ls = [l for l in str(e).split('\n') if ' error: ' in l]
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('   the library compiles, uses of it that the property covers do not:')
        for l in ls[:5]: print('   ' + l[:300])
        ev = dict(property=prop, tier=tier, seed=seed, level=c.get('level', 'model_checking'),
                  coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[l[:300] for l in ls[:3]], exhaustive=False, explanation='the harness does not compile against this tree'),
                  assumptions=[], wall_s=round(time.time() - t0, 2), violations=1)
        json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
        return 1
    tb = time.time() - t0
    # use-after-return detection makes every exception expensive: off for the parts that say so
    mkenv = lambda p: dict(env, ASAN_OPTIONS=env['ASAN_OPTIONS'].replace('return=1', 'return=%d' % p.get('uar', 1)))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=%d:allocator_may_return_null=1:handle_abort=0:strict_string_checks=0:malloc_context_size=12' % 1,
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', LC_ALL='C.UTF-8', TZ='UTC')
    if case:
        rc = 0
        for p in parts:
            print('part', p['name']); sys.stdout.flush()
            rc = max(rc, subprocess.run([exes[p['name']], '--tier', tier, '--part', p['name'], '--case'] + case, env=mkenv(p)).returncode)
        return rc
    rdir = os.path.join(V, 'replay'); os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tot = dict(cases=0, transitions=0, states=0, violations=0, known=0); capped = False; samples = []; per = []
    bad = None
    for p in parts:
        out = os.path.join(BUILD, '%s-%s-%d.json' % (prop, p['name'], os.getpid()))
        r = subprocess.run([exes[p['name']], '--tier', tier, '--jobs', str(jobs), '--out', out, '--part', p['name'],
                            '--known', os.path.join(V, 'known_findings.txt'), '--replay-dir', rdir, '--hang', str(p.get('hang', 30))], env=mkenv(p))
        sys.stdout.flush()
        if r.returncode not in (0, 1) or not os.path.exists(out):
            bad = 'part %s ended with %d' % (p['name'], r.returncode); break
        j = json.load(open(out)); os.unlink(out)
        for k in tot: tot[k] += j[k]
        capped |= j['capped']
        samples += j['samples'][:4]
        per.append({k: j[k] for k in ('part', 'sections', 'cases', 'transitions', 'states', 'capped')})
    if bad and not tot['violations']: die(bad)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level=c.get('level', 'model_checking'),
              coverage=dict(states=tot['states'], transitions=tot['transitions'],
                            traces_validated_against_impl=tot['cases'], samples=samples or ['(none)'],
                            exhaustive=not capped, parts=per, known_findings_hit=tot['known'],
                            explanation=c['coverage'], bounds=c.get('bounds_' + tier, c.get('bounds', ''))),
              assumptions=c.get('assumptions', []) + ['g++ 13, -fsanitize=address,undefined, _GLIBCXX_ASSERTIONS, library assertions on'],
              wall_s=round(wall, 2), violations=tot['violations'])
    if c.get('level') == 'fault_enumeration':
        ev['coverage'].update(evaluations=tot['cases'], distinct_nontrivial=tot['states'], rule=c['coverage'])
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
    print('%s %s: %d cases, %d transitions, %d distinct states, %d violations, %d known, build %.0fs, total %.0fs'
          % (prop, tier, tot['cases'], tot['transitions'], tot['states'], tot['violations'], tot['known'], tb, wall))
    return 1 if tot['violations'] else 0

sys.exit(main())

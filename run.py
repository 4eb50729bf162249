#!/usr/bin/env python3
"""Build and run the check of one property against /repo's working tree.

  run.py ID [--tier quick|thorough] [--seed N] [--only SUB] [--scale X]
  run.py ID --replay FILE        replay a saved failing case
  run.py --setup                 build nothing but what every check shares
  run.py --list

exit 0: the property held on everything explored;  exit 1: a line
VIOLATION property=<id> replay=<path> was printed;  anything else: the check
itself could not give an answer.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shlex, shutil
import subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
sys.path.insert(0, os.path.join(V, 'tools'))
import checks  # noqa: E402

BASE = ['-std=c++17', '-g1', '-O1', '-fno-omit-frame-pointer', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-ftrivial-auto-var-init=pattern']


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def fsha(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return 'absent'


def compile_one(src, flags):
    """object file of src; cached on the content of everything it includes"""
    cxx = flags[0]
    key0 = sha(src, ' '.join(flags))
    obj = os.path.join(BUILD, 'obj', key0 + '.o')
    meta = obj + '.json'
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(obj) and all(fsha(p) == h for p, h in m.items()):
            return obj, None
    except (OSError, ValueError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid()
    dep = tmp + '.d'
    r = subprocess.run([cxx] + flags[1:] + ['-MMD', '-MF', dep, '-c', src, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        return None, '%s:\n%s' % (src, r.stdout[-6000:])
    with open(dep) as f:
        txt = f.read().replace('\\\n', ' ')
    os.unlink(dep)
    deps = [d.replace('\\ ', ' ') for d in re.split(r'(?<!\\)\s+', txt.split(':', 1)[1]) if d]
    deps = [d for d in deps if not d.startswith('/usr/')]
    os.replace(tmp, obj)
    with open(meta, 'w') as f:
        json.dump({d: fsha(d) for d in deps}, f)
    return obj, None


def expand(pats):
    out = []
    for p in pats:
        neg = p.startswith('!')
        p = p[1:] if neg else p
        m = sorted(glob.glob(os.path.join(REPO, p)))
        if neg:
            out = [x for x in out if x not in m]
        else:
            out += [x for x in m if x not in out]
    return out


def build(c):
    """executable of the check's harness"""
    cxx = c.get('cxx', 'g++')
    san = c.get('san', SAN)
    inc = []
    for i in c.get('includes', ['src']):
        inc += ['-I', os.path.join(REPO, i)]
    for i in c.get('shims', []):
        inc += ['-I', os.path.join(V, 'shim', i)]
    defs = ['-D' + d for d in c.get('defines', [])]
    extra = c.get('flags', [])
    common = [cxx] + BASE + san + defs + extra
    hflags = common + ['-I', os.path.join(V, 'engine'), '-I', os.path.join(V, 'harness'),
                       '-I', os.path.join(V, 'ref')] + inc
    jobs = [(os.path.join(V, 'engine', 'vpbt.cpp'),
             ['g++'] + BASE + ['-fsanitize=address,undefined'], True)]
    for h in c['harness']:
        jobs.append((os.path.join(V, h), hflags, True))
    req = expand(c.get('sources', []))
    for s in req:
        jobs.append((s, common + c.get('repo_flags', []) + inc, True))
    # whole directories: an object is linked only if something needs it
    for s in expand(c.get('lib', [])):
        if s not in req:
            jobs.append((s, common + c.get('repo_flags', []) + inc, False))
    objs, lib, errors = [], [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1]), jobs))
    for (src, fl, must), (o, err) in zip(jobs, res):
        if err and must:
            errors.append(err)
        elif err:
            sys.stderr.write('[build] left out (does not compile): %s\n' % src)
            sys.stderr.write('\n'.join(err.split('\n')[:6]) + '\n')
        elif must:
            objs.append(o)
        else:
            lib.append(o)
    if errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        return None
    exe = os.path.join(BUILD, 'bin', '%s%s.%d' % (c['id'], c.get('name', ''), os.getpid()))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    args = objs[:]
    if lib:
        ar = exe + '.a'
        subprocess.run(['ar', 'rcs', ar] + lib, check=True)
        args += [ar]
    r = subprocess.run([cxx] + san + args + ['-o', exe] + c.get('libs', []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if lib:
        os.unlink(ar)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + '\n')
        return None
    return exe


def findings(pid):
    out = {}
    try:
        with open(os.path.join(V, 'known_findings.txt')) as f:
            for l in f:
                m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', l.strip())
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--only')
    ap.add_argument('--scale')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    if a.list:
        print('\n'.join(sorted(checks.CHECKS)))
        return 0
    if a.setup:
        o, err = compile_one(os.path.join(V, 'engine', 'vpbt.cpp'),
                             ['g++'] + BASE + ['-fsanitize=address,undefined'])
        if err:
            sys.stderr.write(err)
            return 2
        return 0
    pid = a.id
    c = dict(checks.CHECKS[pid])
    c['id'] = pid
    if a.seed is None:
        try:
            a.seed = int(os.environ.get('VERIF_SEED') or '1')
        except ValueError:
            a.seed = 1
    a.seed &= (1 << 63) - 1
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    variants = [dict(c, **v) for v in c.get('variants', [{}])]
    for v in variants:
        v['exe'] = None
        if v.get('py'):  # a check in Python: same protocol as a harness
            v['cmd'] = ['python3-vt', os.path.join(V, v['harness'][0])]
        else:
            v['exe'] = build(v)
            if v['exe'] is None:
                sys.stderr.write('%s: the harness could not be built\n' % pid)
                return 2
            v['cmd'] = [v['exe']]
    tb = time.time() - t0
    if a.build_only:
        print('\n'.join(v['exe'] or '' for v in variants))
        return 0
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    rdir = os.path.join(V, 'replay', pid)
    os.makedirs(rdir, exist_ok=True)
    known = findings(pid)
    env = dict(os.environ, VERIF_REPO=REPO, VERIF_SCRATCH=scratch, LC_ALL='C', TZ='UTC')
    env.pop('ASAN_OPTIONS', None)
    env.pop('UBSAN_OPTIONS', None)
    res = {'subs': [], 'probes': []}
    try:
        if not a.replay:
            for f in glob.glob(os.path.join(rdir, '*')):
                os.unlink(f)
        for v in variants:
            name = v.get('name', '')
            if tier == 'quick' and time.time() - t0 > 200 and any(s['failed'] for s in res['subs']):
                break  # there is an answer already
            out = os.path.join(scratch, 'out%s.json' % name)
            vdir = rdir
            if name:
                vdir = os.path.join(scratch, 'r' + name)
                os.makedirs(vdir)
            cmd = v['cmd'] + ['--scratch', scratch, '--seed', str(a.seed), '--tier', tier,
                              '--out', out, '--replay-dir', vdir, '--known', ','.join(known)]
            only = a.only
            if only and only.startswith(name + ':'):
                only = only[len(name) + 1:]
            if only:
                cmd += ['--only', only]
            if a.scale:
                cmd += ['--scale', a.scale]
            if a.replay:
                m = re.match(r'(\w+)__', os.path.basename(a.replay))
                if (m.group(1) if m else '') != name:
                    continue
                return subprocess.run(cmd + ['--replay', os.path.abspath(a.replay)], env=env).returncode
            r = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.DEVNULL)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                sys.stderr.write('%s: the harness ended with %d\n' % (pid, r.returncode))
                return 2
            with open(out) as f:
                o = json.load(f)
            for s in o['subs']:
                if name:
                    s['name'] = name + ':' + s['name']
                    if s['replay']:
                        p = os.path.join(rdir, name + '__' + os.path.basename(s['replay']))
                        shutil.copy(s['replay'], p)
                        s['replay'] = p
            res['subs'] += o['subs']
            res['probes'] += [p for p in o.get('probes', [])
                              if p['id'] not in [q['id'] for q in res['probes']]]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        for v in variants:
            if v['exe'] and os.path.exists(v['exe']) and not a.build_only:
                os.unlink(v['exe'])
    viol = 0
    for s in res['subs']:
        if s['failed']:
            viol += 1
            print('%s: %s' % (s['name'], s['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, s['replay']))
    for p in res.get('probes', []):
        if p['present']:
            if p['id'] in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (pid, p['id'], known[p['id']]))
            else:
                viol += 1
                path = os.path.join(rdir, 'probe-%s.txt' % p['id'])
                with open(path, 'w') as f:
                    f.write('%s\n%s\n' % (p['text'], p['how']))
                print('%s: %s (%s)' % (p['id'], p['text'], p['how']))
                print('VIOLATION property=%s replay=%s' % (pid, path))
    subs = res['subs']
    ev = {
        'property': pid, 'tier': tier, 'seed': a.seed, 'level': c.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in subs),
            'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in subs),
            'rule': '; '.join('%s: %s' % (s['name'], s['rule']) for s in subs),
            'samples': [{'sub': s['name'], 'case': x} for s in subs for x in s['samples'][:2]],
            'subs': [{k: s[k] for k in ('name', 'evaluations', 'discarded', 'nontrivial',
                                        'distinct_nontrivial', 'labels', 'excluded', 'wall')}
                     for s in subs],
            'findings': res.get('probes', []),
            'build_s': round(tb, 2),
        },
        'assumptions': c.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': viol,
    }
    if not a.only:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed %d: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs, %d violations'
          % (pid, tier, a.seed, ev['coverage']['evaluations'],
             ev['coverage']['distinct_nontrivial'], tb, time.time() - t0, viol))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Driver of the checks: builds the harnesses of one property from /repo's current working tree,
runs the exhaustive exploration, replays every counterexample, compares with the known findings,
writes the evidence file and reports."""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
from registry import PROPS, VARIANTS, LIBFLAGS  # noqa: E402

ASAN = ['-g1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS']
BASE = ['-std=c++17', '-fopenmp', '-w']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=213:abort_on_error=0:detect_stack_use_after_return=0',
           OMP_NUM_THREADS='1', OMP_WAIT_POLICY='passive')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class Build:
    def __init__(self, scratch):
        self.scratch = scratch
        self.tree = os.path.join(scratch, 'tree')
        os.makedirs(self.tree)
        for d in ('src', 'include'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.tree, d))
        for f in ('defines.hpp',):  # generated by configure; the variant header takes its place
            try:
                os.remove(os.path.join(self.tree, 'include', f))
            except FileNotFoundError:
                pass
        self.sources = sorted(glob.glob(os.path.join(self.tree, 'src', '**', '*.cpp'), recursive=True))
        self.pool = cf.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2))
        self.libs = {}

    def inc(self):
        return ['-I' + os.path.join(HERE, 'variants'), '-I' + os.path.join(HERE, 'stubs'), '-I' + os.path.join(self.tree, 'include'), '-I' + os.path.join(HERE, 'src')]

    def cc(self, src, obj, flags):
        r = sh(['g++'] + BASE + flags + self.inc() + ['-c', src, '-o', obj])
        if r.returncode:
            raise BuildError('compilation of %s failed:\n%s' % (src, r.stdout[-3000:]))
        return obj

    def lib(self, variant, flags, instr=None):
        key = (variant, tuple(flags), repr(instr))
        if key not in self.libs:
            d = os.path.join(self.scratch, 'obj' + hashlib.md5(repr(key).encode()).hexdigest()[:8])
            os.makedirs(d)
            fl = flags + VARIANTS[variant] + LIBFLAGS.get(variant, [])
            futs = []
            for s in self.sources:
                o = os.path.join(d, os.path.relpath(s, self.tree).replace('/', '_') + '.o')
                f = fl + (['-Dmain=picopic_main'] if s.endswith('/PiCoPiC.cpp') else [])
                for suffix, x in (instr or {}).items():  # files built with other instrumentation
                    if s.endswith(suffix):
                        f = [q for q in f if not q.startswith('-fsanitize')] + x
                futs.append(self.pool.submit(self.cc, s, o, f))
            self.libs[key] = futs
        return self.libs[key]

    def harness(self, name, variant, flags, link=(), instr=None, hflags=()):
        libf = self.lib(variant, flags, instr)
        out = os.path.join(self.scratch, '%s_%s_%s' % (name, variant, hashlib.md5(repr(flags).encode()).hexdigest()[:6]))
        h = self.pool.submit(self.cc, os.path.join(HERE, 'src', name + '.cpp'), out + '.o', flags + list(hflags) + VARIANTS[variant])
        return out, h, libf, list(link), flags

    def finish(self, job):
        out, h, libf, link, flags = job
        objs = [f.result() for f in libf]
        r = sh(['g++'] + BASE + flags + [h.result()] + objs + ['-o', out] + [q.replace('HERE', HERE) for q in link] + self.inc())
        if r.returncode:
            raise BuildError('link of %s failed:\n%s' % (out, r.stdout[-3000:]))
        return out


def parse(text):
    viol, stat, samples = [], {}, []
    for l in text.splitlines():
        f = l.split('\t')
        if f[0] == 'VIOL' and len(f) >= 4:
            viol.append((f[1], f[2], '\t'.join(f[3:])))
        elif f[0] == 'STAT' and len(f) == 3:
            stat[f[1]] = stat.get(f[1], 0) + int(f[2])
        elif f[0] == 'SAMPLE':
            samples.append('\t'.join(f[1:]))
    return viol, stat, samples


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay', help='replay file written by an earlier run')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--only', help='only this variant')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    prop = PROPS[pid]
    thorough = a.tier == 'thorough'
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        rc = run(a, pid, prop, thorough, scratch, t0)
    except BuildError as e:
        print('ERROR: ' + str(e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(a, pid, prop, thorough, scratch, t0):
    b = Build(scratch)
    replay = json.load(open(a.replay)) if a.replay else None
    jobs = []
    for j in prop['jobs']:
        if j.get('tier') == 'thorough' and not thorough:
            continue
        for v in (j['thorough_variants'] if thorough and 'thorough_variants' in j else j['variants']):
            if a.only and v != a.only:
                continue
            if replay and (replay['harness'] != j['harness'] or replay['variant'] != v):
                continue
            flags = (['-O1'] if 'opt' not in j else [j['opt']]) + (j['flags'] if 'flags' in j else ASAN)
            jobs.append((j, v, b.harness(j['harness'], v, flags, j.get('link', ()), j.get('instr'), j.get('hflags', ()))))
    t_build = time.time()
    exes = [(j, v, b.finish(job)) for j, v, job in jobs]
    t_build = time.time() - t_build
    viols, stat, samples, per = [], {}, [], {}
    for n, (j, v, exe) in enumerate(exes):
        cmd0 = (j['wrap'](HERE, exe, REPO, b.tree) if 'wrap' in j else [exe]) + j.get('args', [])
        if thorough:
            cmd0 = cmd0 + ['--thorough']
        sd = os.path.join(scratch, 'run%d' % n)
        os.makedirs(sd)
        cmd = cmd0 + (['--replay', replay['case']] if replay else []) + ['--scratch', sd]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV, cwd=sd)
        if r.returncode or 'HARNESS-ERROR' in r.stdout:
            print('ERROR: harness %s (%s) ended with %d\n%s\n%s' % (j['harness'], v, r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
            return 2
        vi, st, sa = parse(r.stdout)
        if not st.get('cases') and not replay:
            print('ERROR: harness %s (%s) explored nothing' % (j['harness'], v))
            return 2
        per['%s/%s' % (j['harness'], v)] = st
        for k, x in st.items():
            stat[k] = stat.get(k, 0) + x
        samples += ['[%s] %s' % (v, s) for s in sa[:3]]
        # replay before report: at most a dozen, different keys first
        seen, chosen, listed, known = set(), [], {}, load_known(pid)
        for key, case, det in sorted(vi, key=lambda x: (len(x[1]), x[1])):
            m = [n for n, k in enumerate(known) if k['key'] == key and fnmatch.fnmatchcase(j['harness'] + '/' + v + '/' + case, k['match'])]
            if m:
                listed.setdefault(m[0], (key, case, det))
            elif key not in seen or len(chosen) < 4:
                seen.add(key)
                chosen.append((key, case, det))
        for key, case, det in chosen[:12] + list(listed.values()):
            rd = tempfile.mkdtemp(dir=scratch)
            r2 = subprocess.run(cmd0 + ['--replay', case, '--scratch', rd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV, cwd=rd)
            v2 = parse(r2.stdout)[0]
            if any(c == case and (k == key) for k, c, _ in v2):
                viols.append(dict(key=key, case=case, detail=det, harness=j['harness'], variant=v))
            else:
                print('WARNING: not reproduced, ignored: %s %s %s' % (key, case, det))
    known = load_known(pid)
    new, old = [], []
    for v in viols:
        m = [k for k in known if k['key'] == v['key'] and fnmatch.fnmatchcase(v['harness'] + '/' + v['variant'] + '/' + v['case'], k['match'])]
        (old if m else new).append((v, m))
    for k in known:
        if any(k in m for _, m in old):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if replay:
        for v, _ in new + old:
            print('reproduced: %(key)s %(case)s %(detail)s' % v)
        return 1 if new else 0
    cov = dict(states=stat.get('states', 0), transitions=stat.get('transitions', 0), traces_validated_against_impl=stat.get('cases', 0),
               exhaustive=True, bounds=prop['bounds'][1 if thorough else 0] if isinstance(prop['bounds'], (list, tuple)) else prop['bounds'],
               validation='every explored execution is an execution of the real code built from /repo; its result is compared with the oracle',
               oracle=prop['oracle'], samples=samples[:12] or ['-'], counters=per, build_s=round(t_build, 1))
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=cov, assumptions=prop.get('assumptions', []) + COMMON, violations=[v for v, _ in new], wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        for n, (v, _) in enumerate(new[:5]):
            path = os.path.join(EVID, 'replays', '%s-%d.json' % (pid, n))
            v['command'] = 'python3 %s/check.py --property %s --replay %s' % (HERE, pid, path)
            json.dump(dict(v, property=pid), open(path, 'w'), indent=1)
            print('%(harness)s %(variant)s: [%(key)s] %(case)s: %(detail)s' % v)
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK property=%s states=%d transitions=%d executions=%d wall=%.1fs' % (pid, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], time.time() - t0))
    return 0


COMMON = ['third-party libraries (loguru, picojson, HighFive/HDF5) are replaced by stand-ins with their documented semantics',
          'include/defines.hpp is replaced by the variant under check; code is compiled by g++ with -O1']


def load_known(pid):
    try:
        return [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid]
    except FileNotFoundError:
        return []


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Runs one property's check: builds /repo's current tree plus the harness,
explores, applies the known-findings file and writes the evidence file."""
import glob
import argparse, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('INK_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
INCS = [os.path.join(VERIF, 'shim'), REPO, os.path.join(BUILD, 'gen')]
HARNESS = os.path.join(VERIF, 'harness')
COMMON = ['-std=c++20', '-w', '-include', os.path.join(VERIF, 'shim/prelude.h'), '-I' + os.path.join(VERIF, 'shim'),
          '-I' + REPO, '-I' + HARNESS, '-I' + os.path.join(BUILD, 'gen')]
COMMON += ['-I' + d for d in sorted(glob.glob('/usr/lib/jvm/java-17-*/include') + glob.glob('/usr/lib/jvm/java-17-*/include/linux'))]
MODES = {
    'asan': ['g++', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'fast': ['g++', '-O2', '-g1'],
    'ndebug': ['g++', '-O2', '-g1', '-DSHIM_NDEBUG'],
    'tsan': ['clang++', '-O1', '-g1', '-fsanitize=thread'],
    'clang': ['clang++', '-O2', '-g1'],
    # Instrumented like TSan, but linked with harness/race_rt.cc in place of libtsan.
    'race': ['g++', '-O1', '-g1', '-fsanitize=thread', '-Wno-tsan'],
}
LIBS = ['-labsl_time', '-labsl_civil_time', '-labsl_time_zone', '-labsl_strings', '-labsl_strings_internal', '-labsl_int128',
        '-labsl_throw_delegate', '-labsl_base', '-labsl_raw_logging_internal', '-labsl_spinlock_wait', '-lpthread']
INC_RE = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
SKIP = re.compile(r'(_test|_benchmark|fuzz_domains|type_matchers|test_matchers|test_helpers|_test_inputs|_test_inputs_data)\.cc$')


class Build:
    def __init__(self, mode, extra=()):
        self.mode = mode
        self.cmd = MODES[mode] + list(extra)
        self.text = {}
        self.incs = {}

    def cmd_for(self, s):
        return [a for a in self.cmd if a != '-fsanitize=thread'] if os.path.basename(s) == 'race_rt.cc' else self.cmd

    def link_cmd(self):
        if self.mode != 'race':
            return self.cmd
        return [a for a in self.cmd if a != '-fsanitize=thread'] + ['-rdynamic'] + ['-Wl,--wrap=' + f for f in ('pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'memcpy', 'memmove', 'memset')]

    def read(self, p):
        if p not in self.text:
            with open(p, 'rb') as f:
                self.text[p] = f.read()
        return self.text[p]

    def resolve(self, name, frm):
        for d in [os.path.dirname(frm)] + INCS + [HARNESS]:
            p = os.path.normpath(os.path.join(d, name))
            if (p.startswith(REPO + '/') or p.startswith(VERIF + '/')) and os.path.isfile(p):
                return p
        return None

    def direct(self, p):
        if p not in self.incs:
            r = []
            for m in INC_RE.finditer(self.read(p)):
                q = self.resolve(m.group(1).decode(), p)
                if q:
                    r.append(q)
            self.incs[p] = r
        return self.incs[p]

    def closure(self, p):
        seen, todo = {p}, [p]
        while todo:
            for q in self.direct(todo.pop()):
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
        return seen

    def sources(self, main, whole_dirs=()):
        """Transitively: for every project header reached, its .cc twin."""
        srcs, headers, todo = [], set(), [main]
        done = set()
        for d in whole_dirs:
            for f in sorted(os.listdir(os.path.join(REPO, d))):
                if f.endswith('.cc') and not SKIP.search(f):
                    todo.append(os.path.join(REPO, d, f))
        while todo:
            s = todo.pop()
            if s in done:
                continue
            done.add(s)
            srcs.append(s)
            for h in self.closure(s):
                if h in headers:
                    continue
                headers.add(h)
                if h.startswith(REPO + '/') and h.endswith('.h'):
                    c = h[:-2] + '.cc'
                    if os.path.isfile(c) and not SKIP.search(c):
                        todo.append(c)
        return srcs

    def obj(self, s):
        h = hashlib.sha256()
        h.update(repr(self.cmd + COMMON).encode())
        for f in sorted(self.closure(s) | {os.path.join(VERIF, 'shim/prelude.h')}):
            h.update(f.encode() + b'\0' + hashlib.sha256(self.read(f)).digest())
        return os.path.join(BUILD, 'obj', self.mode + '-' + re.sub(r'[^A-Za-z0-9]', '_', os.path.relpath(s, '/')) + '-' + h.hexdigest()[:20] + '.o')

    def compile(self, s, jobs_note=None):
        o = self.obj(s)
        if os.path.exists(o):
            return o, ''
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run(self.cmd_for(s) + COMMON + ['-c', s, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO)
        if r.returncode != 0:
            return None, s + '\n' + r.stdout.decode(errors='replace')[:4000]
        os.replace(tmp, o)
        return o, ''

    def program(self, name, main, whole_dirs=(), jobs=8, libs=()):
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
        out = os.path.join(BUILD, 'bin', name)

        def attempt(dirs):
            srcs = self.sources(main, dirs) + ([os.path.join(HARNESS, 'race_rt.cc')] if self.mode == 'race' else [])
            with cf.ThreadPoolExecutor(jobs) as ex:
                res = list(ex.map(self.compile, srcs))
            errs = [e for o, e in res if o is None]
            if errs:
                return '\n'.join(errs[:3])
            objs = [o for o, _ in res]
            tmp = out + '.%d.tmp' % os.getpid()
            r = subprocess.run(self.link_cmd() + objs + ['-o', tmp] + list(libs) + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                return 'link: ' + r.stdout.decode(errors='replace')[:4000]
            os.replace(tmp, out)
            return None
        err = attempt(whole_dirs)
        if err and err.startswith('link:'):
            # A definition moved to a file its header does not name: take whole directories.
            dirs = sorted({os.path.relpath(os.path.dirname(s), REPO) for s in self.sources(main, whole_dirs) if s.startswith(REPO + '/')})
            err2 = attempt(dirs)
            if err2 is None:
                err = None
        if err:
            print(err, file=sys.stderr)
            raise SystemExit(3)
        return out


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    with open(p) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--replay', help='a replay file: re-runs exactly that execution')
    ap.add_argument('--section')
    a = ap.parse_args()
    t0 = time.time()
    with open(os.path.join(VERIF, 'checks.json')) as f:
        conf = json.load(f)[a.property]
    progs = []
    for pc in conf['programs']:
        if pc.get('tier') == 'thorough' and a.tier != 'thorough':
            continue
        b = Build(pc.get('mode', 'asan'), pc.get('flags', []))
        if pc.get('gen'):
            # A source derived from the current tree: run a generator program and translate what it prints.
            g = Build('fast')
            exe = g.program('%s-gen' % a.property, os.path.join(HARNESS, pc['gen'] + '.cc'))
            r = subprocess.run([exe], stdout=subprocess.PIPE)
            if r.returncode != 0:
                return 3
            sys.path.insert(0, os.path.join(VERIF, 'tools'))
            text = __import__(pc['gen']).run(r.stdout.decode())
            os.makedirs(os.path.join(BUILD, 'gen'), exist_ok=True)
            with open(os.path.join(BUILD, 'gen', pc['gen'] + '.inc'), 'w') as f:
                f.write(text)
        name = '%s-%s-%s' % (a.property, os.path.splitext(pc['src'])[0], pc.get('mode', 'asan'))
        exe = b.program(name, os.path.join(HARNESS, pc['src']), pc.get('dirs', []), libs=pc.get('libs', []))
        progs.append((pc, name, exe))
    if a.build_only:
        return 0
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='halt_on_error=1:exitcode=66')
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        for pc, name, exe in progs:
            if name == rp['program']:
                return subprocess.run([exe, '--tier', rp['tier'], '--replay', rp['section'] + ':' + rp['choices']], env=env).returncode
        return 2
    sections, viols = [], []
    for pc, name, exe in progs:
        out = os.path.join(BUILD, name + '.%d.json' % os.getpid())
        cmd = [exe, '--tier', a.tier, '--out', out]
        if a.section:
            cmd += ['--section', a.section]
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print('check error: %s exited %d' % (name, r.returncode), file=sys.stderr)
            return 3
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        for s in d['sections']:
            s['program'] = name
            sections.append(s)
        for v in d['violations']:
            v['program'] = name
            viols.append(v)
    known = {k['key']: k for k in load_known().get('findings', []) if k['property'] == a.property}
    rdir = os.path.join(VERIF, 'evidence', 'replay', a.property)
    shutil.rmtree(rdir, ignore_errors=True)
    new = []
    hit = set()
    for v in viols:
        if v['key'] in known:
            hit.add(v['key'])
        else:
            new.append(v)
    for k in sorted(known):
        # Listed findings are stated on every run; 'seen' says whether this run met them.
        print('KNOWN-FINDING: property=%s %s (%s)' % (a.property, known[k]['what'], 'observed again' if k in hit else 'not met in this run'))
    tot = lambda f: sum(s[f] for s in sections)
    samples = []
    for s in sections:
        for x in s['samples'][:2]:
            samples.append(s['name'] + ': ' + x)
    ev = {
        'property': a.property, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot('states'), 'transitions': tot('choice_edges') + tot('ops'),
            'traces_validated_against_impl': tot('paths'), 'evaluations': tot('evals'), 'distinct_nontrivial': tot('outcomes'),
            'rule': conf.get('rule', '') + ' states: distinct inputs/object states by hash (lower bound when a cap is hit); transitions: choice-tree edges '
            'plus calls into the implementation; traces: complete executions of the real code, each compared with the reference; '
            'evaluations: oracle comparisons; distinct_nontrivial: distinct observed results.',
            'samples': samples[:12], 'exhaustive': all(s['complete'] for s in sections) and bool(sections),
            'sections': [{k: s[k] for k in ('name', 'rule', 'paths', 'ops', 'evals', 'states', 'outcomes', 'complete', 'wall_s', 'program')} for s in sections],
        },
        'assumptions': conf.get('assumptions', []) + [
            'Abseil string/log/status/container/mutex stand-ins in /verif/shim behave as Abseil (validated by running google/ink\'s own tests against them)'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if not a.section:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    vac = [s['name'] for s in sections if s['paths'] == 0]
    if vac and not new:
        print('check error: vacuous sections %s' % vac, file=sys.stderr)
        return 3
    for i, v in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%d.json' % i)
        with open(p, 'w') as f:
            json.dump(dict(v, property=a.property, tier=a.tier, how='python3 /verif/check.py %s --replay %s' % (a.property, p)), f, indent=1)
        print('  %s\n    %s' % (v['key'], v['what'][:900]))
        print('VIOLATION property=%s replay=%s' % (a.property, p))
    print('%s %s: %d sections, %d executions, %d states, %d oracle evaluations, %.1fs, %d violation(s)' % (
        a.property, a.tier, len(sections), tot('paths'), ev['coverage']['states'], tot('evals'), ev['wall_s'], len(new)))
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py ID [quick|thorough]      run the check of one property
   check.py ID --replay FILE        run one recorded case again"""
import sys, os, json, time, subprocess, shutil, tempfile, re, signal, threading, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, REPO, SRC, Builder, BuildError
import registry

EVIDENCE = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
NPROC = os.cpu_count() or 8

def sanitizer_env(tsan=False):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:handle_abort=1:'
                         'strict_string_checks=1:allocator_may_return_null=1:hard_rss_limit_mb=2500:symbolize=1')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4'
    for p in ('/usr/lib/llvm-18/bin/llvm-symbolizer', '/usr/bin/llvm-symbolizer-18', '/usr/bin/llvm-symbolizer'):
        if os.path.exists(p):
            e['ASAN_SYMBOLIZER_PATH'] = e['TSAN_SYMBOLIZER_PATH'] = e['UBSAN_SYMBOLIZER_PATH'] = p
            break
    e['LC_ALL'] = 'C.UTF-8'
    return e

FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):(\d+)')
FRAME2 = re.compile(r'#\d+ (.*?) (/\S+?):(\d+)')

def clean_function(f):
    f = re.sub(r'\(.*$', '', f)
    prev = None
    while prev != f:
        prev = f
        f = re.sub(r'<[^<>]*>', '', f)
    return f.strip()[:120]

def crash_key(text, rc):
    """A key that names the kind of report and the joedb function, without line numbers."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m: kind = 'asan:' + m.group(1)
    if not kind:
        m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', text)
        if m: kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
    if not kind or kind == 'asan:ABRT':
        m = re.search(r'runtime error: ([^\n]+)', text)
        if m: kind = 'ubsan:' + re.sub(r'-?\d[\d.e+]*', 'N', m.group(1))[:60].strip().replace(' ', '-')
        elif re.search(r'Assertion .* failed|__glibcxx_assert', text): kind = 'glibcxx-assertion'
        elif 'terminate called' in text: kind = 'terminate'
    if not kind: kind = 'crash:%d' % rc
    funcs = []
    for rx in (FRAME, FRAME2):
        for f, path, line in rx.findall(text):
            if (path.startswith(REPO) or '/.build/' in path and '/gen/' in path):
                c = clean_function(f)
                if not funcs or funcs[-1] != c: funcs.append(c)
        if funcs: break
    if kind.startswith('tsan:'):
        # the pair of innermost joedb frames of the two stacks
        stacks = re.split(r'\n\s*\n', text)
        tops = []
        for s in stacks:
            for rx in (FRAME2,):
                hit = [clean_function(f) for f, p, l in rx.findall(s) if p.startswith(REPO)]
                if hit:
                    tops.append(hit[0]); break
        return kind + ':' + '|'.join(sorted(set(tops[:2])))
    return kind + ':' + (funcs[0] if funcs else '?')

class Shard(threading.Thread):
    def __init__(self, check, run, binary, shard, shards, cases):
        super().__init__()
        self.check, self.run_, self.binary = check, run, binary
        self.shard, self.shards, self.cases = shard, shards, cases
        self.stats, self.violations, self.errors = [], [], []

    def command(self, out, d, start=0, only=None):
        r = self.run_
        c = [self.binary, r['mode'], '--seed', str(self.check.seed), '--shard', str(self.shard), '--shards', str(self.shards),
             '--cases', str(self.cases), '--out', out, '--dir', d, '--tier', self.check.tier]
        if start: c += ['--start', str(start)]
        if only is not None: c += ['--only', str(only)]
        for k, v in r.get('opts', {}).items(): c += ['--opt', '%s=%s' % (k, v)]
        for k, v in self.check.opts.items(): c += ['--opt', '%s=%s' % (k, v)]
        return c

    def execute(self, start=0, only=None, factor=1):
        """returns (returncode or 'hang', progress case, log text)"""
        r = self.run_
        tag = '%s_%s_%d' % (r['bin'], r['mode'], self.shard)
        out = '%s/%s.json' % (self.check.work, tag)
        d = '%s/%s.dir' % (self.check.work, tag)
        for f in (out, out + '.viol', out + '.progress'):
            if os.path.exists(f): os.unlink(f)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        log = out + '.log'
        limit = r.get('case_timeout', 60) * factor
        with open(log, 'w') as lf:
            p = subprocess.Popen(self.command(out, d, start, only), stdout=lf, stderr=lf, stdin=subprocess.DEVNULL,
                                 env=sanitizer_env(), start_new_session=True, cwd=d)
            last, since, hang, cut = None, time.time(), False, False
            while True:
                try:
                    p.wait(0.25); break
                except subprocess.TimeoutExpired: pass
                try: cur = open(out + '.progress', 'rb').read()
                except OSError: cur = b''
                if cur != last: last, since = cur, time.time()
                elif time.time() - since > limit:
                    hang = True
                    break
                if os.path.exists(log) and os.path.getsize(log) > 200e6:
                    hang = True; break
                if self.check.tier == 'quick' and time.time() - self.check.t0 > 700:
                    cut = True; break
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        text = open(log, errors='replace').read()
        if len(text) > 400000: text = text[:200000] + text[-200000:]
        try: case = int.from_bytes(open(out + '.progress', 'rb').read(8), 'little', signed=True)
        except OSError: case = -2
        st = None
        if os.path.exists(out):
            try: st = json.load(open(out))
            except ValueError: st = None
        viol = []
        if os.path.exists(out + '.viol'):
            for l in open(out + '.viol', errors='replace'):
                try: viol.append(json.loads(l))
                except ValueError: pass
        shutil.rmtree(d, ignore_errors=True)
        return ('cut' if cut else 'hang' if hang else p.returncode), case, text, st, viol

    def run(self):
        try: self.go()
        except Exception: self.errors.append(traceback.format_exc())

    def go(self):
        start, crashes = 0, 0
        while True:
            rc, case, text, st, viol = self.execute(start)
            if st: self.stats.append(st)
            for v in viol: v['log'] = ''; self.violations.append(v)
            if rc == 0:
                if not st: self.errors.append('no statistics')
                return
            if case < 0 and case != -1 or rc == 2:
                self.errors.append('harness error %s: %s' % (rc, text[-2000:])); return
            if rc == 'cut':
                self.errors.append('inconclusive: out of time in %s' % self.run_['mode']); return
            if rc == 'hang':
                rc2, case2, text2, st2, viol2 = self.execute(only=case, factor=2)
                if rc2 == 'hang' and self.run_.get('hang', 'violation') == 'violation':
                    self.violations.append({'key': 'hang', 'msg': 'case does not end', 'case': case, 'log': text2[-3000:]})
                elif rc2 == 'hang':
                    self.errors.append('inconclusive: case %d of %s did not end in time' % (case, self.run_['mode']))
                    return
                elif rc2 not in (0, 2):
                    self.crash(rc2, case, text2)
                else:
                    for v in viol2: v['log'] = ''; self.violations.append(v)
            else:
                self.crash(rc, case, text)
            crashes += 1
            if crashes >= (6 if time.time() - self.check.t0 < 200 else 1) or case == -1: return
            start = case + 1

    def crash(self, rc, case, text):
        if rc in (-9, 137) and 'Sanitizer' not in text:
            self.errors.append('inconclusive: killed by signal 9'); return
        if 'hard rss limit exhausted' in text:
            key = 'memory-limit'
        else: key = crash_key(text, rc)
        i = max(text.find('ERROR: AddressSanitizer'), text.find('WARNING: ThreadSanitizer'), text.find('runtime error:'), 0)
        self.violations.append({'key': key, 'msg': text[max(0, i - 200):i + 3500], 'case': case, 'log': ''})

def load_known():
    known = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: known.append(m.groups())
    return known

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.spec = registry.CHECKS[pid]
        self.opts = {}
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.builders, self.bins = {}, {}
        self.counters, self.sigs, self.samples = {}, set(), []
        self.evaluations = self.inconclusive = 0
        self.violations, self.errors = [], []

    def builder(self, variant):
        if variant not in self.builders: self.builders[variant] = Builder(variant)
        return self.builders[variant]

    def build(self, name):
        if name in self.bins: return self.bins[name]
        spec = registry.BINARIES[name]
        b = self.builder(spec.get('variant', 'asan'))
        gen = spec.get('schemas', [])
        if spec.get('encoded') or gen:
            j = b.joedbc()
            if spec.get('encoded'): b.generate_encoded(j)
            for g in gen: b.generate_schema(j, g)
        entries = [s if s.startswith('/') else VERIF + '/src/' + s for s in spec['sources']]
        entries = [s.replace('/REPO', SRC) for s in entries]
        extra = ['%s/%s/%s' % (b.gen, g, f) for g in gen for f in spec.get('schema_sources', ['writable.cpp'])]
        # generated sources take part in the closure
        self.bins[name] = b.binary(name, entries + [e for e in extra if os.path.exists(e)], spec.get('flags', ()))
        return self.bins[name]

    def note(self, key, n=1): self.counters[key] = self.counters.get(key, 0) + n

    def violation(self, key, msg, replay):
        self.violations.append({'key': key, 'msg': msg, 'replay': replay})

    def do_runs(self, runs):
        for r in runs:
            cases = r['cases'][0 if self.tier == 'quick' else 1]
            shards = min(r.get('shards', NPROC), cases)
            b = self.build(r['bin'])
            r['_t'] = [Shard(self, r, b, i, shards, cases) for i in range(shards)]
        # phases in parallel when they ask for few shards
        i = 0
        while i < len(runs):
            batch, n = [], 0
            while i < len(runs) and (not batch or n + len(runs[i]['_t']) <= NPROC):
                batch.append(runs[i]); n += len(runs[i]['_t']); i += 1
            t1 = time.time()
            for r in batch:
                for t in r['_t']: t.start()
            for r in batch:
                for t in r['_t']: t.join()
                print('  %-10s %-12s %.1fs' % (r['bin'], r['mode'], time.time() - t1))
        for r in runs:
            for t in r['_t']:
                for st in t.stats:
                    self.evaluations += st['evaluations']; self.inconclusive += st['inconclusive']
                    for k, v in st['counters'].items(): self.note(k, v)
                    self.sigs.update((r['mode'], s) for s in st['sigs'])
                    if len(self.samples) < 12: self.samples += st['samples'][:2]
                for v in t.violations:
                    self.violations.append({'key': r['mode'] + ':' + v['key'], 'msg': v['msg'] + v.get('log', ''),
                                            'replay': {'bin': r['bin'], 'mode': r['mode'], 'case': v['case'], 'cases': t.cases,
                                                       'opts': r.get('opts', {})}})
                self.errors += t.errors

    def finish(self):
        known = [k for k in load_known() if k[0] == self.pid]
        hit, new = {}, {}
        for v in self.violations:
            k = next((k for k in known if k[1] == v['key']), None)
            if k: hit[k[1]] = k
            else: new.setdefault(v['key'], v)
        for k in known:
            if k[1] in hit: print('KNOWN-FINDING: property=%s %s %s' % (self.pid, k[1], k[2]))
        d = VERIF + '/replays'
        os.makedirs(d, exist_ok=True)
        for i, (key, v) in enumerate(sorted(new.items())):
            if i >= 5: break
            f = '%s/%s_%d.json' % (d, self.pid, i)
            json.dump({'property': self.pid, 'key': key, 'seed': self.seed, 'tier': self.tier, 'msg': v['msg'], 'replay': v['replay']},
                      open(f, 'w'), indent=1)
            print('  %s: %s' % (key, v['msg'][:1500].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (self.pid, f))
        rc = 1 if new else 0
        for k in self.spec.get('require', []):
            if not self.counters.get(k) and not new:
                self.errors.append('nothing observed: counter %s is zero' % k)
        if self.errors:
            print('errors of the check (no verdict from them):')
            for e in self.errors[:5]: print('  ' + e[-1500:])
            if not new: rc = 2
        if self.inconclusive > max(3, 0.02 * self.evaluations) and not new:
            print('too many inconclusive cases: %d' % self.inconclusive); rc = 2
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.sigs), 'rule': self.spec['rule'],
               'samples': self.samples[:8] or ['none'], 'observed': self.counters, 'inconclusive': self.inconclusive}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.spec['level'], 'coverage': cov,
              'assumptions': self.spec.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(EVIDENCE, exist_ok=True)
        json.dump(ev, open('%s/%s.json' % (EVIDENCE, self.pid), 'w'), indent=1)
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d known, %.1fs' %
              (self.pid, self.tier, self.seed, self.evaluations, len(self.sigs), len(new), len(hit), time.time() - self.t0))
        print('observed: ' + ', '.join('%s=%d' % kv for kv in sorted(self.counters.items())))
        return rc

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in registry.CHECKS:
        print(__doc__, 'checks:', ' '.join(registry.CHECKS)); return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('--') else os.environ.get('VERIF_TIER', 'quick')
    if '--replay' in sys.argv:
        rep = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        os.environ['VERIF_SEED'] = str(rep['seed'])
        c = Check(pid, rep['tier'])
        if 'bin' in rep['replay']:
            r = dict(rep['replay'])
            b = c.build(r['bin'])
            s = Shard(c, r, b, 0, 1, r['cases'])
            rc, case, text, st, viol = s.execute(only=r['case'], factor=3)
            print(text[-6000:]); print(rc, json.dumps(viol, indent=1)[:4000])
            shutil.rmtree(c.work, ignore_errors=True)
            return 1 if viol or rc != 0 else 0
        return importlib.import_module(c.spec['module']).replay(c, rep)
    c = Check(pid, tier)
    try:
        if '--only-build' in sys.argv:
            for r in c.spec.get('runs', []): print(c.build(r['bin']))
            return 0
        if 'module' in c.spec: importlib.import_module(c.spec['module']).run(c)
        if c.spec.get('runs'): c.do_runs(c.spec['runs'])
        print('  build and run: %.1fs' % (time.time() - c.t0))
        return c.finish()
    except BuildError as e:
        print('cannot build: %s' % e); return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)

sys.exit(main())

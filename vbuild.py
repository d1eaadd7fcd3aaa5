"""Builds harnesses from /repo's working tree (public headers, no build files of the repo)."""
import os, re, subprocess, glob, hashlib, shutil, sys, fcntl

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.abspath(__file__))
SRC = REPO + '/src'
BUILD = os.environ.get('VERIF_BUILD', VERIF + '/.build')

DEFS = ['-DJOEDB_HAS_ASIO', '-DJOEDB_HAS_BOOST', '-DJOEDB_HAS_BROTLI', '-DJOEDB_HAS_CURL',
        '-DJOEDB_HAS_SSH', '-DJOEDB_VERSION=100402', '-D_FILE_OFFSET_BITS=64']
COMMON = ['-std=c++20', '-g1', '-O1', '-fno-omit-frame-pointer', '-fPIC', '-w',
          '-D_GLIBCXX_ASSERTIONS', '-DJOEDB_VERIF_HARNESS'] + DEFS
# memcpy(p, nullptr, 0) is not worth an alarm
UB = '-fsanitize=address,undefined -fno-sanitize=nonnull-attribute'
VARIANTS = {
    # functional harnesses: joedb's own debug assertions are on
    'asan': COMMON + [*UB.split(), '-fno-sanitize-recover=all'],
    # memory-safety harnesses: assertions off, as in a release build
    'fuzz': COMMON + [*UB.split(), '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-DNDEBUG'],
    'tsan': ['-I' + VERIF + '/src/tsan_include'] + COMMON + ['-fsanitize=thread'],
    'plain': COMMON,
}
LINK = {'asan': [UB], 'fuzz': [UB], 'tsan': ['-fsanitize=thread'], 'plain': []}

def find_lib(name):
    for pat in ('/usr/lib/x86_64-linux-gnu/lib%s.so', '/usr/lib/x86_64-linux-gnu/lib%s.so.*', '/usr/lib/lib%s.so*'):
        c = sorted(glob.glob(pat % name))
        if c: return c[0]
    return '-l' + name

LIBS = ['-pthread']
def libs():
    return [find_lib(n) for n in ('ssh', 'curl', 'brotlidec', 'brotlienc')] + ['-pthread']

INC = re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', re.M)
_inc_cache = {}
def includes(path):
    if path not in _inc_cache:
        try:
            _inc_cache[path] = INC.findall(open(path, errors='replace').read())
        except OSError:
            _inc_cache[path] = []
    return _inc_cache[path]

def is_main(path):
    t = open(path, errors='replace').read()
    return re.search(r'^\s*(int|auto)\s+main\s*\(', t, re.M) is not None

def closure(entries, incdirs):
    """Sources needed by the entries: every .cpp lying beside a reached header."""
    seen, todo, cpps = set(), list(entries), []
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        if f.endswith('.cpp') and f not in entries and not f.startswith(VERIF + '/src'):
            cpps.append(f)
        for inc in includes(f):
            for d in [os.path.dirname(f)] + incdirs:
                p = os.path.normpath(os.path.join(d, inc))
                if os.path.isfile(p):
                    todo.append(p)
                    if p.startswith(SRC) and p.endswith('.h'):
                        c = p[:-2] + '.cpp'
                        if os.path.isfile(c): todo.append(c)
                    break
    return seen, cpps

class BuildError(Exception):
    pass

def skip(path):
    b = os.path.basename(path)
    return re.search('Windows|Android|Apple', b) or 'Websocket' in b or is_main(path) or '/db/encoded_file/' in path or b == 'minimal_runtime.cpp'

def all_sources():
    return [f for f in sorted(glob.glob(SRC + '/**/*.cpp', recursive=True)) if not skip(f)]

# sources included by other sources must not be compiled on their own
def drop_included(srcs):
    inc = set()
    for s in srcs:
        for i in includes(s):
            if i.endswith('.cpp'):
                for d in (os.path.dirname(s), SRC):
                    p = os.path.normpath(os.path.join(d, i))
                    if os.path.isfile(p): inc.add(p)
        # #include JOEDB_INCLUDE(JOEDB_FILE,cpp): the platform's source, here Posix_*.cpp
        try:
            if re.search(r'#\s*include\s+JOEDB_INCLUDE\(\w+,\s*cpp', open(s, errors='replace').read()):
                inc.update(glob.glob(os.path.dirname(s) + '/Posix_%s.cpp' % ('File' if s.endswith('/File.cpp') else 'Logger')))
        except OSError: pass
    return [s for s in srcs if s not in inc]

class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.dir = '%s/%s' % (BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(self.dir + '/lock', 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.gen = self.dir + '/gen'
        self.log = ''

    def objname(self, src):
        return 'o/' + hashlib.sha1(src.encode()).hexdigest()[:8] + '_' + os.path.basename(src)[:-4] + '.o'

    def ninja(self, name, entries, out, extra_flags=(), full=False, extra_srcs=()):
        incdirs = [self.gen, SRC, VERIF + '/src']
        seen, cpps = closure(entries, incdirs)
        srcs = [c for c in cpps if c.startswith(SRC) and not skip(c)]
        if full: srcs = all_sources()
        srcs = drop_included(srcs)
        if any('/db/encoded_file/' in f for f in seen) or full:
            g = self.gen + '/joedb/db/encoded_file/writable.cpp'
            if os.path.isfile(g): srcs.append(g)
            else: srcs = [s for s in srcs if not self.uses_encoded(s)]
        flags = VARIANTS[self.variant] + list(extra_flags)
        inc = '-I%s -I%s/src -isystem %s' % (self.gen, VERIF, SRC)
        lines = ['rule cxx', ' command = clang++ %s %s -MD -MF $out.d -c $in -o $out' % (' '.join(flags), inc),
                 ' depfile = $out.d', ' deps = gcc',
                 'rule link', ' command = clang++ %s -o $out $in %s' % (' '.join(LINK[self.variant]), ' '.join(libs()))]
        objs = []
        for s in list(entries) + srcs + list(extra_srcs):
            o = self.objname(s)
            if o in objs: continue
            objs.append(o)
            lines.append('build %s: cxx %s' % (o, s))
        lines.append('build %s: link %s' % (out, ' '.join(objs)))
        f = '%s/%s.ninja' % (self.dir, name)
        open(f, 'w').write('\n'.join(lines) + '\n')
        r = subprocess.run(['ninja', '-f', f], cwd=self.dir, capture_output=True, text=True)
        return r

    def uses_encoded(self, s):
        return any('Encoded_File' in i or 'encoded_file' in i or 'Brotli_File' in i for i in includes(s))

    def binary(self, name, entries, extra_flags=(), extra_srcs=()):
        out = 'bin_' + name
        r = self.ninja(name, entries, out, extra_flags, False, extra_srcs)
        if r.returncode and ('undefined reference' in r.stdout or 'undefined symbol' in r.stdout):
            if os.environ.get('VERIF_DEBUG'): print([l[:200] for l in r.stdout.split('\n') if 'undefined re' in l and not l.startswith('[')][:5])
            r = self.ninja(name, entries, out, extra_flags, True, extra_srcs)
        if r.returncode:
            txt = r.stdout + r.stderr
            err = [l for l in txt.split('\n') if ('error:' in l or 'undefined re' in l or 'multiple def' in l) and '-o o/' not in l]
            raise BuildError(name + ':\n' + '\n'.join(l[:300] for l in err[:20]) + ('' if err else '\n' + txt[-1500:]))
        return self.dir + '/' + out

    def joedbc(self):
        """joedbc from the working tree; nothing it needs uses generated code."""
        return self.binary('joedbc', [SRC + '/joedb/compiler/joedbc.cpp'])

    def generate(self, joedbc, basedir, base, outdir):
        """Run joedbc on basedir/base.* into outdir, in a fresh directory, keeping unchanged files' times."""
        tmp = self.dir + '/gentmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for f in glob.glob(basedir + '/' + base + '.*'):
            (shutil.copytree if os.path.isdir(f) else shutil.copy)(f, tmp + '/' + os.path.basename(f))
        r = subprocess.run([joedbc, base], cwd=tmp, capture_output=True, text=True,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'), timeout=300)
        if r.returncode or not os.path.isdir(tmp + '/' + base):
            raise BuildError('joedbc %s failed (%d): %s' % (base, r.returncode, (r.stdout + r.stderr)[-3000:]))
        dst = outdir + '/' + base
        os.makedirs(dst, exist_ok=True)
        new = set()
        for root, _, files in os.walk(tmp + '/' + base):
            for f in files:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, tmp + '/' + base)
                new.add(rel)
                q = os.path.join(dst, rel)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                data = open(p, 'rb').read()
                if not os.path.isfile(q) or open(q, 'rb').read() != data:
                    open(q, 'wb').write(data)
        for root, _, files in os.walk(dst):
            for f in files:
                p = os.path.join(root, f)
                if os.path.relpath(p, dst) not in new: os.unlink(p)
        shutil.rmtree(tmp, ignore_errors=True)
        _inc_cache.clear()

    def generate_encoded(self, joedbc):
        self.generate(joedbc, SRC + '/joedb/db', 'encoded_file', self.gen + '/joedb/db')

    def generate_schema(self, joedbc, base, srcdir=None):
        d = srcdir or VERIF + '/schemas'
        self.generate(joedbc, d, base, self.gen)
        import glue
        tmp = self.gen + '/glue_%s.h' % base
        glue.write(base, d + '/%s.joedbi' % base, d + '/%s.joedbc' % base, tmp + '.new')
        if os.path.exists(tmp) and open(tmp).read() == open(tmp + '.new').read(): os.unlink(tmp + '.new')
        else: os.rename(tmp + '.new', tmp)

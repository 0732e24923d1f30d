"""Front end: compile every tracked source file of the library to LLVM IR (no
optimisation, names kept) in a scratch directory and merge the resulting modules
into one program: function table, aliases, globals, demangled names."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile

from irparse import Module, demangle, size_of, field_off, IRError, unq

REPO = os.environ.get('LEV_REPO', '/repo')


class BuildError(Exception):
    pass


def tracked_sources(repo):
    """library sources as the build sees them: every .cpp below src (tracked or new)"""
    out = []
    for root, ds, fs in os.walk(os.path.join(repo, 'src')):
        for f in fs:
            if f.endswith(('.cpp', '.cc', '.cxx')) and not f.endswith('.pb.cc'):
                out.append(os.path.join(root, f))
    return sorted(out)


class Program:
    def __init__(self, repo=REPO, keep=None):
        self.repo = repo
        self.dir = keep or tempfile.mkdtemp(prefix='levlint.')
        self.own = keep is None
        self.mods = []
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self._dem = {}
        self.by_dem = {}
        self._ginit = {}

    def close(self):
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)

    def flags(self):
        return ['-std=c++20', '-I' + os.path.join(self.dir, 'gen'), '-I' + os.path.join(self.repo, 'src'),
                '-I' + os.path.join(self.repo, 'third-party')]

    def gen_proto(self):
        gen = os.path.join(self.dir, 'gen')
        out = os.path.join(gen, 'liblevenshtein', 'proto')
        os.makedirs(out, exist_ok=True)
        protos = [f for f in os.listdir(os.path.join(self.repo, 'proto')) if f.endswith('.proto')]
        r = subprocess.run(['protoc', '-I' + os.path.join(self.repo, 'proto'), '--cpp_out=' + out] + protos,
                           capture_output=True, text=True, cwd=os.path.join(self.repo, 'proto'))
        if r.returncode:
            raise BuildError('protoc: ' + r.stderr[-2000:])

    def build(self):
        self.gen_proto()
        srcs = tracked_sources(self.repo)
        tp = os.path.join(self.repo, 'third-party', 'MurmurHash2.cpp')
        if os.path.exists(tp):
            srcs.append(tp)
        if len(srcs) < 2:
            raise BuildError('no sources')
        self.srcs = srcs
        extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'uses.cpp')

        def one(s):
            o = os.path.join(self.dir, os.path.relpath(s, self.repo).replace('../', '').replace('/', '_') + '.ll')
            r = subprocess.run(['clang++'] + self.flags() +
                               ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
                                '-fno-discard-value-names', '-w', '-S', '-emit-llvm', '-o', o, s],
                               capture_output=True, text=True)
            if r.returncode:
                if s == extra:
                    return None
                raise BuildError(f'{s}: {r.stderr[-2000:]}')
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            outs = [o for o in ex.map(one, srcs + [extra]) if o]
        self.load(outs)
        return self

    def load(self, outs):
        internal = set()
        for i, o in enumerate(outs):
            with open(o) as f:
                text = f.read()
            # file-local symbols of different files may share a name
            mine = set(re.findall(r'^define (?:internal|private)[^@]*@([-\w.$]+)\(', text, re.M))
            mine |= set(re.findall(r'^@([-\w.$]+) = (?:internal|private) ', text, re.M))
            clash = mine & internal
            if clash:
                rx = re.compile(r'@(' + '|'.join(re.escape(c) for c in sorted(clash, key=len, reverse=True)) + r')(?![-\w.$])')
                text = rx.sub(lambda m: f'@{m.group(1)}.m{i}', text)
            internal |= mine
            m = Module(o, text)
            self.mods.append(m)
            self.aliases.update(m.aliases)
            for n, f in m.funcs.items():
                # prefer the out-of-line definition, internal functions keep their own module
                if n not in self.funcs:
                    self.funcs[n] = f
            for n, g in m.globals.items():
                if n not in self.globals or self.globals[n].get('external'):
                    self.globals[n] = g
        names = set(self.funcs) | set(self.globals)
        # every called name (for declarations)
        rx = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(')
        for m in self.mods:
            for f in m.funcs.values():
                for l in f._body:
                    if 'call' in l or 'invoke' in l:
                        for x in rx.findall(l):
                            names.add(x.strip('"'))
        self._dem.update(demangle(sorted(names)))
        for n, f in self.funcs.items():
            f.dem = self._dem.get(n, n)
            self.by_dem.setdefault(f.dem, []).append(f)

    # -------------------------------------------------------------- lookups
    def dem(self, n):
        d = self._dem.get(n)
        if d is None:
            d = demangle([n]).get(n, n)
            self._dem[n] = d
        return d

    def resolve(self, n):
        k = 0
        while n not in self.funcs and n in self.aliases and k < 5:
            n = self.aliases[n]
            k += 1
        return n

    def has_func(self, n):
        return n in self.funcs

    def is_decl(self, n):
        return n not in self.funcs and n not in self.globals

    def func_by_name(self, n):
        return self.funcs[self.resolve(n)]

    def find(self, pat):
        """all defined functions whose demangled name matches the regex (search)"""
        rx = re.compile(pat)
        return [f for d, fs in sorted(self.by_dem.items()) if rx.search(d) for f in fs]

    def func(self, pat):
        if pat in self.funcs:
            return self.funcs[pat]
        fs = self.by_dem.get(pat) or self.find(pat)
        if not fs:
            raise AnchorLost(pat)
        if len(fs) > 1:
            # complete-object and base-object constructors: take the first
            ds = {f.dem for f in fs}
            if len(ds) > 1:
                raise AnchorLost(f'ambiguous {pat}: {sorted(ds)[:4]}')
        return fs[0]

    def relpath(self, f):
        if f and f.startswith(self.repo + '/'):
            return f[len(self.repo) + 1:]
        return f or '?'

    def global_const(self, n):
        g = self.globals.get(n)
        return bool(g and g.get('const'))

    def unshared(self, n):
        """one per thread, or the compiler's own flag that a local static is initialised"""
        g = self.globals.get(n)
        return n.startswith('_ZGV') or bool(g and g.get('tls'))

    def global_init(self, n):
        if n in self._ginit:
            return self._ginit[n]
        g = self.globals.get(n)
        r = None
        if g is not None and g.get('raw'):
            r = parse_init(g['raw'], n)
        self._ginit[n] = r
        return r


class AnchorLost(Exception):
    pass


def parse_init(raw, name):
    """vtables only: { [k x ptr] [ptr ..., ptr ...] } -> {byte offset: entry}"""
    if not name.startswith('_ZTV'):
        m = re.search(r'constant i(\d+) (-?\d+)', raw)
        if m:
            return {0: ('int', int(m.group(2)))}
        m = re.search(r'constant (?:i1 )(true|false)', raw)
        if m:
            return {0: ('int', 1 if m.group(1) == 'true' else 0)}
        return {}
    out, off = {}, 0
    for arr in re.finditer(r'\[(\d+) x ptr\] \[(.*?)\](?=[ ,}])', raw):
        for e in re.finditer(r'ptr (null|@"[^"]*"|@[-\w.$]+|inttoptr \(i64 (-?\d+) to ptr\))', arr.group(2)):
            t = e.group(1)
            if t == 'null':
                out[off] = ('int', 0)
            elif t.startswith('@'):
                out[off] = ('fn', t[1:].strip('"'))
            else:
                out[off] = ('int', int(e.group(2)))
            off += 8
    return out

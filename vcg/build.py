"""Extraction: compile /repo's current sources to LLVM bitcode (unoptimised code generation, then
SROA/simplifycfg/loop-simplify/lcssa so that locals are in SSA form) and dump class layouts.
Nothing of the functions' bodies is dropped; exceptional clean-up blocks (destructors run while
unwinding) are present in the bitcode but not followed by the verifier."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SCL = REPO + '/secure-computation-library'
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['-std=c++17', '-msse4.1', '-maes', '-O0', '-Xclang', '-disable-O0-optnone', '-DNDEBUG',
         '-fno-discard-value-names', '-include', 'cstdint', '-I' + REPO + '/src',
         '-I' + SCL + '/include', '-w']


class BuildError(Exception):
    pass


def norm_type(s):
    s = re.sub(r'\b(class|struct|enum|union) ', '', s)
    s = re.sub(r'\s+>', '>', s)
    s = s.replace('NamedField::Mersenne61', 'M61').replace('NamedField::Mersenne127', 'M127')
    s = s.replace('scl::details::FiniteField<M61>', 'M61').replace('scl::details::FiniteField<M127>', 'M127')
    s = s.replace('scl::details::FiniteField<scl::details::M61>', 'M61').replace('scl::details::FiniteField<scl::details::M127>', 'M127')
    s = s.replace('scl::details::FF<61, M61>', 'FF61').replace('scl::details::FF<127, M127>', 'FF127')
    for n in ('61', '127'):
        s = s.replace('scl::details::FF<%s, scl::details::FieldSelector<%s>::Field>' % (n, n), 'FF' + n)
        s = s.replace('scl::details::FF<%s>' % n, 'FF' + n).replace('scl::FF<%s>' % n, 'FF' + n)
    return s.strip()


def sources(which):
    tp = sorted(glob.glob(REPO + '/src/tp/**/*.cc', recursive=True))
    scl = sorted(glob.glob(SCL + '/src/scl/**/*.cc', recursive=True))
    extra = [HERE + '/tu/' + w[3:] + '.cc' for w in which if w.startswith('tu:')]
    out = list(extra)
    for w in which:
        if w == 'tp':
            out += tp
        elif w == 'scl':
            out += scl
        elif not w.startswith('tu:'):
            out += [s for s in tp + scl if s.endswith('/' + w)]
    seen = []
    for s in out:
        if s not in seen:
            seen.append(s)
    return seen


def compile_one(src, out, layout):
    cmd = ['clang++'] + FLAGS + ['-c', '-emit-llvm', src, '-o', out]
    if layout:
        cmd += ['-Xclang', '-fdump-record-layouts']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang++ failed on %s:\n%s' % (src, r.stderr[-4000:]))
    return r.stdout


def build(which, workdir, passes='sroa,simplifycfg,loop-simplify,lcssa'):
    """which: list of 'scl', 'tp', 'tu:NAME', or a source-file suffix. Returns (bitcode, layouts)"""
    os.makedirs(workdir, exist_ok=True)
    srcs = sources(which)
    bcs, lays = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        fs = []
        for i, s in enumerate(srcs):
            o = '%s/u%d.bc' % (workdir, i)
            bcs.append(o)
            fs.append(ex.submit(compile_one, s, o, True))
        for f in fs:
            lays.append(f.result())
    linked = workdir + '/all.bc'
    if len(bcs) > 1:
        r = subprocess.run(['llvm-link', '-o', linked] + bcs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link: ' + r.stderr[-3000:])
    else:
        shutil.copy(bcs[0], linked)
    outp = workdir + '/opt.bc'
    r = subprocess.run(['opt', '-passes=' + passes, linked, '-o', outp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('opt: ' + r.stderr[-3000:])
    return outp, Layouts(lays)


try:
    BASE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layouts.json')))
except OSError:
    BASE = None


class Layouts:
    def __init__(self, dumps):
        self.rec = {}
        for d in dumps:
            self._parse(d)
        self._labels()

    def _labels(self):
        """A member that was renamed keeps the label the contracts know it by: members whose name is not in the
        recorded layout take, in order, the recorded names of the same type that have disappeared.  Only labels
        depend on this; offsets and types come from the compiler."""
        if BASE is None:
            return
        for cls, (size, fields) in self.rec.items():
            base = BASE.get(cls)
            if not base:
                continue
            have = {n for _, _, n in fields}
            free = [(t, n) for t, n in base if n not in have]
            old = {n for _, n in base}
            out = []
            for off, t, n in fields:
                if n not in old:
                    k = next((i for i, (t2, _) in enumerate(free) if t2 == t), None)
                    if k is not None:
                        n = free.pop(k)[1]
                out.append((off, t, n))
            self.rec[cls] = (size, out)

    def _parse(self, txt):
        for blk in txt.split('*** Dumping AST Record Layout')[1:]:
            lines = [l for l in blk.split('\n') if re.match(r'^\s*[\d:\-]+ \| ', l)]
            if not lines:
                continue
            m = re.match(r'^\s*0 \| (.*?)( \(empty\))?$', lines[0])
            if not m:
                continue
            name = norm_type(m.group(1))
            size = re.search(r'\[sizeof=(\d+)', blk)
            size = int(size.group(1)) if size else 0
            fields = []
            vptr = False
            for l in lines[1:]:
                m = re.match(r'^\s*(\d+)(:[\d\-]+)? \| (\s+)(.*)$', l)
                if not m:
                    continue
                off, ind, rest = int(m.group(1)), len(m.group(3)), m.group(4)
                if ind != 2:
                    continue
                rest = re.sub(r' \(empty\)$', '', rest)
                if rest.startswith('('):       # vtable pointer
                    fields.append((off, 'vptr', '$vptr'))
                    continue
                mm = re.match(r'^(.*) \((primary )?(virtual )?base\)$', rest)
                if mm:
                    fields.append((off, norm_type(mm.group(1)), '$base'))
                    continue
                ty, _, nm = rest.rpartition(' ')
                fields.append((off, norm_type(ty), nm))
            if name not in self.rec or len(fields) > len(self.rec[name][1]):
                self.rec[name] = (size, fields)

    def field(self, cls, name):
        """(offset, type) of a possibly inherited member"""
        r = self.rec.get(cls)
        if not r:
            raise KeyError(cls)
        for off, ty, nm in r[1]:
            if nm == name:
                return off, ty
        for off, ty, nm in r[1]:
            if nm == '$base':
                try:
                    o, t = self.field(ty, name)
                    return off + o, t
                except KeyError:
                    pass
        raise KeyError(cls + '::' + name)

"""Build LLVM IR and harness executables from /repo's current working tree."""
import os, subprocess, glob, shutil, concurrent.futures as cf
from . import cext
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = '/opt/cryptokit-deps/usr'
ZDIR = DEPS + '/lib/ocaml/zarith'
ENV = dict(os.environ)
ENV['PATH'] = DEPS + '/bin:/usr/local/bin:/usr/bin:/bin'
ENV['OCAMLPATH'] = DEPS + '/lib/ocaml'
ENV['CAML_LD_LIBRARY_PATH'] = DEPS + '/lib/ocaml/stublibs'
for k in ('OCAMLPARAM', 'OCAMLRUNPARAM'): ENV.pop(k, None)

class BuildError(Exception): pass

def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout + r.stderr)

def stubs_native(out, hw=True, extra=(), fake=False):
    os.makedirs(out, exist_ok=True)
    fs = sorted(glob.glob(REPO + '/src/stubs-*.c')) + [HERE + '/harness/sym_stubs.c'] + ([HERE + '/harness/fakeenv.c'] if fake else [])
    flags = list(cext.CFLAGS) + (['-maes', '-mpclmul'] if hw else [])
    def one(f):
        sh(['gcc', '-O1', '-w', '-fPIC'] + flags + ([] if '/harness/' in f else ['-Dcaml_stat_alloc=sym_stat_alloc', '-Dcaml_stat_free=sym_stat_free']) + list(extra) + ['-I/usr/lib/ocaml', '-I' + ZDIR, '-c', f, '-o', os.path.join(out, os.path.basename(f)[:-2] + '.o')], out)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, fs))
    return sorted(glob.glob(out + '/*.o'))

def ml_lib(work):
    for f in ('cryptokitBignum', 'cryptokit'):
        for e in ('.mli', '.ml'):
            shutil.copy(REPO + '/src/' + f + e, work)
            sh(['ocamlc', '-safe-string', '-w', '-a', '-I', ZDIR, '-c', f + e], work)

def fakes(names): return any(n in ('h_env', 'h_range', 'h_gc', 'h_wipe', 'h_misc') for n in names)

def harness(work, names, objs):
    """names: harness files (without .ml); returns executable path"""
    mods = ['sym', 'hutil'] + (['h_fake'] if fakes(names) else []) + names
    for m in mods:
        shutil.copy(HERE + '/harness/%s.ml' % m, work)
        sh(['ocamlc', '-safe-string', '-w', '-a', '-I', ZDIR, '-c', m + '.ml'], work)
    with open(work + '/zz_main.ml', 'w') as f: f.write('let () = Sym.main ()\n')
    exe = work + '/h_' + '_'.join(names)
    early = []
    for o in [o for o in objs if o.endswith('fakeenv.o')]: early = ['-ccopt', o]; objs = [x for x in objs if x != o]
    sh(['ocamlc', '-custom', '-w', '-a', '-I', ZDIR] + early + ['-o', exe, 'unix.cma', 'zarith.cma', 'cryptokitBignum.cmo', 'cryptokit.cmo']
       + [m + '.cmo' for m in mods] + ['zz_main.ml'] + objs + ['-ccopt', '-L' + ZDIR, '-ccopt', '-L' + DEPS + '/lib/x86_64-linux-gnu', '-cclib', '-lz', '-cclib', '-lgmp'], work)
    return exe

def build(work, names, hw=True):
    """returns (exe, IR list)"""
    os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(4) as ex:
        ir = ex.submit(cext.build_ir, work + '/ir', REPO + '/src', hw, 8, '-O1', [HERE + '/harness/fakeenv.c'] if fakes(names) else [])
        ob = ex.submit(stubs_native, work + '/obj', hw, (), fakes(names))
        ml = ex.submit(ml_lib, work)
        irl = ir.result(); objs = ob.result(); ml.result()
    bad = [e for _, e in irl if e]
    if bad: raise BuildError(bad[0])
    exe = harness(work, names, objs)
    return exe, [o for o, _ in irl]

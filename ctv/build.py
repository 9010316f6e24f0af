"""Compile a harness unit against /repo's current headers and lower it to the IR the verifier reads."""
import hashlib
import os
import re
import subprocess
import tempfile
from . import ir

REPO = os.environ.get('CTV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++'
OPT_PASSES = 'always-inline,cgscc(inline),function(sroa,early-cse,simplifycfg),globaldce'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p.returncode, p.stdout, p.stderr


def compile_ir(src, defs=(), std='c++20', workdir=None, extra=(), passes=OPT_PASSES, noinline=()):
    """returns (module, ir_text). src: path of the harness"""
    wd = workdir or tempfile.mkdtemp(prefix='ctv.')
    base = os.path.join(wd, os.path.basename(src) + '.' + hashlib.sha1(repr((src, defs, std)).encode()).hexdigest()[:8])
    ll, ll2 = base + '.ll', base + '.opt.ll'
    cmd = [CLANG, '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-strict-aliasing',
           '-fno-vectorize', '-S', '-emit-llvm', '-w', '-ferror-limit=5', '-fconstexpr-steps=20000000',
           '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'units')] + list(defs) + list(extra) + [src, '-o', ll]
    rc, out, err = run(cmd)
    if rc != 0:
        raise BuildError('harness does not compile against the current tree:\n' + err[:4000])
    if passes:
        rc, out, err = run(['opt', '-S', '-passes=' + ('forceattrs,' if noinline else '') + passes, '-inline-threshold=100000'] + ['-force-attribute=%s:noinline' % f for f in noinline] + [ll, '-o', ll2])
        if rc != 0:
            raise BuildError('opt failed: ' + err[:2000])
    else:
        ll2 = ll
    text = open(ll2).read()
    m = ir.parse(text)
    if not workdir:
        for f in (ll, ll2):
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(wd)
    names = [n for n in list(m.decls) + list(m.funcs)]
    rc, out, _ = run(['c++filt'], input='\n'.join(names))
    m.demangled = dict(zip(names, out.split('\n')))
    return m, text

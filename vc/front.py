"""Front end: exports clang's AST of /repo's current sources (nothing is cached between source changes)."""
import os, subprocess, json, hashlib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
DIRS = ['nlp_common', 'incr_models', 'sw_models', 'phrase_models', 'smt_preproc', 'error_correction', 'downhill_simplex', 'stack_dec', 'hat_trie', 'picojson']
def build_dir():
    d = os.path.join(os.path.dirname(HERE), 'build'); os.makedirs(d, exist_ok=True); return d
def cflags():
    r = ['-std=gnu++11', '-w'] + ['-I%s/src/%s' % (REPO, d) for d in DIRS] + ['-I%s/src' % REPO]
    return r + ['-DHAVE_CONFIG_H', '-I%s/_build/src' % REPO, '-I%s/harness/fallback' % os.path.dirname(HERE), '-DTHOT_MASTER_INI_PATH="x"', '-DTHOT_LIBDIR="x"']
def plugin():
    so = os.path.join(build_dir(), 'exporter.so'); src = os.path.join(HERE, 'frontend', 'exporter.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    st = so + '.sha'
    if not (os.path.exists(so) and os.path.exists(st) and open(st).read() == h):
        tmp = so + '.%d' % os.getpid()
        subprocess.check_call(['g++', '-std=c++17', '-O1', '-fPIC', '-shared', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp])
        os.replace(tmp, so); open(st, 'w').write(h)
    return so
def export(src=None, text=None, name='tu'):
    """returns the exported AST of one translation unit (a /repo source file, or a driver including /repo headers)"""
    with tempfile.TemporaryDirectory(prefix='vcx') as d:
        if src is None:
            src = os.path.join(d, name + '.cc'); open(src, 'w').write(text)
        elif not src.startswith('/'): src = os.path.join(REPO, 'src', src)
        out = os.path.join(d, 'o.json')
        P = ['-Xclang', '-plugin-arg-vcexport', '-Xclang']
        r = subprocess.run(['clang++'] + cflags() + ['-fsyntax-only', '-Xclang', '-load', '-Xclang', plugin(), '-Xclang', '-plugin', '-Xclang', 'vcexport'] + P + ['out=' + out] + P + ['prefix=%s/src' % REPO] + (P + ['prefix=' + d + '/'] if text else []) + [src], stderr=subprocess.PIPE, text=True)
        if r.returncode != 0: raise RuntimeError('front end failed on %s:\n%s' % (src, r.stderr[:3000]))
        return json.load(open(out))
if __name__ == '__main__': print(plugin())

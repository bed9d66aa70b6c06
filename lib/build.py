"""Incremental, content-addressed builds of /repo's working tree into /verif/.build (git-ignored)."""
import os, sys, subprocess, hashlib, fcntl, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', ROOT + '/.build')
SRC = B + '/src'
H = ROOT + '/harness/'
NPROC = os.cpu_count() or 4
COMMON = ['--wrap-mode=nodownload', '-Ddefault_library=static', '-Denable_tests=false', '-Db_lundef=false', '-Dwerror=false']
SAN = '-fno-omit-frame-pointer -fno-sanitize-recover=all -fno-sanitize=function'
VARIANTS = {
    # name: (compiler, meson args, c_args, link flags for harness executables)
    'rel':  ('gcc', ['--buildtype=release', '-Db_ndebug=false', '-Dtrim_dsp=false', '-Denable_tools=true', '-Dxxhash_muxer=enabled'], '-O2 -g1', ''),
    'asan': ('clang', ['--buildtype=plain', '-Db_ndebug=false', '-Dtrim_dsp=false', '-Denable_tools=true', '-Dxxhash_muxer=enabled'], '-O1 -g1 -fsanitize=address,undefined ' + SAN, '-fsanitize=address,undefined ' + SAN),
    'nd':   ('clang', ['--buildtype=plain', '-Db_ndebug=true', '-Dtrim_dsp=false', '-Denable_tools=true', '-Dxxhash_muxer=enabled'], '-O1 -g1 -fsanitize=address,undefined ' + SAN, '-fsanitize=address,undefined ' + SAN),   # as released: no assertions
    'rls':  ('gcc', ['--buildtype=release', '-Db_ndebug=true', '-Dtrim_dsp=true', '-Denable_tools=false'], '-g1', ''),                               # as distributed
    'b8':   ('gcc', ['--buildtype=release', '-Db_ndebug=true', '-Dtrim_dsp=true', '-Dbitdepths=8', '-Dlogging=false', '-Denable_tools=false'], '-g1', ''),
    'b16':  ('gcc', ['--buildtype=release', '-Db_ndebug=true', '-Dtrim_dsp=true', '-Dbitdepths=16', '-Denable_tools=false'], '-g1', ''),
    'ck': ('gcc', ['--buildtype=release', '-Db_ndebug=false', '-Dtrim_dsp=false', '-Denable_tools=false', '-Denable_tests=true'], '-O2 -g1', ''),      # the repository's kernel comparison program
    'tsan': ('clang', ['--buildtype=plain', '-Db_ndebug=false', '-Denable_asm=false', '-Denable_tools=false'], '-O1 -g1 -fsanitize=thread -fsanitize-coverage=trace-pc-guard -include ' + H + 'vatomic.h', '-fsanitize=thread'),
    'msan': ('clang', ['--buildtype=plain', '-Db_ndebug=false', '-Denable_asm=false', '-Denable_tools=true', '-Dxxhash_muxer=enabled'], '-O1 -g1 -fsanitize=memory -fno-sanitize-recover=all -fno-omit-frame-pointer', '-fsanitize=memory'),
    'edge': ('clang', ['--buildtype=plain', '-Db_ndebug=false', '-Denable_asm=false', '-Denable_tools=false'], '-O2 -g1 -fsanitize-coverage=trace-pc-guard -include ' + H + 'vatomic.h', ''),
}
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'memalign', 'pthread_create', 'pthread_join', 'dav1d_mem_pool_pop', 'dav1d_mem_pool_push']
SCHED = ['pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_wait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_once']
CLIW = ['dav1d_open', 'dav1d_close', 'dav1d_send_data', 'dav1d_get_picture', 'dav1d_data_create', 'dav1d_data_unref', 'dav1d_picture_unref', 'dav1d_set_cpu_flags_mask', 'nanosleep']
# executables: (variant, sources, extra flags)
def wl(names): return ','.join(['-Wl'] + ['--wrap=' + n for n in names])
EXES = {
    'vdec_rel':  ('rel', ['vdec.c', 'wrap.c'], [wl(WRAP)]),
    'vdec_asan': ('asan', ['vdec.c', 'wrap.c'], [wl(WRAP)]),
    'vdec_tsan': ('tsan', ['vdec.c', 'wrap.c', 'sched.c'], [wl(WRAP + SCHED), '-DSCHED']),
    'vdec_msan': ('msan', ['vdec.c', 'wrap.c'], [wl(WRAP), '-DMSAN']),
    'vdec_edge': ('edge', ['vdec.c', 'wrap.c', 'sched.c'], [wl(WRAP + SCHED), '-DSCHED']),
    'vdec_rls': ('rls', ['vdec.c', 'wrap.c'], [wl(WRAP)]),
    'vdec_b8': ('b8', ['vdec.c', 'wrap.c'], [wl(WRAP)]),
    'vdec_b16': ('b16', ['vdec.c', 'wrap.c'], [wl(WRAP)]),
    'vargs_nd': ('nd', ['vargs.c', 'wrap.c'], [wl(WRAP)]),
    'vmulti_rel': ('rel', ['vmulti.c'], []),
    'vmulti_tsan': ('tsan', ['vmulti.c'], ['-DTSAN']),
    'checkasm': ('ck', [], ['CHECKASM']),
    'vcli_rel': ('rel', ['vcli.c'], [wl(CLIW), 'CLI']),
    'vcli_asan': ('asan', ['vcli.c'], [wl(CLIW), 'CLI']),
    'vcli_nd': ('nd', ['vcli.c'], [wl(CLIW), 'CLI']),
    'vcli_msan': ('msan', ['vcli.c'], [wl(CLIW), 'CLI']),
}
class BuildError(Exception): pass
def fh(p):
    with open(p, 'rb') as f: return hashlib.sha256(f.read()).digest()
def log(*a): print('[build]', *a, file=sys.stderr, flush=True)
def lock():
    os.makedirs(B, exist_ok=True); f = open(B + '/lock', 'w'); fcntl.flock(f, fcntl.LOCK_EX); return f
def sync():
    """Mirror the parts of /repo the build needs, by content: only files whose bytes differ are rewritten
    (and so get a fresh mtime), whatever the timestamps in /repo look like."""
    want = {}
    for top in ('include', 'src', 'tools', 'ext', 'doc', 'examples', 'tests'):
        for d, ds, fs in os.walk(f'{REPO}/{top}'):
            ds[:] = [x for x in ds if x not in ('.git', 'dav1d-test-data', 'argon')]
            if top == 'tests' and d != f'{REPO}/tests' and 'libfuzzer' not in d and 'checkasm' not in d: fs = [x for x in fs if x == 'meson.build']
            for f in fs: want[os.path.relpath(os.path.join(d, f), REPO)] = 1
    for f in ('meson.build', 'meson_options.txt', 'NEWS'):
        if os.path.exists(f'{REPO}/{f}'): want[f] = 1
    changed = 0
    for rel in want:
        s, d = f'{REPO}/{rel}', f'{SRC}/{rel}'
        if os.path.islink(s) and not os.path.exists(s): continue
        data = open(s, 'rb').read()
        try:
            if open(d, 'rb').read() == data: continue
        except OSError: pass
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, 'wb') as o: o.write(data)
        changed += 1
    for d, ds, fs in os.walk(SRC):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), SRC)
            if rel not in want: os.unlink(os.path.join(d, f)); changed += 1
    return changed
def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf-8', 'replace')
def build_lib(v, targets):
    cc, margs, cargs, _ = VARIANTS[v]; d = f'{B}/{v}'
    env = dict(os.environ, CC=cc, CFLAGS='', LDFLAGS='', LC_ALL='C'); env.setdefault('HOME', '/root')
    conf = ' '.join([cc, *margs, cargs, *COMMON])
    stamp = f'{d}/verif.conf'
    if not os.path.exists(stamp) or open(stamp).read() != conf:
        shutil.rmtree(d, ignore_errors=True)
        la = VARIANTS[v][3]
        rc, t = run(['meson', 'setup', d, SRC, *COMMON, *margs, f'-Dc_args={cargs}', f'-Dc_link_args={la}'], env=env)
        if rc: raise BuildError(f'meson setup {v}: {t[-3000:]}')
        open(stamp, 'w').write(conf)
    rc, t = run(['ninja', '-C', d, *targets], env=env)
    if rc:   # a stale build directory must never decide anything: once more from scratch
        shutil.rmtree(d, ignore_errors=True)
        rc, t2 = run(['meson', 'setup', d, SRC, *COMMON, *margs, f'-Dc_args={cargs}', f'-Dc_link_args={VARIANTS[v][3]}'], env=env)
        if not rc: open(stamp, 'w').write(conf); rc, t2 = run(['ninja', '-C', d, *targets], env=env)
        if rc: raise BuildError(f'ninja {v}: {t2[-3000:]}')
def build_exe(name):
    v, srcs, extra = EXES[name]; cc = VARIANTS[v][0]; out = f'{B}/bin/{name}'; lib = f'{B}/{v}/src/libdav1d.a'
    os.makedirs(f'{B}/bin', exist_ok=True); objs = []
    if 'CLI' in extra:        # the command-line tool's own objects, with main renamed
        extra = [x for x in extra if x != 'CLI']; t = f'{B}/{v}/tools'; os.makedirs(f'{B}/{v}/cliobj', exist_ok=True)
        for o in sorted(os.listdir(f'{t}/dav1d.p')):
            if o.endswith('.o'):
                objs.append(f'{B}/{v}/cliobj/{o}'); rc, m = run(['objcopy', '--redefine-sym', 'main=cli_main', f'{t}/dav1d.p/{o}', objs[-1]])
                if rc: raise BuildError(f'objcopy {o}: {m[-2000:]}')
        for a in ('input', 'output'): objs += sorted(f'{t}/libdav1d_{a}.a.p/{o}' for o in os.listdir(f'{t}/libdav1d_{a}.a.p') if o.endswith('.o'))   # (the archives are thin)
    cmd = [cc, '-O1', '-g', '-Wall', '-Wno-unused-function', '-I' + H, f'-I{SRC}/include', f'-I{B}/{v}/include', f'-I{B}/{v}/include/dav1d', f'-I{SRC}', f'-I{B}/{v}', *VARIANTS[v][3].split(), *extra, *[H + s for s in srcs], *objs, lib, '-lpthread', '-ldl', '-lm', '-o', out]
    h = hashlib.sha256(repr(cmd).encode())
    for f in sorted(os.listdir(H)): h.update(fh(H + f))
    h.update(fh(lib))
    for d, ds, fs in sorted(os.walk(f'{B}/{v}/src')):        # the archive is thin: its members count, too
        for f in sorted(fs):
            if f.endswith(('.o', '.obj')): h.update(f'{d}/{f}'.encode() + fh(f'{d}/{f}'))
    for o in objs: h.update(fh(o))
    for f in sorted(os.listdir(f'{SRC}/include/dav1d')): h.update(fh(f'{SRC}/include/dav1d/{f}'))
    st = out + '.stamp'
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == h.hexdigest(): return out
    rc, t = run(cmd)
    if rc: raise BuildError(f'link {name}: {t[-3000:]}')
    open(st, 'w').write(h.hexdigest())
    return out
def ensure(*names, cli=()):
    """Build the named harness executables (and CLI tools for the variants in cli) from /repo's current tree."""
    lk = lock(); t0 = time.time(); n = sync(); out = {}
    vs = {}
    for x in names: vs.setdefault(EXES[x][0], set()).update(['tests/checkasm'] if 'CHECKASM' in EXES[x][2] else ['src/libdav1d.a'] + ['tools/dav1d'] * ('CLI' in EXES[x][2]))
    for v in cli: vs.setdefault(v, set()).update(['src/libdav1d.a', 'tools/dav1d'])
    for v, t in vs.items(): build_lib(v, sorted(t))
    for x in names: out[x] = f'{B}/{EXES[x][0]}/tests/checkasm' if 'CHECKASM' in EXES[x][2] else build_exe(x)
    for v in cli: out['dav1d_' + v] = f'{B}/{v}/tools/dav1d'
    log(f'{n} source files changed, built {", ".join(list(names) + ["cli:" + v for v in cli])} in {time.time() - t0:.1f}s')
    lk.close()
    return out
if __name__ == '__main__':
    names = [n for n in (sys.argv[1:] or EXES) if all(os.path.exists(H + s) for s in EXES[n][1])]
    ensure(*names)

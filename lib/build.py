"""Builds libdex from /repo's working tree, instrumented, plus the drivers.

Everything goes under /verif/.build (not committed).  The list of sources comes
from meson, the configuration header too; nothing is written in /repo."""
import json, os, subprocess, sys, shutil, hashlib, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), '\n'.join(l for l in r.stdout.splitlines() if not l.startswith('['))[-3000:]))
    return r.stdout

ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', CC='/usr/bin/gcc', PKG_CONFIG_PATH='')
for k in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS'):
    ENV.pop(k, None)

def configure():
    m = os.path.join(OUT, 'meson')
    if not os.path.exists(os.path.join(m, 'build.ninja')):
        shutil.rmtree(m, ignore_errors=True)
        os.makedirs(OUT, exist_ok=True)
        sh(['meson', 'setup', m, REPO, '--buildtype=debugoptimized', '--wrap-mode=nodownload', '-Dwerror=false',
            '-Dtests=false', '-Dexamples=false', '-Dintrospection=disabled', '-Dvapi=false',
            '-Dliburing=enabled', '-Deventfd=enabled', '-Dsysprof=false', '-Ddocs=false'], env=ENV)
    targets = json.loads(sh(['meson', 'introspect', '--targets', m], env=ENV))
    srcs = set()
    for t in targets:
        if t['type'] == 'static library' and t['name'].startswith('dex'):
            for s in t['target_sources']:
                srcs.update(x for x in s.get('sources', []) if x.endswith('.c'))
    if not srcs:
        raise BuildError('no sources found')
    return m, sorted(srcs)

VARIANTS = {
    # instrumented, posix AIO backend (config.h says there is no io_uring)
    'posix': dict(undef=['HAVE_LIBURING'], flags='-fsanitize=thread'),
    # the same by clang, which splits the update of a bit field into a load and a store
    'clang': dict(undef=['HAVE_LIBURING'], flags='-fsanitize=thread -mllvm -tsan-instrument-read-before-write', cc='/usr/bin/clang'),
    # instrumented, as configured (io_uring + eventfd)
    'uring': dict(undef=[], flags='-fsanitize=thread'),
}

# the library calls these by other names, see dst/wraps.h
WRAPS = re.findall(r'W \((\w+)\)', open(os.path.join(VERIF, 'dst', 'wraps.h')).read())

# drivers which contain inline code of the library
INSTRUMENTED = {'wsq'}

def build(drivers, quiet=True):
    """drivers: list of (name, variant).  Returns {(name, variant): path}."""
    m, srcs = configure()
    dep = subprocess.run(['pkg-config', '--cflags', 'gio-2.0', 'gio-unix-2.0', 'liburing'], env=ENV, capture_output=True, text=True).stdout.strip()
    libs = subprocess.run(['pkg-config', '--libs', 'gio-2.0', 'gio-unix-2.0', 'liburing'], env=ENV, capture_output=True, text=True).stdout.strip()
    L = []
    L.append('builddir = ' + OUT)
    L.append('cc = /usr/bin/gcc')
    L.append('rule cc\n  command = $cc -MMD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    ren = os.path.join(OUT, 'wraps')
    txt = ''.join('%s dst_%s\n' % (n, n) for n in WRAPS)
    if not os.path.exists(ren) or open(ren).read() != txt:
        open(ren, 'w').write(txt)
    L.append('rule ccw\n  command = $cc -MMD -MF $out.d $flags -c $in -o $out && objcopy --redefine-syms=%s $out\n  depfile = $out.d\n  deps = gcc' % ren)
    L.append('rule ld\n  command = /usr/bin/gcc -rdynamic -o $out $in %s -ldl -lpthread -latomic -lm' % libs)
    common = '-std=gnu11 -O1 -g -D_GNU_SOURCE -fno-omit-frame-pointer -Wno-tsan -w -Werror=implicit-function-declaration ' + dep
    ver = re.search(r'#define PACKAGE_VERSION.*', open(os.path.join(m, 'config.h')).read())
    out = {}
    variants = sorted(set(v for _, v in drivers))
    for v in variants:
        d = os.path.join(OUT, v); os.makedirs(d, exist_ok=True)
        cfg = open(os.path.join(m, 'config.h')).read()
        for u in VARIANTS[v]['undef']:
            cfg = re.sub(r'#define %s .*' % u, '/* no %s */' % u, cfg)
        cfgp = os.path.join(d, 'config.h')
        if not os.path.exists(cfgp) or open(cfgp).read() != cfg:
            open(cfgp, 'w').write(cfg)
        inc = '-I%s -I%s -I%s/src -I%s/src -I%s -I%s/dst' % (d, d, m, REPO, REPO, VERIF)
        objs = []
        for s in srcs:
            base = os.path.basename(s)
            if 'HAVE_LIBURING' in VARIANTS[v]['undef'] and 'uring' in base:
                continue
            o = os.path.join(d, base + '.o')
            objs.append(o)
            L.append('build %s: ccw %s | %s\n  cc = %s\n  flags = %s %s -include %s %s -DDEX_COMPILATION -DG_LOG_DOMAIN="\\"Dex\\""' %
                     (o, s, ren, VARIANTS[v].get('cc', '/usr/bin/gcc'), common, VARIANTS[v]['flags'], cfgp, inc))
        for c, fl in (('dst/dst.c', ''), ('drivers/drv.c', '')):
            o = os.path.join(d, os.path.basename(c) + '.o')
            objs.append(o)
            L.append('build %s: cc %s\n  flags = %s -O2 %s' % (o, os.path.join(VERIF, c), common, inc))
        for name, vv in drivers:
            if vv != v:
                continue
            o = os.path.join(d, 'd_' + name + '.o')
            L.append('build %s: cc %s\n  flags = %s %s%s -DDEX_COMPILATION -DG_LOG_DOMAIN="\\"Dex\\""' % (o, os.path.join(VERIF, 'drivers', name + '.c'), common, inc, ' -fsanitize=thread' if name in INSTRUMENTED else ''))
            exe = os.path.join(d, 'drv_' + name)
            L.append('build %s: ld %s %s' % (exe, o, ' '.join(objs)))
            out[(name, v)] = exe
    L.append('')
    nf = os.path.join(OUT, 'build-%s.ninja' % hashlib.sha1(repr(sorted(drivers)).encode()).hexdigest()[:10])
    txt = '\n'.join(L)
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, 'w').write(txt)
    sh(['ninja', '-f', nf] + list(out.values()), env=ENV)
    return out

if __name__ == '__main__':
    ds = [tuple(a.split(':')) for a in sys.argv[1:]]
    print(build(ds))

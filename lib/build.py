#!/usr/bin/env python3
"""Build Gyoto (core library, stdplug plug-in, gyoto executable) and the
monitors of /verif from /repo's *current working tree*.

  build.py VARIANT [target ...]      VARIANT in plain | asan | tsan

Sources are listed by parsing /repo/lib/Makefile.am, so files added to or
removed from the library are followed.  Output: /verif/.build/VARIANT (ignored
by git).  Incremental (ninja + depfiles); `restat` by content is not needed.
"""
import os, re, subprocess, sys, shutil, hashlib, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

def mk_vars(path):
    txt = open(path, encoding='utf-8', errors='replace').read()
    txt = re.sub(r'\\\n', ' ', txt)
    v = {}
    for line in txt.splitlines():
        m = re.match(r'^([A-Za-z0-9_@]+)\s*(\+?=)\s*(.*)$', line)
        if not m: continue
        k, op, val = m.groups()
        val = val.split('#')[0].strip()
        v[k] = (v.get(k, '') + ' ' + val) if op == '+=' else val
    return v

def sources():
    v = mk_vars(os.path.join(REPO, 'lib/Makefile.am'))
    def expand(s):
        for _ in range(5):
            s = re.sub(r'\$[({](\w+)[)}]', lambda m: v.get(m.group(1), ''), s)
        return [x for x in s.split() if x.endswith('.C')]
    core = expand(v['libgyoto@FEATURES@_la_SOURCES'])
    std = expand(v['libgyoto_stdplug_la_SOURCES'])
    return core, std

VARIANTS = {
    'plain': dict(cflags='-O1 -g1', ldflags=''),
    'asan': dict(cflags='-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined '
                        '-fno-sanitize=vptr,alignment '
                        '-fsanitize-recover=undefined -D_GLIBCXX_ASSERTIONS',
                 ldflags='-fsanitize=address,undefined'),
    'tsan': dict(cflags='-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread',
                 ldflags='-fsanitize=thread'),
}

def gen(variant, pch=True):
    V = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    core, std = sources()
    mpi = [x for x in subprocess.check_output(['mpic++', '--showme:compile'], text=True).split()]
    mpil = subprocess.check_output(['mpic++', '--showme:link'], text=True).split()
    inc = ['-I' + os.path.join(VERIF, 'config'), '-I' + os.path.join(REPO, 'include'),
           '-I/usr/include/eigen3'] + mpi
    libs = '-lxerces-c -lcfitsio -ludunits2 -lflint -lboost_mpi -lboost_serialization -lpthread -ldl ' + ' '.join(mpil)
    guard = '-DGYOTO_VERIF'
    L = []
    w = L.append
    w('ninja_required_version = 1.5')
    w('builddir = ' + out)
    w('cxx = g++')
    w('cflags = -std=c++17 -w -fPIC -pthread %s -DGYOTO_NO_DEPRECATED -DHAVE_CONFIG_H %s '
      '-DGYOTO_PKGLIBDIR=\\"%s\\" %s' % (V['cflags'], guard, out, ' '.join(inc)))
    w('ldflags = -pthread ' + V['ldflags'])
    w('libs = ' + libs)
    w('rule cc\n  command = $cxx %s $cflags $extra -MMD -MF $out.d -c $in -o $out\n'
      '  depfile = $out.d\n  deps = gcc\n  description = CC $in' % ('-include %s/pch/pch.h' % out if pch else ''))
    w('rule ccx\n  command = $cxx $cflags $extra -MMD -MF $out.d -c $in -o $out\n'
      '  depfile = $out.d\n  deps = gcc\n  description = CC $in')
    w('rule pch\n  command = $cxx $cflags -x c++-header -MMD -MF $out.d -c $in -o $out\n'
      '  depfile = $out.d\n  deps = gcc\n  description = PCH')
    w('build %s/pch/pch.h.gch: pch %s/config/pch.h' % (out, VERIF))
    w('rule so\n  command = $cxx -shared $ldflags -Wl,-soname,$soname -o $out $in $slibs $libs\n  description = SO $out')
    w('rule exe\n  command = $cxx $ldflags -rdynamic -o $out $in -L%s $xlibs -lgyoto -Wl,-rpath,%s $libs\n  description = EXE $out' % (out, out))
    objs = {'core': [], 'std': []}
    for grp, lst, extra in (('core', core, ''), ('std', std, '-DGYOTO_PLUGIN=stdplug')):
        for s in lst:
            o = '%s/o/%s/%s.o' % (out, grp, s[:-2])
            objs[grp].append(o)
            w('build %s: cc %s/lib/%s | %s/pch/pch.h.gch\n  extra = %s' % (o, REPO, s, out, extra))
    w('build %s/libgyoto.so: so %s\n  soname = libgyoto.so\n  slibs =' % (out, ' '.join(objs['core'])))
    w('build %s/libgyoto-stdplug.so: so %s | %s/libgyoto.so\n  soname = libgyoto-stdplug.so\n  slibs = -L%s -lgyoto'
      % (out, ' '.join(objs['std']), out, out))
    tgts = []
    w('build %s/o/gyoto.o: ccx %s/bin/gyoto.C' % (out, REPO))
    w('build %s/gyoto: exe %s/o/gyoto.o | %s/libgyoto.so %s/libgyoto-stdplug.so' % (out, out, out, out))
    tgts.append('gyoto')
    if os.path.exists(REPO + '/bin/gyoto-mpi-worker.C'):
        w('build %s/o/gyoto-mpi-worker.o: ccx %s/bin/gyoto-mpi-worker.C' % (out, REPO))
        w('build %s/gyoto-mpi-worker: exe %s/o/gyoto-mpi-worker.o | %s/libgyoto.so' % (out, out, out))
        tgts.append('gyoto-mpi-worker')
    mon = os.path.join(VERIF, 'monitors')
    if os.path.isdir(mon):
        for f in sorted(os.listdir(mon)):
            if f.endswith('.cc'):
                n = f[:-3]
                w('build %s/o/mon/%s.o: cc %s/%s | %s/pch/pch.h.gch\n  extra = -I%s' % (out, n, mon, f, out, mon))
                x = '-Wl,--no-as-needed -lgyoto-stdplug' if '// LINK: stdplug' in open(os.path.join(mon, f)).read() else ''
                w('build %s/%s: exe %s/o/mon/%s.o | %s/libgyoto.so %s/libgyoto-stdplug.so\n  xlibs = %s'
                  % (out, n, out, n, out, out, x))
                tgts.append(n)
    w('default ' + ' '.join('%s/%s' % (out, t) for t in tgts))
    txt = '\n'.join(L) + '\n'
    p = os.path.join(out, 'build.ninja')
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)
    return out, p

def build(variant, targets=(), quiet=True):
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for pch in (True, False):    # without the precompiled prefix if it gets in the way
            out, p = gen(variant, pch)
            cmd = ['ninja', '-f', p, '-k', '1'] + ['%s/%s' % (out, t) for t in targets]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0: break
        else:
            sys.stderr.write(r.stdout[r.stdout.find('FAILED'):][:3000])
            raise SystemExit(3)     # no verdict: the tree does not build
    return out

if __name__ == '__main__':
    build(sys.argv[1], sys.argv[2:])

#!/usr/bin/env python3
"""Build GridPACK's sources (from /repo's working tree) and the harness programs.

usage: build.py [--flavor plain|asan] target...
Writes only below $VERIF_BUILD (default /verif/build, ignored by git).
"""
import glob, hashlib, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
L = '/usr/lib/x86_64-linux-gnu'
PETSC = '/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex'
DSF = 'applications/modules/dynamic_simulation_full_y'

LIBS = {   # archive -> source globs relative to src (tests never match)
    'core': ['parallel/*.cpp', 'component/*.cpp', 'configuration/*.cpp', 'environment/*.cpp',
             'stream/*.cpp', 'timer/*.cpp', 'partition/*.cpp', 'partition/parmetis/*.cpp', 'analysis/*.cpp'],
    'math': ['math/vector_implementation.cpp', 'math/implementation_visitor.cpp',
             'math/petsc/*.cpp', 'math/small_matrix*.cpp.none'],
    'parser': ['parser/block_parsers/*.cpp'],
    'ymatrix': ['applications/components/y_matrix/*.cpp'],
    'pf': ['applications/components/pf_matrix/*.cpp', 'applications/modules/powerflow/*.cpp'],
    'se': ['applications/components/se_matrix/*.cpp', 'applications/modules/state_estimation/*.cpp'],
    'dsblocks': [DSF + '/cblock.cpp', DSF + '/dblock.cpp', DSF + '/model_classes/*Block*.cpp', DSF + '/model_classes/*Class.cpp',
                 DSF + '/base_classes/base_exciter_model.cpp'],
    'ds': [DSF + '/*.cpp', DSF + '/base_classes/*.cpp', DSF + '/model_classes/*.cpp'],
}
# sources the repository's own build leaves out
EXCLUDE = {'math/petsc/petsc_dae_solver_implementation.cpp',
           'timer/boost_timer.cpp'}
DEFS = ['BOOST_ATOMIC_DYN_LINK', 'BOOST_ATOMIC_NO_LIB', 'BOOST_FILESYSTEM_DYN_LINK', 'BOOST_FILESYSTEM_NO_LIB',
        'BOOST_MPI_DYN_LINK', 'BOOST_MPI_NO_LIB', 'BOOST_RANDOM_DYN_LINK', 'BOOST_RANDOM_NO_LIB',
        'BOOST_SERIALIZATION_DYN_LINK', 'BOOST_SERIALIZATION_NO_LIB', 'BOOST_SYSTEM_DYN_LINK', 'BOOST_SYSTEM_NO_LIB']
HARNESS = {   # harness -> archives
    'h_core': ['math', 'core'],
    'h_parallel': ['math', 'core'],
    'h_network': ['math', 'core'],
    'h_map': ['math', 'core'],
    'h_math': ['math', 'core'],
    'h_solve': ['math', 'core'],
    'h_text': ['parser', 'math', 'core'],
    'h_parse': ['parser', 'math', 'core'],
    'h_io': ['parser', 'math', 'core'],
    'h_blocks': ['dsblocks', 'math', 'core'],
    'h_pf': ['pf', 'ymatrix', 'parser', 'math', 'core'],
    'h_ca': ['pf', 'ymatrix', 'parser', 'math', 'core'],
    'h_y': ['ymatrix', 'parser', 'math', 'core'],
    'h_se': ['se', 'pf', 'ymatrix', 'parser', 'math', 'core'],
    'h_ds': ['ds', 'pf', 'ymatrix', 'parser', 'math', 'core'],
}


def sources(lib):
    src = os.path.join(REPO, 'src')
    out = []
    for g in LIBS[lib]:
        for f in sorted(glob.glob(os.path.join(src, g))):
            rel = os.path.relpath(f, src)
            if rel in EXCLUDE or rel in EXCL_CMAKE.get(lib, ()):
                continue
            if rel not in out:
                out.append(rel)
    return out


EXCL_CMAKE = {
    'core': {'component/optimization_ifc.cpp'},
    'ds': {DSF + '/model_classes/classical-orgimplement.cpp'},
}


def write_ninja(flavor):
    d = os.path.join(BUILD, flavor)
    os.makedirs(d, exist_ok=True)
    flags = '-O1 -g1 -w -std=gnu++17 ' + ' '.join('-D' + x for x in DEFS)
    link = ''
    if flavor == 'asan':
        flags += ' -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-omit-frame-pointer'
        link = '-fsanitize=address,undefined'
    incs = ['src']
    dsinc = ' '.join('-I%s/src/%s' % (REPO, i) for i in (DSF + '/model_classes', DSF + '/base_classes', DSF))
    extra = {'ds': dsinc, 'dsblocks': dsinc, 'h_ds': dsinc, 'h_blocks': dsinc,
             'core': '-I%s/src/partition' % REPO,
             'parser': '-I%s/src/parser -I%s/src/parser/parser_classes' % (REPO, REPO), 'math': '-I%s/src/math' % REPO}
    inc = ' '.join('-I%s/%s' % (REPO, i) for i in incs)
    inc += ' -isystem %s/openmpi/include -isystem %s/openmpi/include/openmpi -isystem %s/include' % (L, L, PETSC)
    inc += ' -I%s/harness' % VERIF
    cc = 'ccache g++' if shutil.which('ccache') else 'g++'
    so = '/usr/lib/libparmetis.so {L}/libmetis.so -lga++ -lga -larmci -lscalapack-openmpi -llapack -lblas -lgfortran -lrt -ldl ' \
         '{L}/libboost_mpi.so {L}/libboost_serialization.so {L}/libboost_random.so {L}/libboost_filesystem.so {L}/libboost_system.so ' \
         '{L}/openmpi/lib/libmpi_cxx.so {L}/openmpi/lib/libmpi.so -L{P}/lib -lpetsc_complex'.format(L=L, P=PETSC)
    so += ' -Wl,-rpath,%s/openmpi/lib:%s/lib' % (L, PETSC)
    o = []
    o.append('builddir = .')
    o.append('rule cc\n  command = %s %s $extra %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in' % (cc, flags, inc))
    o.append('rule ar\n  command = rm -f $out && ar rc $out $in\n  description = AR $out')
    o.append('rule ld\n  command = g++ %s $in -Wl,--start-group $libs -Wl,--end-group %s -o $out\n  description = LD $out' % (link, so))
    for lib in LIBS:
        objs = []
        for s in sources(lib):
            ob = 'obj/%s/%s.o' % (lib, s.replace('/', '_'))
            o.append('build %s: cc %s/src/%s\n  extra = %s' % (ob, REPO, s, extra.get(lib, '')))
            objs.append(ob)
        o.append('build lib%s.a: ar %s' % (lib, ' '.join(objs)))
    for h, libs in HARNESS.items():
        f = '%s/harness/%s.cpp' % (VERIF, h)
        if not os.path.exists(f):
            continue
        o.append('build obj/%s.o: cc %s\n  extra = %s' % (h, f, extra.get(h, '')))
        la = ' '.join('lib%s.a' % l for l in libs)
        o.append('build %s: ld obj/%s.o | %s\n  libs = %s' % (h, h, la, la))
    text = '\n'.join(o) + '\n'
    p = os.path.join(d, 'build.ninja')
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    return d


def tree_hash():
    h = hashlib.sha1()
    src = os.path.join(REPO, 'src')
    for base, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.hpp', '.h', '.c', '.inc', '.ipp')):
                p = os.path.join(base, f)
                try:
                    h.update(p.encode() + b'\0' + hashlib.sha1(open(p, 'rb').read()).digest())
                except OSError:
                    pass
    return h.hexdigest()


def build(targets, flavor='plain', jobs=8, quiet=True):
    d = write_ninja(flavor)
    # ninja goes by time stamps; a tree that was replaced by one with older stamps must be seen too,
    # so objects built from other contents are dropped (ccache makes that cheap)
    stamp, th = os.path.join(d, 'tree.sha1'), tree_hash()
    if not os.path.exists(stamp) or open(stamp).read() != th:
        shutil.rmtree(os.path.join(d, 'obj'), ignore_errors=True)
        open(stamp, 'w').write(th)
    env = dict(os.environ)
    for v in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS'):
        env.pop(v, None)
    env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    env['CCACHE_MAXSIZE'] = '3G'
    env['CCACHE_BASEDIR'] = BUILD
    env['CCACHE_NOHASHDIR'] = '1'
    r = subprocess.run(['ninja', '-C', d, '-j', str(jobs)] + list(targets), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout, d


if __name__ == '__main__':
    a = sys.argv[1:]
    fl = 'plain'
    if a and a[0] == '--flavor':
        fl = a[1]
        a = a[2:]
    rc, out, d = build(a, fl)
    if rc:
        sys.stdout.write(out[-8000:])
    else:
        sys.stdout.write('\n'.join(out.splitlines()[-2:]) + '\n')
    sys.exit(rc)

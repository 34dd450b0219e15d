"""Builds the code under test from /repo's working tree, and the simulator, into /verif/build.

/repo's sources are mirrored by content into build/src (so that unchanged files keep their time
stamps whatever checkout did to /repo's) and compiled there at -O1 by the project's own CMake files.
Nothing in /repo is written.
"""
import fcntl, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ALUSUS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC, OBJ = os.path.join(BUILD, 'src'), os.path.join(BUILD, 'obj')
LIBSIM = os.path.join(BUILD, 'libsim.so')
ALUSUS = os.path.join(OBJ, 'Core', 'alusus.dbg')


class BuildError(Exception):
    pass


def _run(cmd, log, **kw):
    with open(log, 'ab') as f:
        f.write(('$ ' + ' '.join(cmd) + '\n').encode())
        f.flush()
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw).returncode


def mirror(src, dst):
    """Copy src to dst by content: only files whose bytes differ are touched."""
    seen = set()
    changed = 0
    for root, dirs, files in os.walk(src):
        dirs.sort()
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        links = [d for d in dirs if os.path.islink(os.path.join(root, d))]
        for n in sorted(files) + links:
            s, d = os.path.join(root, n), os.path.normpath(os.path.join(dst, rel, n))
            seen.add(d)
            if os.path.islink(s):
                t = os.readlink(s)
                if not (os.path.islink(d) and os.readlink(d) == t):
                    if os.path.lexists(d):
                        os.unlink(d)
                    os.symlink(t, d)
                    changed += 1
                continue
            with open(s, 'rb') as f:
                b = f.read()
            try:
                if not os.path.islink(d):
                    with open(d, 'rb') as f:
                        if f.read() == b:
                            continue
            except OSError:
                pass
            if os.path.lexists(d):
                os.unlink(d)
            with open(d, 'wb') as f:
                f.write(b)
            os.chmod(d, os.stat(s).st_mode & 0o777)
            changed += 1
    for root, dirs, files in os.walk(dst, topdown=False):
        for n in files + [d for d in dirs if os.path.islink(os.path.join(root, d))]:
            d = os.path.normpath(os.path.join(root, n))
            if d not in seen:
                os.unlink(d)
                changed += 1
    return changed


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    log = os.path.join(BUILD, 'build.log')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(log, 'wb').close()
        running = os.path.join(BUILD, 'running')
        if os.path.exists(running):
            # The last build was cut off: its compilers may still be at work on older sources.
            subprocess.run(['pkill', '-KILL', '-f', 'cc1plus .*-D.*Alusus|/verif/build/obj.*cc1plus'])
            last = os.path.getmtime(running) - 5
            for root, _, files in os.walk(SRC):
                for n in files:
                    f = os.path.join(root, n)
                    if not os.path.islink(f) and os.path.getmtime(f) >= last:
                        os.utime(f)
        else:
            open(running, 'w').close()
        for d in ('Sources', 'Tools', 'Notices_L18n'):
            mirror(os.path.join(REPO, d), os.path.join(SRC, d))
        env = dict(os.environ)
        env.pop('LD_PRELOAD', None)
        # -fno-lifetime-dse and the rest: the optimised code must behave like the Debug build that is tested.
        cmd = ['cmake', '-G', 'Ninja', os.path.join(SRC, 'Sources'), '-DCMAKE_BUILD_TYPE=Debug',
               '-DCMAKE_CXX_FLAGS_DEBUG=-O1 -fno-lifetime-dse -fno-delete-null-pointer-checks -fno-strict-aliasing',
               '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
               '-DPython3_EXECUTABLE=/opt/vp/python3-fixed-date', '-DLLVM_DIR=/opt/vp/llvm-compat/cmake',
               '-DCMAKE_ENABLE_EXPORTS=ON', '-DCppInteropTest_BINARY_DIR=' + os.path.join(OBJ, 'Tests'),
               '-DCMAKE_INSTALL_PREFIX=' + os.path.join(BUILD, 'inst')]
        stamp = os.path.join(OBJ, 'cmake.cmd')
        if not os.path.exists(os.path.join(OBJ, 'build.ninja')) or not os.path.exists(stamp) or open(stamp).read() != repr(cmd):
            os.makedirs(OBJ, exist_ok=True)
            if _run(cmd, log, cwd=OBJ, env=env):
                raise BuildError('cmake failed, see ' + log)
            with open(stamp, 'w') as f:
                f.write(repr(cmd))
        if _run(['ninja', '-C', OBJ, 'AlususCore', 'AlususSpp'], log, env=env):
            raise BuildError('ninja failed, see ' + log)
        os.unlink(running)
        sim = os.path.join(VERIF, 'sim')
        srcs = [os.path.join(sim, f) for f in sorted(os.listdir(sim))]
        if not os.path.exists(LIBSIM) or max(os.path.getmtime(s) for s in srcs) > os.path.getmtime(LIBSIM) \
                or not os.path.exists(os.path.join(BUILD, 'stub', 'libcurl.so')):
            tmp = LIBSIM + '.tmp'
            if _run(['gcc', '-O1', '-g', '-fPIC', '-shared', '-w', '-Wl,-z,initfirst', '-fno-builtin-malloc', '-fno-delete-null-pointer-checks', '-o', tmp,
                     os.path.join(sim, 'libsim.c'), os.path.join(sim, 'simthread.c'), '-ldl'], log, env=env):
                raise BuildError('libsim build failed, see ' + log)
            os.rename(tmp, LIBSIM)
            stub = os.path.join(BUILD, 'stub')
            os.makedirs(stub, exist_ok=True)
            with open(os.path.join(stub, 'empty.c'), 'w') as f:
                f.write('int sim_stub_marker;\n')
            for n in ('libcurl.so', 'libkubazip.so', 'libextra.so'):
                if _run(['gcc', '-shared', '-fPIC', '-o', os.path.join(stub, n), os.path.join(stub, 'empty.c')], log, env=env):
                    raise BuildError('stub build failed')
    return True


if __name__ == '__main__':
    t = time.time()
    try:
        build()
    except BuildError as e:
        print('BUILD ERROR', e)
        sys.exit(2)
    print('built in %.1fs' % (time.time() - t))

#!/usr/bin/env python3
"""Builds what the client simulations need from the repository: generated code (by the repository's own generator), the
engine as a shared library, the bundled JavaScript client, the Python package. usage: build.py REPO OUT"""
import concurrent.futures, glob, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))


def build(repo, out):
    node = shutil.which('node') or '/usr/local/bin/node'
    mds = []
    for lib in ('core', 'std'):  # the sources generator.bzl names
        mds += sorted(glob.glob(os.path.join(repo, 'libs', lib, '**/*.md'), recursive=True))
    mds = [m for m in mds if '/include/' in m]
    subprocess.check_call([node, os.path.join(HERE, 'js/build.js'), repo, out, 'gen'])
    for t in ('typescript', 'python', 'cpp'):
        os.makedirs(os.path.join(out, t), exist_ok=True)
        subprocess.check_call([node, os.path.join(out, 'generator/src/index.js'), '--output', os.path.join(out, t), '--target', t,
                               '--sources', ' '.join(mds)], stdout=subprocess.DEVNULL)
    inc = os.path.join(out, 'inc/rtbot')
    os.makedirs(inc, exist_ok=True)
    shutil.copy(os.path.join(out, 'cpp/jsonschema.hpp'), inc)
    flags = ['-std=c++17', '-O1', '-g0', '-w', '-fPIC', '-DWITH_GLUE', '-I' + os.path.join(HERE, '../sim'), '-I' + os.path.join(HERE, '../sim/glue'), '-include', 'string', '-I/usr/include/node', '-I' + os.path.join(out, 'inc'),
             '-I' + os.path.join(HERE, '../sim/stub')]
    flags += ['-I' + os.path.join(repo, 'libs', d, 'include') for d in ('core', 'std', 'finance', 'api')] + ['-I' + os.path.join(repo, 'libs/core/include/rtbot')]
    sys.path.insert(0, os.path.join(HERE, '../sim/glue'))
    import surface
    src = sorted(glob.glob(os.path.join(repo, 'libs/*/src/*.cpp'))) + [os.path.join(HERE, 'engine.cpp')] + surface.sources(repo, flags, out)
    objs = [os.path.join(out, 'e%d.o' % i) for i in range(len(src))]

    def one(so):
        return subprocess.run(['g++'] + flags + ['-c', so[0], '-o', so[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for p in ex.map(one, zip(src, objs)):
            if p.returncode:
                print(p.stdout[-4000:])
                raise SystemExit('the engine does not build')
    subprocess.check_call(['g++', '-shared', '-o', os.path.join(out, 'engine.so')] + objs)
    for o in objs:
        os.remove(o)
    p = subprocess.run([node, os.path.join(HERE, 'js/build.js'), repo, out, 'client'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        if 'typescript/index.ts:' not in p.stdout: # not the generated code
            print(p.stdout[-4000:])
            raise SystemExit('the JavaScript client does not build')
        with open(os.path.join(out, 'generated-error.txt'), 'w') as f:
            f.write(p.stdout.replace(out, '')[-1500:])
    p = subprocess.run([node, os.path.join(HERE, 'js/build.js'), repo, out, 'cli'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        with open(os.path.join(out, 'cli-error.txt'), 'w') as f:
            f.write(p.stdout.replace(out, '')[-1500:])
    pkg = os.path.join(out, 'py/rtbot')
    os.makedirs(pkg, exist_ok=True)
    for f in glob.glob(os.path.join(repo, 'libs/wrappers/python/*.py')):
        name = os.path.basename(f)
        if not name.endswith('_test.py'):
            shutil.copy(f, os.path.join(pkg, '__init__.py' if name == 'rtbot.py' else name))
    shutil.copy(os.path.join(out, 'python/jsonschema.py'), os.path.join(pkg, 'operators.py'))
    shutil.copy(os.path.join(HERE, 'py/rtbotapi.py'), pkg)


if __name__ == '__main__':
    build(sys.argv[1], sys.argv[2])

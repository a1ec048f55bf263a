#!/usr/bin/env python3
"""Builds the simulator from the repository's current sources and runs one property's check.
usage: check.py build | check.py C01 [--thorough] [--limit S] [--runs N] | check.py replay FILE
The repository is /repo, or $REPO."""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(HERE, 'build')


CLIENTS = ('C24', 'C25', 'C26', 'C28')  # decided by the client simulations (clients/)
SERVERS = ('C23', 'C27')  # decided by the server simulation (server/), the others by the engine simulation (sim/)


def files(repo_pats, own_pats):
    f = []
    for pat in repo_pats:
        f += glob.glob(os.path.join(REPO, pat), recursive=True)
    for pat in own_pats:
        f += glob.glob(os.path.join(HERE, pat), recursive=True)
    return sorted(set(x for x in f if os.path.isfile(x) and '__pycache__' not in x))


def digest(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.replace(REPO, '@repo').replace(HERE, '@verif').encode() + b'\0')
        with open(f, 'rb') as x:
            h.update(x.read() + b'\0')
    return h.hexdigest()[:16]


class Build:
    """A build directory named after the contents of its inputs, made once."""

    def __init__(self, kind, fs):
        self.out = os.path.join(BUILD, kind + '-' + digest(fs))

    def make(self, f):
        if os.path.exists(self.out):
            os.utime(self.out)
            return self.out
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'lock'), 'w') as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if os.path.exists(self.out):
                return self.out
            old = sorted((d for d in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(d)), key=os.path.getmtime)
            for d in [d for d in old if '-' in os.path.basename(d)][:-9]:  # keep the few last builds, and those in use
                if time.time() - os.path.getmtime(d) > 3600:
                    shutil.rmtree(d, ignore_errors=True)
            tmp = self.out + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            f(tmp)
            os.rename(tmp, self.out)
        return self.out


GLUE = ('libs/wrappers/python/*.cpp', 'libs/api/wasm/*.cpp')  # what the modules for Python and JavaScript export


SANITIZE = ['-DSIM_SANITIZED', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-fsanitize=address,undefined,float-cast-overflow',
            '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all']  # for C29


def build(kind='engine'):
    b = Build(kind, files(('libs/*/include/**/*', 'libs/*/src/**/*', 'tools/generator/templates/*') + GLUE, ('sim/**/*', 'clients/engine.cpp')))
    return os.path.join(b.make(lambda tmp: build_engine(tmp, kind == 'sanitized')), 'sim')


def build_engine(tmp, sanitized):
    os.makedirs(os.path.join(tmp, 'gen/rtbot'))
    subprocess.check_call([sys.executable, os.path.join(HERE, 'sim/genschema.py'), REPO,
                           os.path.join(tmp, 'gen/rtbot/jsonschema.hpp')])
    inc = ['-I' + os.path.join(REPO, 'libs', d, 'include') for d in ('core', 'std', 'finance', 'api')]
    inc += ['-I' + os.path.join(REPO, 'libs/core/include/rtbot'), '-I' + os.path.join(HERE, 'sim/stub'),
            '-I' + os.path.join(tmp, 'gen'), '-I' + os.path.join(HERE, 'sim')]
    flags = ['-std=c++17', '-O1', '-g1' if sanitized else '-g0', '-w', '-include', 'string']
    cxx = 'clang++' if sanitized else 'g++'
    libs = sorted(glob.glob(os.path.join(REPO, 'libs/*/src/*.cpp')))
    lib = os.path.join(HERE, 'clients/engine.cpp')  # the engine as a shared library, for the server simulation
    sys.path.insert(0, os.path.join(HERE, 'sim/glue'))
    import surface
    inc.append('-I' + os.path.join(HERE, 'sim/glue'))
    glue = surface.sources(REPO, flags + inc, tmp)
    flags += SANITIZE if sanitized else []
    src = libs + sorted(glob.glob(os.path.join(HERE, 'sim/*.cpp'))) + ([] if sanitized else [lib]) + glue

    def one(i_s):
        i, s = i_s
        o = os.path.join(tmp, '%d_%s.o' % (i, os.path.basename(s)[:-4]))
        extra = ['-fno-builtin'] if s.endswith('alloc.cpp') else ['-fPIC', '-DWITHOUT_NODE'] if s in libs or s == lib else []
        p = subprocess.run([cxx] + flags + extra + inc + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o, p.returncode, p.stdout, s
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, sorted(enumerate(src), key=lambda x: -os.path.getsize(x[1]))))
    bad = [r for r in res if r[1]]
    if bad:
        print(''.join(r[2] for r in bad)[-6000:])
        print('the simulator does not build against this tree')
        sys.exit(2)
    subprocess.check_call([cxx] + [f for f in flags if sanitized and f.startswith('-f')] + ['-o', os.path.join(tmp, 'sim')] + [r[0] for r in res if r[3] != lib])
    if not sanitized:
        subprocess.check_call(['g++', '-shared', '-o', os.path.join(tmp, 'engine.so')] + [r[0] for r in res if r[3] in libs or r[3] == lib])
    for r in res:
        os.remove(r[0])


def build_clients():
    b = Build('clients', files(GLUE + ('libs/*/include/**/*', 'libs/*/src/**/*', 'libs/wrappers/javascript/src/**/*.ts', 'apps/cli/src/**/*.ts', 'libs/wrappers/python/*.py',
                                'tools/generator/src/*', 'tools/generator/templates/*'), ('clients/**/*', 'sim/stub/**/*', 'sim/glue/**/*')))

    def make(tmp):
        p = subprocess.run([sys.executable, os.path.join(HERE, 'clients/build.py'), REPO, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-6000:])
            print('the clients do not build against this tree')
            sys.exit(2)
    return b.make(make)


def build_server():
    b = Build('server', files(('apps/rtbot-server/src/**/*.rs', 'apps/redis-module/src/**/*.rs', 'apps/rtbot-rs/src/**/*.rs'), ('server/**/*',)))

    def make(tmp):
        p = subprocess.run([sys.executable, os.path.join(HERE, 'server/build.py'), REPO, tmp, BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-6000:])
            print('the server does not build against this tree')
            sys.exit(2)
    return os.path.join(b.make(make), 'server-sim')


def node():
    return shutil.which('node') or '/usr/bin/node'


def client_cmd(part):
    if part == 'server':
        return [build_server()]
    return [node(), os.path.join(HERE, 'clients/js/sim.js')] if part == 'js' else [sys.executable, os.path.join(HERE, 'clients/py/sim.py')]


def arg(rest, name, default):
    return rest[rest.index(name) + 1] if name in rest else default


SERVER_RULE = ('One case is one simulated run: programs, commands or feed messages, clients, faults and the order in which every task runs and every command, '
               'reply, frame and publication arrives, all drawn from one seed. Non-trivial: C23: a client received two outputs or more; C27: a pipeline was run over '
               'a history of at least one sample. Distinct: by the hash of every step of the run.')
SERVER_REAL = ['apps/rtbot-server/src', 'apps/redis-module/src (rtbot.run, rtbot.xrun, the event handler, the program validator)', 'apps/rtbot-rs/src (pipelines registry)',
               'the synchronisation primitives of tokio, futures-util, serde_json', 'FactoryOp, Program and all operators']
SERVER_STUBS = ['tokio executor (the simulator schedules)', 'warp, tokio-tungstenite (sockets are pipes of the simulator)', 'Redis with its time series, JSON and publish/subscribe '
                'commands, and the redis and redis-module crates', 'cxx and the C++ glue of apps/rtbot-rs', 'config, nanoid, jsonpath-rust, jsonschema, url, glob']
SERVER_ASSUMES = ['one Redis server that does not restart', 'at most one output message per input message (the interface of the registry carries one)', 'finite values',
                  'the HTTP and WebSocket libraries deliver frames in order']


CLI_RULE = ('One case is one simulated run of the debug command: program, data file, options, faults, the moments at which the engine has loaded and the data are parsed, and the keys pressed '
            'and boxes clicked while the clock of the view runs, all drawn from one seed. Non-trivial: the command succeeded on more than one row, or the view was used. Distinct: by the hash of every '
            'message, timer, key and view of the run.')
CLI_REAL = ['apps/cli/src', 'libs/wrappers/javascript/src', 'libs/api bindings, FactoryOp, Program and all operators']
CLI_STUBS = ['commander', 'papaparse', 'zustand', 'immer', 'blessed (widgets that record)', 'fs, clock, timers, process.exit', 'emscripten glue (the engine is a native library)', 'class-transformer', 'nanoid',
             'the JSON-schema validator library']


def client_env(server):
    if server:
        return dict(os.environ, ENGINE=os.path.join(os.path.dirname(build()), 'engine.so'))
    return dict(os.environ, CLIENT_BUILD=build_clients())


def check_clients(prop, rest, out):
    """Runs the JavaScript and the Python simulation, or the server simulation, of a property on all cores and merges what they report."""
    server = prop in SERVERS
    env = client_env(server)
    parts = ('server',) if server else ('js',) if prop == 'C28' else ('js', 'py')
    cmds = {p: client_cmd(p) for p in parts}
    t0 = time.time()
    thorough = '--thorough' in rest
    seed = os.environ.get('VERIF_SEED', '1')
    runs = {'js': int(arg(rest, '--runs', 60000 if thorough else 4000)), 'py': int(arg(rest, '--runs', 40000 if thorough else 3000)),
            'server': int(arg(rest, '--runs', 400000 if thorough else 12000))}
    limit = arg(rest, '--limit', '660' if thorough else '100')
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    n, jobs = 8 // len(parts), []
    try:
        for part in parts:
            for k in range(n):
                o = os.path.join(work, '%s%d.json' % (part, k))
                cmd = cmds[part] + ['check', prop, '--seed', seed, '--runs', str(runs[part]), '--first', str(k), '--stride', str(n), '--limit', limit, '--out', o]
                jobs.append((part, o, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        res = {p: [] for p in parts}
        for part, o, p in jobs:
            text = p.communicate()[0]
            if p.returncode or not os.path.exists(o):
                print(text[-3000:])
                print('the %s simulation failed' % part)
                sys.exit(2)
            with open(o) as f:
                res[part].append(json.load(f))
    finally:
        for _, _, p in jobs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    cov, total, nontrivial, samples, faults, violations = {}, 0, 0, [], {}, []
    names = {'js': 'command line' if prop == 'C28' else 'JavaScript client', 'py': 'Python client', 'server': 'Redis module' if prop == 'C27' else 'streaming server and Redis module'}
    for part, rs in res.items():
        traces = set(x for r in rs for x in r['traces'])
        k = sum(r['runs'] for r in rs)
        total += k
        nontrivial += min(sum(r['nontrivial'] for r in rs), len(traces))
        cov[names[part]] = {
            'runs': k, 'commands, connections and feed messages' if server else 'client calls': sum(r['ops'] for r in rs), 'scheduling decisions': sum(r.get('macro', r.get('steps', 0)) for r in rs),
            'calls that failed': sum(r.get('rejected', r.get('failed', 0)) for r in rs), 'distinct interleavings': len(traces),
            'distinct results': sum(r['states'] for r in rs), 'runs executed twice with identical outcome': sum(r['twice'] for r in rs),
            'runs per hour': int(k / max(max(r['wall'] for r in rs), .01) * 3600)}
        for r in rs:
            for c, x in r.get('components', {}).items():
                cov[names[part]][c] = cov[names[part]].get(c, 0) + x
            samples += r['samples'][:1] if len(samples) < 4 else []
            for f, c in r['faults'].items():
                faults[f] = faults.get(f, 0) + c
            if 'violation' in r:
                violations.append(dict(r['violation'], part=part))
    cov.update({
        'evaluations': total, 'distinct_nontrivial': nontrivial,
        'rule': SERVER_RULE if server else CLI_RULE if prop == 'C28' else 'One case is one simulated run: programs, client calls, and the schedule that interleaves them, all drawn from one seed. Non-trivial: at least '
                'two client calls succeeded. Distinct: by the hash of the order of all calls, returns and calls into the engine.',
        'samples': samples, 'faults injected': faults, 'runs per hour': int(total / max(wall, .01) * 3600),
        'simulated time': 'logical: scheduling decisions, see each part',
        'real components': SERVER_REAL if server else CLI_REAL if prop == 'C28' else ['libs/wrappers/javascript/src', 'libs/wrappers/python/rtbot.py', 'tools/generator (typescript, python and cpp targets)', 'libs/api bindings, FactoryOp, Program and all operators', 'libs/wrappers/python/rtbot.cpp and libs/api/wasm (what the modules export)'],
        'stubbed components': SERVER_STUBS if server else CLI_STUBS if prop == 'C28' else ['pybind11 and embind themselves (the engine is a native library)', 'class-transformer', 'nanoid', 'prettier', 'json-schema-to-zod', 'json-schema-to-typescript', 'the JSON-schema validator library']})
    os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
    with open(os.path.join(out, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(seed), 'level': 'exploration', 'coverage': cov,
                   'assumptions': SERVER_ASSUMES if server else ['times below 2^32 in JavaScript (embind)', 'one engine process, entered from one thread at a time', 'values are finite where a client sends them'],
                   'wall_s': wall, 'violations': len(violations)}, f, indent=1)
    if not violations:
        print('%s: %d runs, %d distinct interleavings, no violation' % (prop, total, sum(cov[names[x]]['distinct interleavings'] for x in parts)))
        return 0
    v = min(violations, key=lambda v: (v['run'], v['part']))
    d = os.path.join(out, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s-%d.json' % (prop, v['part'], seed, v['run']))
    with open(path, 'w') as f:
        json.dump({'part': v['part'], 'kind': v['kind'], 'detail': v['detail'], 'plan': v['plan']}, f, indent=1)
    print('%s, run %d of seed %s: %s: %s' % (names[v['part']], v['run'], seed, v['kind'], v['detail']))
    again = subprocess.run(cmds[v['part']] + ['replay', path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('replay: %s' % ('same violation' if v['kind'] + ': ' in again.stdout else 'DIFFERENT: ' + again.stdout[-300:]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def replay_file(path):
    try:
        with open(path) as f:
            return json.load(f)
    except ValueError:
        return {}


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'build':
        print(build())
        print(build('sanitized'))
        print(build_clients())
        print(build_server())
        return 0
    out = os.environ.get('OUT', HERE)
    if a[0] == 'replay':
        r = replay_file(a[1])
        if r.get('part'):
            return subprocess.call(client_cmd(r['part']) + ['replay', a[1]], env=client_env(r['part'] == 'server'))
        if r.get('property') == 'C29':
            return subprocess.call([build('sanitized')] + a, env=dict(os.environ, ASAN_OPTIONS='symbolize=1', ASAN_SYMBOLIZER_PATH=shutil.which('llvm-symbolizer') or shutil.which('llvm-symbolizer-18') or ''))
    if a[0] in ('replay', 'gen'):
        return subprocess.call([build()] + a)
    seed = os.environ.get('VERIF_SEED', '1')
    rest = a[1:]
    if os.environ.get('VERIF_TIER') == 'thorough' and '--thorough' not in rest:
        rest.append('--thorough')
    if a[0] in CLIENTS + SERVERS:
        return check_clients(a[0], rest, out)
    return subprocess.call([build('sanitized' if a[0] == 'C29' else 'engine'), 'check', a[0], '--seed', seed, '--dir', out] + rest)


sys.exit(main())

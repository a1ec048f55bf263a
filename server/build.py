#!/usr/bin/env python3
"""Builds the server simulation: the repository's Rust crates (rtbot-server, redis-rtbot, rtbot-rs) compiled as libraries
against stand-ins for the crates that are not available offline (stubs/), linked with the simulator (sim/).
usage: build.py REPO OUT WORK (the sources are put in WORK/cargo and compiled there, which spares what did not change)"""
import glob, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
LOCAL = ('simcore', 'tokio', 'tokio-tungstenite', 'url', 'warp', 'config', 'glob', 'pretty_env_logger', 'jsonpath-rust', 'nanoid', 'cxx',
         'redissim', 'redis', 'redis-module', 'jsonschema')
CACHED = {'futures-util': '{ version = "0.3", default-features = false, features = ["sink", "std"] }', 'serde': '{ version = "1", features = ["derive"] }',
          'serde_json': '"1"', 'thiserror': '"2"', 'log': '"0.4"', 'libc': '"0.2"'}


def crate(ws, name, lib, src, root, deps):
    d = os.path.join(ws, name)
    shutil.copytree(src, os.path.join(d, 'src'), copy_function=shutil.copyfile)  # new times, so that cargo looks at them
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[lib]\nname = "%s"\npath = "src/%s"\ndoctest = false\n[dependencies]\n' % (name, lib, root))
        for x in deps:
            f.write('%s = %s\n' % (x, CACHED.get(x) or ('{ path = "../stubs/%s" }' % x if x in LOCAL else '{ path = "../%s" }' % x)))


def build(repo, out, work):
    ws, target = os.path.join(work, 'cargo/ws'), os.path.join(work, 'cargo/target')
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(ws)
    os.makedirs(out, exist_ok=True)
    shutil.copytree(os.path.join(HERE, 'stubs'), os.path.join(ws, 'stubs'), copy_function=shutil.copyfile)
    apps = os.path.join(repo, 'apps')
    crate(ws, 'rtbot-rs', 'rtbot_rs', apps + '/rtbot-rs/src', 'lib.rs', ['nanoid', 'thiserror', 'cxx', 'serde', 'serde_json', 'log'])
    crate(ws, 'redis-rtbot', 'redis_rtbot', apps + '/redis-module/src', 'lib.rs', ['jsonschema', 'nanoid', 'redis-module', 'serde', 'serde_json', 'rtbot-rs', 'thiserror', 'log'])
    crate(ws, 'rtbot-server', 'rtbot_server', apps + '/rtbot-server/src', 'main.rs',
          ['tokio', 'tokio-tungstenite', 'futures-util', 'url', 'warp', 'config', 'redis', 'serde', 'serde_json', 'glob', 'pretty_env_logger', 'jsonpath-rust', 'log', 'nanoid', 'thiserror'])
    crate(ws, 'sim', 'unused', os.path.join(HERE, 'sim/src'), 'lib.rs', ['simcore', 'redissim', 'redis', 'warp', 'cxx', 'rtbot-rs', 'redis-rtbot', 'rtbot-server', 'serde_json', 'libc'])
    with open(os.path.join(ws, 'Cargo.toml'), 'w') as f:
        f.write('[workspace]\nresolver = "2"\nmembers = ["sim", "rtbot-rs", "redis-rtbot", "rtbot-server"]\n[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n')
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings -Clink-args=-rdynamic')
    subprocess.check_call(['cargo', 'build', '--offline', '--quiet', '-p', 'sim', '--bin', 'sim'], cwd=ws, env=env)
    shutil.copy(os.path.join(target, 'debug/sim'), os.path.join(out, 'server-sim'))
    shutil.rmtree(ws)


if __name__ == '__main__':
    build(*sys.argv[1:4])

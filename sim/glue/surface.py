"""The sources to compile for the surface of the modules for Python and JavaScript; those of the repository's that cannot
be compiled against these headers are left out (the simulators then call the engine itself)."""
import os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))


def sources(repo, flags, out):
    r = [os.path.join(HERE, 'glue.cpp')]
    for f in ('libs/wrappers/python/rtbot.cpp', 'libs/api/wasm/emscripten-bindings.cpp'):
        f = os.path.join(repo, f)
        p = subprocess.run(['g++'] + flags + ['-fsyntax-only', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            with open(os.path.join(out, 'glue-error.txt'), 'a') as e:
                e.write(p.stdout.replace(out, '')[-1500:])
        else:
            r.append(f)
    return r

#!/usr/bin/env python3
"""Stand-in for tools/generator (target cpp): builds rtbot/jsonschema.hpp from the operators' .md files and the
repository's jsonschema.hbs template. usage: genschema.py REPO OUT.hpp"""
import glob, json, os, re, sys
try:
    import yaml
except ImportError:
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
repo, out = sys.argv[1], sys.argv[2]
schemas = []
for f in sorted(glob.glob(repo + '/libs/**/*.md', recursive=True)):
    if '/include/' not in f: continue
    parts = open(f).read().split('---')
    if len(parts) < 3: continue
    s = (yaml.safe_load(parts[1]) or {}).get('jsonschema')
    if not s: continue
    s['properties']['type'] = {'enum': [os.path.basename(f)[:-3]]}
    s['required'] = ['type'] + s['required']
    schemas.append(s)
t = open(repo + '/tools/generator/templates/jsonschema.hbs').read()
t = re.sub(r'\{\{#each schemas\}\}.*?\{\{/each\}\}', lambda m: ',\n'.join(json.dumps(s) for s in schemas), t, flags=re.S)
text = json.dumps(json.loads(t), indent=1)
with open(out, 'w') as o:
    o.write('#ifndef RTBOT_JSONSCHEMA_H_\n#define RTBOT_JSONSCHEMA_H_\n#include <nlohmann/json.hpp>\nusing nlohmann::json;\n'
            'static json rtbot_schema = json::parse(std::string()\n')
    for l in text.split('\n'):
        o.write(' + R"~~~(' + l + '\n)~~~"\n')
    o.write(');\n#endif\n')

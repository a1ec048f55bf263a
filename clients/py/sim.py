#!/usr/bin/env python3
"""Deterministic simulation of the Python client: the real rtbot.py, the generated operators and the real engine in one
process. Client threads hand a baton over at every call into the engine, in the order a seeded plan says."""
import builtins, copy, ctypes, hashlib, json, math, os, random, sys, threading, time

DIR = os.environ['CLIENT_BUILD']
lib = ctypes.CDLL(os.path.join(DIR, 'engine.so'), mode=os.RTLD_LAZY)  # Node's symbols stay unresolved
lib.rb_call.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_ulonglong, ctypes.c_double]
lib.rb_python.argtypes = lib.rb_call.argtypes
lib.rb_result.restype = ctypes.c_char_p
SCHEMA = json.load(open(os.path.join(DIR, 'python/jsonschema.json')))
OPS = {s['properties']['type']['enum'][0]: s for s in SCHEMA['properties']['operators']['items']['oneOf']}
sys.path.insert(0, os.path.join(DIR, 'py'))
threading.stack_size(512 * 1024)


def eng(op, a='', b='', t=0, v=0.0, entry=lib.rb_call):  # rb_python: by way of what the module exports
    rc = entry(op.encode(), a.encode(), b.encode(), t, v)
    r = lib.rb_result().decode()
    if rc:
        raise RuntimeError(r)
    return r


class Violation(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, detail)
        self.kind, self.detail = kind, detail


class Crash(BaseException):  # the simulator gives up on the run
    pass


def canon(x):
    return json.dumps(x, sort_keys=True)


# ------------------------------------------------------------------ definitions
def val(g):
    return g.choice([0, 1, 1, 2, -3, 0.5, 7.25, -0.125, 1e6, 3.1]) + (g.randrange(100) / 8 if g.random() < .5 else 0)


def random_op(g, id):
    k = g.choice(['Add', 'Scale', 'Power', 'Constant', 'Identity', 'Count', 'CumulativeSum', 'Difference', 'MovingAverage', 'MovingAverage', 'StandardDeviation',
                  'PeakDetector', 'FiniteImpulseResponse', 'AutoRegressive', 'GreaterThan', 'LessThan', 'EqualTo', 'TimeShift', 'ConstantResampler', 'CosineResampler',
                  'HermiteResampler', 'Function', 'Function', 'Join', 'Linear', 'Plus', 'Minus', 'Multiplication', 'Division', 'And', 'Or', 'GreaterThanStream',
                  'LessThanStream', 'Demultiplexer', 'Variable', 'Output'])
    o, ins, outs = {'id': id, 'type': k}, ['i1'], ['o1']
    opt = lambda p: g.random() < p
    if k in ('Add', 'Scale', 'Constant', 'GreaterThan', 'LessThan', 'EqualTo'): o['value'] = val(g)
    elif k == 'Power': o['value'] = g.choice([2, 3, .5, 1, -1])
    elif k == 'MovingAverage': o['n'] = g.randint(1, 6)
    elif k == 'StandardDeviation': o['n'] = g.randint(2, 6)
    elif k == 'PeakDetector': o['n'] = g.choice([3, 5, 7])
    elif k in ('FiniteImpulseResponse', 'AutoRegressive'): o['coeff'] = [g.randint(-4, 4) / 4 for _ in range(g.randint(1, 4))]
    elif k == 'TimeShift':
        if opt(.7): o['dt'] = g.randint(1, 9)
        if opt(.7): o['times'] = g.randint(-20, -3) if opt(.3) else g.randint(-2, 3)
    elif k == 'ConstantResampler': o['interval'] = g.randint(1, 9)
    elif k in ('CosineResampler', 'HermiteResampler'): o['dt'] = g.randint(1, 9)
    elif k == 'Function':
        o['points'] = [[i * g.randint(2, 4) - 3 + i, val(g)] for i in range(g.randint(2, 4))]
        if opt(.6): o['interpolationType'] = g.choice(['linear', 'hermite'])
    elif k in ('Join', 'Output'):
        n = 2 if k == 'Join' else 1
        if opt(.6):
            n = g.randint(n, 4)
            o['numPorts'] = n
        ins, outs = ['i%d' % i for i in range(1, n + 1)], ['o%d' % i for i in range(1, n + 1)]
    elif k == 'Linear':
        o['coeff'] = [g.randint(-4, 4) / 2 for _ in range(g.randint(2, 4))]
        ins = ['i%d' % i for i in range(1, len(o['coeff']) + 1)]
    elif k in ('Plus', 'Minus', 'Multiplication', 'Division', 'And', 'Or', 'GreaterThanStream', 'LessThanStream'): ins = ['i1', 'i2']
    elif k == 'Demultiplexer':
        n = 1
        if opt(.5):
            n = g.randint(1, 3)
            o['numPorts'] = n
        ins, outs = ['i1'] + ['c%d' % i for i in range(1, n + 1)], ['o%d' % i for i in range(1, n + 1)]
    elif k == 'Variable':
        if opt(.6): o['value'] = val(g)
        ins = ['i1', 'c1']
    return o, ins, outs


def random_def(g):
    ports = g.choice([1, 1, 1, 2, 2, 3])
    pre = g.choice(['x', 'Größe', 'a b', 'q"q', 'id-1', '日本', 'x:y', 'back\\slash', '0']) if g.random() < .2 else ''
    inp = {'id': pre + 'in', 'type': 'Input'}
    if ports > 1 or g.random() < .3: inp['numPorts'] = ports
    ops, conns = [inp], []
    prods = [(inp['id'], 'o%d' % i, ports) for i in range(1, ports + 1)]
    for k in range(1, g.randint(1, 6) + 1):
        o, ins, outs = random_op(g, '%sn%d' % (pre, k))
        ops.append(o)
        for to in ins:
            f, fp, nf = g.choice(prods[-3:]) if g.random() < .6 else g.choice(prods)
            c = {'from': f, 'to': o['id']}
            if nf > 1 or g.random() < .6: c['fromPort'] = fp
            if len(ins) > 1 or g.random() < .6: c['toPort'] = to
            conns.append(c)
        prods += [(o['id'], p, len(outs)) for p in outs]
    d = {'apiVersion': 'v1', 'operators': ops, 'connections': conns, 'entryOperator': inp['id']}
    for k, v in (('title', 'Tïtle "q"'), ('description', 'described'), ('date', '2024-02-29'), ('author', 'Someone <someone@gmail.com>'), ('license', 'MIT')):
        if g.random() < .3: d[k] = v
    if g.random() < .4:
        out = {}
        for f, p, _ in g.sample(prods, min(len(prods), g.randint(1, 3))): out.setdefault(f, []).append(p)
        d['output'] = out
    return d, ['i%d' % i for i in range(1, ports + 1)]


# ------------------------------------------------------------------ the simulated process
class Sim:
    def __init__(self, plan):
        self.plan, self.trace = plan, hashlib.sha1()
        self.local = threading.local()
        self.events, self.ids, self.labels, self.captured = 0, [], {}, {}
        self.faults = {}
        self.main = threading.Semaphore(0)
        self.history = []
        self.states = set()
        self.ops = self.failed = 0
        self.fatal = None
        self.giveup = False

    def mark(self, *a):
        self.trace.update(('\0'.join(map(str, a)) + '\n').encode())

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    def label(self, i):
        return self.labels.setdefault(i, '#%d' % len(self.labels))

    def switch(self):
        a = getattr(self.local, 'actor', None)
        if a is None: return
        self.main.release()
        a['sem'].acquire()
        if self.giveup: raise Crash()

    def api(self, op, *args):
        a = getattr(self.local, 'actor', None)
        if op not in ('validate', 'validateOperator'):
            self.switch()
            if a is not None and a.get('interrupt') is not None and op not in ('createProgram', 'deleteProgram'):
                a['interrupt'] -= 1
                if a['interrupt'] < 0:
                    a['interrupt'] = None
                    a['interrupted'] = True
                    self.fault('interrupts during a run')
                    raise KeyboardInterrupt()
            i = args[0]
            if i not in self.labels: self.ids.append(i)
            rest = args[1:] if op != 'createProgram' else ()
            self.mark(op, self.label(i), rest)
            if op == 'createProgram': self.captured[i] = args[1]
        if op == 'addToMessageBuffer': return eng(op, args[0], args[1], args[2], args[3], entry=lib.rb_python)
        return eng(op, *args, entry=lib.rb_python)

    def run(self):
        plan = self.plan
        builtins.__rtbot_sim__ = self
        for m in [m for m in sys.modules if m == 'rtbot' or m.startswith('rtbot.')]: del sys.modules[m]
        import rtbot
        try:
            import rtbot.operators as operators
        except Exception as e:
            raise Violation('definition', 'the generated operator classes cannot be imported: %r' % e)
        self.rb, self.op = rtbot, operators
        self.progs = []
        for d in plan['progs']:
            p = {'def': d['def'], 'ports': d['ports'], 'history': [], 'model': None, 'mode': d['mode']}
            if d.get('reseed'):
                random.seed(7)
                self.fault('generators reseeded')
            if d['mode'] == 'parse':
                try: p['obj'] = rtbot.parse(json.dumps(d['def']))
                except Exception as e:
                    if d.get('valid', True): raise Violation('definition', 'parse refuses a valid definition: %r' % e)
                    p['obj'] = None
                    self.failed += 1
            elif d['mode'] == 'build':
                kw = d['init']
                p['obj'] = rtbot.Program(**copy.deepcopy(kw))
                p['model'] = dict(copy.deepcopy(kw), apiVersion='v1', operators=[], connections=[])
            else:
                p['obj'] = rtbot.Program()
            self.progs.append(p)
        objs = [p['obj'] for p in self.progs if p['obj'] is not None]
        for i, a in enumerate(objs):
            for b in objs[:i]:
                if a.id == b.id: raise Violation('identity', 'two programs share the id %s' % ('of four digits' if len(a.id) == 4 else 'given to both'))
        acts = []
        for i, steps in enumerate(plan['actors']):
            a = {'i': i, 'sem': threading.Semaphore(0), 'done': False}
            a['thread'] = threading.Thread(target=self.actor, args=(a, steps), daemon=True)
            acts.append(a)
        for a in acts: a['thread'].start()
        for a in acts: self.main.acquire()  # everyone waits at its start
        sched = list(plan['schedule'])
        k = steps = 0
        while self.fatal is None:
            alive = [a for a in acts if not a['done']]
            if not alive: break
            steps += 1
            if steps > 20000:
                self.fatal = Violation('liveness', 'a client never finished')
                break
            if k < len(sched):
                a = acts[sched[k] % len(acts)]
                k += 1
                if a['done']: continue
            else:
                a = alive[steps % len(alive)]
            self.mark('go', a['i'])
            a['sem'].release()
            self.main.acquire()
        self.giveup = True
        for a in acts:
            if not a['done']: a['sem'].release()
        for a in acts: a['thread'].join(10)
        self.steps = steps
        try:
            if self.fatal is not None: raise self.fatal
            for p in self.progs: self.check(p)
            if plan['property'] == 'C26':
                for i in self.ids:
                    try: eng('getProgramEntryPorts', i)
                    except RuntimeError: continue
                    raise Violation('leftover', 'a finished run left its program behind in the engine')
        finally:
            for i in self.ids: eng('deleteProgram', i)
        return self

    def actor(self, a, steps):
        self.local.actor = a
        try:
            self.switch()
            for st in steps: self.step(a, st)
        except Crash:
            pass
        except Violation as e:
            self.fatal = self.fatal or e
        except BaseException as e:
            self.fatal = self.fatal or Violation('harness', repr(e))
        a['done'] = True
        self.main.release()

    # -------------------------------------------------------------- steps
    def call(self, a, st, p, f):
        rec = {'st': st, 'k': st['k'], 'actor': a['i'], 'inv': self.tick()}
        self.history.append(rec)
        p['history'].append(rec)
        self.ops += 1
        try:
            rec['v'], rec['ok'] = f(), True
        except Crash:
            raise
        except (Exception, KeyboardInterrupt) as e:
            rec['ok'], rec['e'], rec['interrupted'] = False, repr(e) if not str(e) else str(e), isinstance(e, KeyboardInterrupt)
            self.failed += 1
        rec['ret'] = self.tick()
        self.mark('ret', a['i'], rec['ok'])
        self.states.add(hashlib.sha1((st['k'] + canon(rec.get('v', 'error') if not isinstance(rec.get('v'), float) else 0)).encode()).hexdigest()[:12])
        return rec

    def tick(self):
        self.events += 1
        return self.events

    def step(self, a, st):
        p = self.progs[st['p']]
        k = st['k']
        api = self.rb.api
        if p['obj'] is None: return
        pid = p['obj'].id
        if k == 'run':
            a['interrupt'] = st.get('interrupt')
            self.call(a, st, p, lambda: self.rb.Run(p['obj'], copy.deepcopy(st['data'])).exec())
            a['interrupt'] = None
        elif st.get('session') and k != 'create' and a.get('refused'): pass  # not this client's program
        elif k == 'create':
            r = self.call(a, st, p, lambda: api.createProgram(pid, json.dumps(p['def'])))
            a['refused'] = not (r['ok'] and r['v'] == '')
        elif k == 'delete': self.call(a, st, p, lambda: api.deleteProgram(pid))
        elif k == 'add': self.call(a, st, p, lambda: api.addToMessageBuffer(pid, st['port'], st['t'], st['v']))
        elif k == 'proc': self.call(a, st, p, lambda: api.processMessageBuffer(pid))
        elif k == 'procd': self.call(a, st, p, lambda: api.processMessageBufferDebug(pid))
        else: self.build(a, st, p)

    def expect(self, refused, what, f):
        self.ops += 1
        try: f()
        except Crash: raise
        except Exception as e:
            self.failed += 1
            if not refused: raise Violation('definition', '%s was refused: %s' % (what, e))
            return False
        if refused: raise Violation('definition', '%s was accepted' % what)
        return True

    def build(self, a, st, p):
        self.switch()
        M, o, k = p['model'], p['obj'], st['k']
        has = lambda i: any(x['id'] == i for x in M['operators'])
        if k == 'op':
            d = st['op']
            cls = getattr(self.op, d['type'])
            names = [n for n in OPS[d['type']]['properties'] if n != 'type']
            def make():
                if st.get('positional'):
                    args = []
                    for n in names:
                        if n not in d: break
                        args.append(d[n])
                    kw = {n: d[n] for n in names[len(args):] if n in d}
                else:
                    args, kw = [], {n: d[n] for n in names if n in d}
                o.addOperator(cls(*copy.deepcopy(args), **copy.deepcopy(kw)))
            if self.expect(bool(st.get('bad')) or has(d['id']), 'addOperator(%s)' % canon(d), make):
                full = dict(d)
                for n in names:  # the classes write out the documented defaults
                    if n not in full and 'default' in OPS[d['type']]['properties'][n]: full[n] = OPS[d['type']]['properties'][n]['default']
                M['operators'].append(full)
        elif k == 'conn':
            args = [st['from'], st['to']]
            kw = {}
            if 'fp' in st: kw['fromPort'] = st['fp']
            if 'tp' in st: kw['toPort'] = st['tp']
            if self.expect(not has(st['from']) or not has(st['to']), 'addConnection(%s)' % canon(args), lambda: o.addConnection(*args, **kw)):
                M['connections'].append({'from': st['from'], 'to': st['to'], 'fromPort': st.get('fp', 'o1'), 'toPort': st.get('tp', 'i1')})
        elif k == 'parse':
            def again():
                p['obj'] = self.rb.parse(o.toJson())
            self.expect(False, 'parse(toJson())', again)
        elif k == 'valid':
            r = o.validate()
            if not r.get('valid'): raise Violation('definition', 'a valid definition does not validate: %s' % r)
        self.mark(k, st['p'])
        self.compare(p, json.loads(p['obj'].toJson()), 'toJson')

    def compare(self, p, got, where):
        M = p['model']
        for k in M:
            if canon(got.get(k)) != canon(M[k]):
                raise Violation('definition', ('%s: %s is %s, built was %s' % (where, k, canon(got.get(k)), canon(M[k])))[:900])
        for k in got:
            if k not in M: raise Violation('definition', '%s: %s appeared from nowhere' % (where, k))

    # -------------------------------------------------------------- oracles
    def expected_run(self, d, data):
        ref = 'ref:%d' % next(COUNT)
        try: r = eng('createProgram', ref, d)
        except RuntimeError as e: return False, str(e).split('ref:')[0].strip()
        if r:
            try: r = json.loads(r)['error']
            except ValueError: pass
            return False, r.split('ref:')[0].strip()
        try:
            ports = json.loads(eng('getProgramEntryPorts', ref))
            out = {}
            for row in data:
                for i in range(1, len(row)):
                    if i > len(ports): return False, 'index'
                    if row[i] is None: return False, 'incompatible'
                    eng('addToMessageBuffer', ref, ports[i - 1], row[0], float(row[i]))
                try: res = json.loads(eng('processMessageBufferDebug', ref))
                except RuntimeError as e: return False, str(e).split('ref:')[0].strip()
                for o, po in res.items():
                    for q, ms in po.items():
                        e = out.setdefault(o + ':' + q, {'time': [], 'value': []})
                        for m in ms:
                            e['time'].append(m['time'])
                            e['value'].append(m['value'])
            return True, out
        finally:
            eng('deleteProgram', ref)

    @staticmethod
    def same(got, exp):
        if set(k for k in got if got[k]['time']) != set(k for k in exp if exp[k]['time']): return False
        for k in exp:
            if not exp[k]['time']: continue
            if got[k]['time'] != exp[k]['time'] or len(got[k]['value']) != len(exp[k]['value']): return False
            for a, b in zip(got[k]['value'], exp[k]['value']):
                if b is None:
                    if a is not None and math.isfinite(a): return False
                elif a != b: return False
        return True

    def check(self, p):
        recs = p['history']
        runs = [r for r in recs if r['k'] == 'run']
        d = canon(p['model']) if p['model'] is not None else canon(p['def'])
        if p['model'] is not None and runs:
            got = self.captured.get(p['obj'].id)
            if got is not None: self.compare(p, json.loads(got), 'run')
        uses = [(r['inv'], r['ret'], r) for r in runs]
        sessions = []
        cur = {}
        for r in recs:
            if r['k'] == 'create': cur[r['actor']] = [r]
            elif r['k'] != 'run' and r['actor'] in cur:
                cur[r['actor']].append(r)
                if r['k'] == 'delete': sessions.append(cur.pop(r['actor']))
        sessions += list(cur.values())
        for s in sessions: uses.append((s[0]['inv'], s[-1]['ret'] if s[-1]['k'] == 'delete' else 10**9, s))
        for inv, ret, u in uses:
            others = [x for x in uses if x[2] is not u and x[0] < ret and inv < x[1]]
            if isinstance(u, list):
                self.check_session(u, d, others)
                continue
            r = u
            ok, exp = self.expected_run(d, r['st']['data'])
            if r['ok']:
                if not ok: raise Violation('run', 'a run returned although the engine reports: %s' % exp)
                if not self.same(r['v'], exp): raise Violation('run', ('a run reports %s but the engine emits %s' % (canon(r['v']), canon(exp)))[:1500])
            elif r.get('interrupted') and r['st'].get('interrupt') is not None: pass
            elif not ok:
                self.fault('runs that fail')
                if not others and exp not in ('index', 'incompatible') and exp not in r['e']:
                    raise Violation('run', ('a run failed with "%s", the reason is "%s"' % (r['e'], exp))[:700])
            elif not others: raise Violation('run', ('a run failed: %s' % r['e'])[:700])
            else:
                self.fault('runs refused next to another use')
                if 'already exists' not in r['e']: raise Violation('run', ('a refused run hides the reason: %s' % r['e'])[:700])

    def check_session(self, s, d, others):
        created = s[0]['ok'] and s[0]['v'] == ''
        if not created:
            if not others and self.expected_run(d, [])[0]: raise Violation('session', 'createProgram failed: %s' % s[0].get('v', s[0].get('e')))
            return
        ref = 'ref:%d' % next(COUNT)
        try: ok = eng('createProgram', ref, d) == ''
        except RuntimeError: ok = False
        if not ok: raise Violation('session', 'createProgram succeeded, the engine refuses')
        try:
            for r in s[1:]:
                st = r['st']
                try:
                    if r['k'] == 'add': v = eng('addToMessageBuffer', ref, st['port'], st['t'], float(st['v']))
                    elif r['k'] == 'delete': v = eng('deleteProgram', ref)
                    else: v = eng('processMessageBuffer' if r['k'] == 'proc' else 'processMessageBufferDebug', ref)
                    good = True
                except RuntimeError: good = False
                if good != r['ok'] or good and v != r['v']:
                    raise Violation('results', ('%s answered %s, expected %s' % (r['k'], r.get('v', r.get('e')), v if good else 'an error'))[:900])
        finally:
            eng('deleteProgram', ref)


import itertools
COUNT = itertools.count(1)


# ------------------------------------------------------------------ plans
def timer(g):
    t = [g.choice([0, 1, 1000, 1700000000, 1700000000000000000, 2**63])]
    def nxt():
        if g.random() < .9:
            t[0] += g.choice([1, 1, 1, 2, 5, 10])
            return t[0]
        return max(0, t[0] - g.randint(0, 3))
    return nxt


def rows(g, d, ports, n):
    nt = timer(g)
    dm = any(o['type'] == 'Demultiplexer' for o in d['operators']) and g.random() < .7
    v = lambda: g.randrange(2) if dm or g.random() < .4 else val(g)
    out = []
    for _ in range(n):
        w = len(ports) if g.random() < .95 else g.randint(0, len(ports))
        out.append([nt()] + [v() for _ in range(w)])
    return out


def broken(g, d):
    k = g.randrange(4)
    if k == 0: d['connections'].append({'from': 'nobody', 'to': d['entryOperator']})
    elif k == 1: d['entryOperator'] = 'nobody'
    elif k == 2: d['connections'][0]['toPort'] = 'i99'
    else: d['operators'].append(dict(d['operators'][-1]))


def session(g, i, ports):
    nt = timer(g)
    st = [{'k': 'create', 'p': i}]
    for _ in range(g.randint(1, 12)):
        r = g.random()
        if r < .6: st.append({'k': 'add', 'p': i, 'port': g.choice(ports) if g.random() < .97 else 'nowhere', 't': nt(), 'v': g.randrange(2) if g.random() < .4 else val(g)})
        else: st.append({'k': 'procd' if g.random() < .5 else 'proc', 'p': i})
    st += [{'k': 'procd', 'p': i}, {'k': 'delete', 'p': i}]
    return st


def gen(prop, g):
    progs, actors = [], []
    na = g.randint(1, 4)
    if prop == 'C25':
        for i in range(g.randint(1, 3)):
            d, ports = random_def(g)
            init = {k: d[k] for k in ('title', 'description', 'date', 'author', 'license', 'output', 'entryOperator') if k in d}
            progs.append({'def': d, 'ports': ports, 'mode': 'build', 'init': init})
            st, added, left, conns = [], [], list(d['operators']), []
            if g.random() < .3: left.insert(g.randrange(len(left)), left.pop(0))
            while left:
                if g.random() < .15:
                    k = g.randrange(4)
                    if k == 0: st.append({'k': 'conn', 'p': i, 'from': 'ghost', 'to': added[0] if added else 'x'})
                    elif k == 1 and added: st.append({'k': 'conn', 'p': i, 'from': added[0], 'to': 'ghost'})
                    elif k == 2 and added: st.append({'k': 'op', 'p': i, 'op': {'id': g.choice(added), 'type': 'Identity'}})
                    else: st.append({'k': 'op', 'p': i, 'bad': True, 'op': g.choice([{'id': 'bad', 'type': 'MovingAverage', 'n': 1.5}, {'id': 'bad', 'type': 'MovingAverage'}, {'id': 7, 'type': 'Identity'},
                        {'id': 'bad', 'type': 'Linear', 'coeff': [1]}, {'id': 'bad', 'type': 'Join', 'numPorts': 1}, {'id': 'bad', 'type': 'Function', 'points': [[1, 2], [3]]},
                        {'id': 'bad', 'type': 'Function', 'points': [[1, 2], [3, 4]], 'interpolationType': 'cubic'}, {'id': 'bad', 'type': 'TimeShift', 'dt': 0}, {'id': 'bad', 'type': 'Add', 'value': '1'}])})
                ready = [c for c in d['connections'] if c not in conns and c['from'] in added and c['to'] in added]
                if ready and g.random() < .5: c = g.choice(ready)
                else:
                    o = left.pop(0)
                    st.append({'k': 'op', 'p': i, 'op': o, 'positional': g.random() < .5})
                    added.append(o['id'])
                    continue
                conns.append(c)
                st.append(dict({'k': 'conn', 'p': i, 'from': c['from'], 'to': c['to']}, **{n: c[m] for n, m in (('fp', 'fromPort'), ('tp', 'toPort')) if m in c}))
            for c in d['connections']:
                if c not in conns:
                    conns.append(c)
                    st.append(dict({'k': 'conn', 'p': i, 'from': c['from'], 'to': c['to']}, **{n: c[m] for n, m in (('fp', 'fromPort'), ('tp', 'toPort')) if m in c}))
            if g.random() < .5: st.append({'k': 'parse', 'p': i})
            st.append({'k': 'valid', 'p': i})
            st.append({'k': 'run', 'p': i, 'data': rows(g, d, ports, g.choice([0, 1, 5, 12]))})
            actors.append(st)
    elif prop == 'C24':
        for i in range(g.randint(2, 4)):
            d, ports = random_def(g)
            progs.append({'def': d, 'ports': ports, 'mode': g.choice(['parse', 'parse', 'bare']), 'reseed': g.random() < .3})
            if progs and i and g.random() < .4: progs[-1] = dict(copy.deepcopy(progs[0]), reseed=progs[-1]['reseed'])
            st = []
            for _ in range(g.randint(1, 2)):
                if progs[i]['mode'] == 'parse' and g.random() < .6: st.append({'k': 'run', 'p': i, 'data': rows(g, progs[i]['def'], progs[i]['ports'], g.choice([1, 3, 8, 15]))})
                else: st += session(g, i, progs[i]['ports'])
            actors.append(st)
    else:
        for i in range(g.randint(1, 3)):
            d, ports = random_def(g)
            p = {'def': d, 'ports': ports, 'mode': 'parse', 'reseed': g.random() < .2}
            if g.random() < .15: broken(g, d)
            progs.append(p)
        for a in range(na):
            st = []
            for _ in range(g.randint(1, 3)):
                i = g.randrange(len(progs))
                p = progs[i]
                if g.random() < .8:
                    data = rows(g, p['def'], p['ports'], g.choice([0, 1, 2, 5, 12, 25]))
                    if data and g.random() < .06: g.choice(data).extend([1] * 4)
                    if data and g.random() < .06: g.choice(data).append(None)
                    s = {'k': 'run', 'p': i, 'data': data}
                    if g.random() < .15: s['interrupt'] = g.randint(0, 30)
                    st.append(s)
                else: st += [dict(x, session=True) for x in session(g, i, p['ports'])]
            actors.append(st)
    return {'property': prop, 'part': 'py', 'progs': progs, 'actors': actors, 'schedule': [g.randrange(len(actors)) for _ in range(g.choice([0, 20, 80, 200]))]}


def execute(plan):
    return Sim(copy.deepcopy(plan)).run()


def fails(plan, kind=None):
    try:
        execute(plan)
        return None
    except Violation as e:
        return e if kind is None or e.kind == kind else None


def minimise(plan, first, limit):
    end = time.time() + limit
    best = [plan, first]

    def attempt(c):
        if time.time() > end: return False
        e = fails(c, first.kind)
        if e: best[0], best[1] = c, e
        return bool(e)

    def shrink(get):
        any_ = False
        n = max(1, len(get(best[0])) // 2)
        while n >= 1:
            i = len(get(best[0])) - n
            while i >= 0:
                c = copy.deepcopy(best[0])
                del get(c)[i:i + n]
                any_ = attempt(c) or any_
                i -= n
            n //= 2
        return any_
    prog = True
    while prog and time.time() < end:
        prog = False
        for a in range(len(best[0]['actors'])): prog = shrink(lambda p: p['actors'][a]) or prog
        prog = shrink(lambda p: p['schedule']) or prog
        for a in range(len(best[0]['actors'])):
            for i in range(len(best[0]['actors'][a])):
                if 'data' in best[0]['actors'][a][i]: prog = shrink(lambda p: p['actors'][a][i]['data']) or prog
        for q in range(len(best[0]['progs'])):
            prog = shrink(lambda p: p['progs'][q]['def']['connections']) or prog
    return best


def main():
    a = sys.argv
    opt = lambda n, d: a[a.index('--' + n) + 1] if '--' + n in a else d
    if a[1] == 'replay':
        f = json.load(open(a[2]))
        e = fails(f['plan'])
        if e is None:
            print('the plan in %s does not fail on this tree' % a[2])
            return 0
        print('%s: %s' % (e.kind, e.detail))
        print('VIOLATION property=%s replay=%s' % (f['plan']['property'], a[2]))
        return 1
    prop, seed, runs, first, stride, limit = a[2], opt('seed', '1'), int(opt('runs', 2000)), int(opt('first', 0)), int(opt('stride', 1)), float(opt('limit', 100))
    if a[1] == 'gen':
        print(json.dumps(gen(prop, random.Random('%s/%s/py/%d' % (seed, prop, first))), indent=1))
        return 0
    t0 = time.time()
    out = {'runs': 0, 'ops': 0, 'steps': 0, 'failed': 0, 'faults': {}, 'nontrivial': 0, 'twice': 0, 'samples': []}
    traces, states = set(), set()
    i = first
    while i < runs and time.time() - t0 < limit:
        plan = gen(prop, random.Random('%s/%s/py/%d' % (seed, prop, i)))
        plan['run'], plan['seed'] = i, int(seed)
        try: s = execute(plan)
        except Violation as e:
            if e.kind == 'harness':
                print('harness failure in run %d: %s' % (i, e.detail), file=sys.stderr)
                return 2
            best = [plan, e] if os.environ.get('SIM_NOMIN') else minimise(plan, e, 40)
            out['violation'] = {'run': i, 'kind': best[1].kind, 'detail': best[1].detail, 'plan': best[0], 'original': e.detail}
            break
        h = s.trace.hexdigest()[:16]
        if out['runs'] % 16 == 0:
            if execute(plan).trace.hexdigest()[:16] != h:
                print('run %d is not deterministic' % i, file=sys.stderr)
                return 2
            out['twice'] += 1
        out['runs'] += 1
        out['ops'] += s.ops
        out['steps'] += s.steps
        out['failed'] += s.failed
        for k, v in s.faults.items(): out['faults'][k] = out['faults'].get(k, 0) + v
        if s.ops - s.failed > 1 and h not in traces: out['nontrivial'] += 1
        traces.add(h)
        states |= s.states
        if not out['samples'] and i >= 3 and len(json.dumps(plan)) < 3500: out['samples'].append(json.dumps(plan))
        i += stride
    out.update(traces=sorted(traces), states=len(states), wall=time.time() - t0)
    with open(opt('out', '/dev/stdout'), 'w') as f: json.dump(out, f)
    return 0


sys.exit(main())

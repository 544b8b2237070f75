# The Python side of C17: one simulated node. Reads one JSON request per line, answers one JSON line.
import sys, json, struct, copy, os
sys.path.insert(0, sys.argv[1])
import dess_pyo3 as d
inp, out = sys.stdin.buffer, sys.stdout.buffer
slots, snaps = {}, {}
def f(h):
    return struct.unpack('>d', bytes.fromhex(h))[0]
def canon(x):
    if x is None: return 'n'
    if isinstance(x, bool): return 'b1' if x else 'b0'
    if isinstance(x, int): return 'i%d' % x
    if isinstance(x, float): return 'fnan' if x != x else 'f' + struct.pack('>d', x).hex()
    if isinstance(x, str): return 's' + x
    if isinstance(x, (list, tuple)): return '[' + ','.join(canon(y) for y in x) + ']'
    items = []
    for n in sorted(dir(x)):
        if n.startswith('_'): continue
        v = getattr(x, n)
        if callable(v): continue
        items.append(n + ':' + canon(v))
    return '{' + ','.join(items) + '}'
def forms(x):
    return {'yaml': x.to_yaml(), 'json': x.to_json(), 'bin': x.to_bincode().hex()}
def store(x, fmt, path):
    if fmt == 'Json': return x.to_json()
    if fmt == 'Yaml': return x.to_yaml()
    if fmt == 'Bin': return x.to_bincode().hex()
    x.to_file(path); return open(path, 'rb').read().decode()
def load(c, fmt, text, path):
    if fmt == 'Json': return c.from_json(text)
    if fmt == 'Yaml': return c.from_yaml(text)
    if fmt == 'Bin': return c.from_bincode(bytes.fromhex(text))
    return c.from_file(path)
def attr(x, path):
    for n in path.split('.'):
        x = getattr(x, n)
    return x
def dup(x, how):
    return x.clone() if how == 0 else copy.copy(x) if how == 1 else copy.deepcopy(x)
def handle(r):
    o = r['op']
    if o == 'new':
        c = getattr(d, r['cls'])
        m = [d.ThermalReservoir(f(a[0])) if len(a) == 1 else d.ThermalMass(f(a[0]), f(a[1])) for a in r['m']]
        h = [d.Conductance(f(x)) for x in r['h']]
        a = (m[0], m[1], h[0], m[2], h[1], [f(x) for x in r['t']])
        if 'conf' in r:
            k = r['conf']
            pos = [f(k['dt']), f(k['dt_max']), k['max_iter'], f(k['rtol']), f(k['atol'])]
            if r['kw'] == 0: sc = d.AdaptiveSolverConfig(*pos, k['save'], k['save_states'])
            elif r['kw'] == 1: sc = d.AdaptiveSolverConfig(*pos, save=k['save'], save_states=k['save_states'])
            elif not k['save_states']:
                sc = d.AdaptiveSolverConfig(*pos, k['save']) if k['save'] else d.AdaptiveSolverConfig(*pos)
            else: sc = d.AdaptiveSolverConfig(dt_init=pos[0], dt_max=pos[1], max_iter=pos[2], rtol=pos[3], atol=pos[4], save_states=True, save=k['save'])
            s = getattr(c, r['ctor'])(sc, *a)
        else:
            s = c(r['solver'], *a)
        slots[r['slot']] = s
        return forms(s)
    if o == 'default':
        s = getattr(d, r['cls']).default(); slots[r['slot']] = s; return forms(s)
    if o == 'walk':
        s = slots[r['slot']]
        try:
            s.walk(); e = None
        except BaseException as x:
            e = type(x).__name__
        return dict(forms(s), raised=e)
    if o == 'copy':
        s = dup(slots[r['slot']], r['how']); slots[r['to']] = s; return forms(s)
    if o == 'snap':
        x = attr(slots[r['slot']], r['path']); snaps[r['id']] = x
        return {'canon': canon(x)}
    if o == 'snapread':
        x = snaps[r['id']]; c = dup(x, r['how'])
        return {'canon': canon(x), 'copy': canon(c)}
    if o == 'snapstore':
        x = snaps[r['id']]; t = store(x, r['fmt'], r['path'])
        y = load(type(x), r['fmt'], t, r['path'])
        return {'canon': canon(y), 'text': t}
    if o == 'read':
        return {'canon': canon(slots[r['slot']])}
    if o == 'forms':
        return forms(slots[r['slot']])
    if o == 'store':
        return {'text': store(slots[r['slot']], r['fmt'], r['path'])}
    if o == 'load':
        s = load(getattr(d, r['cls']), r['fmt'], r['text'], r['path']); slots[r['slot']] = s; return forms(s)
    if o == 'drop':
        del slots[r['slot']]; return {}
    if o == 'dtmean':
        c = slots[r['slot']].solver_conf
        return {'canon': canon(None if c is None else c.dt_mean())}
    if o == 'len':
        return {'n': attr(slots[r['slot']], r['path']).len()}
    if o == 'bad':
        c = getattr(d, r['cls'])
        try:
            if r['how'] == 0: c.from_json(r['text'])
            elif r['how'] == 1: c.from_yaml(r['text'])
            elif r['how'] == 2: c.from_bincode(bytes.fromhex(r['text']))
            elif r['how'] == 3: c.from_file(r['path'] + '.missing.json')
            elif r['how'] == 4: slots[r['slot']].to_file(r['path'] + '.toml')
            elif r['how'] == 5: slots[r['slot']].to_file(r['path'] + '.no/such/dir.json')
            else: slots[r['slot']].m1 = None
        except Exception as e:
            return {'raised': type(e).__name__, 'exists': [os.path.exists(r['path'] + '.toml'), os.path.exists(r['path'] + '.no')]}
        return {'raised': None}
    if o == 'reset':
        slots.clear(); snaps.clear(); return {}
    raise ValueError(o)
while True:
    l = inp.readline()
    if not l: break
    try:
        a = handle(json.loads(l))
    except Exception as e:
        a = {'error': '%s: %s' % (type(e).__name__, e)}
    except BaseException as e:
        a = {'error': 'panic %s: %s' % (type(e).__name__, e)}
    out.write(json.dumps(a).encode() + b'\n'); out.flush()

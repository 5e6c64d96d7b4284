"""What each property's check explores."""
import os

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

# trace specification of each kind of scenario
TRACE = {'srv': 'GevTrace', 'ws': 'WsTrace', 'pb': 'PbTrace', 'loop': 'GevTrace', 'kv': 'KvTrace', 'kvr': 'KvTrace'}

ASSUMPTIONS = [
    'gev is compiled from the working tree with yield points between its statements and nothing else changed; the socket calls it makes (epoll, read, write, accept, close, shutdown) reach a simulated kernel (harness/sim) that follows Linux semantics, and sync.Pool, the spin lock and the timing wheel are the real dependencies with yield points added',
    'time is virtual (testing/synctest)',
    'behaviours are explored within the bounds of the generator specifications, not exhaustively',
]


def srv(focus, n, reps=2):
    return {'kind': 'srv', 'gen': 'GenSrv', 'name': focus, 'env': {'FOCUS': focus}, 'n': n, 'reps': reps}


def ws(focus, n, reps=2):
    return {'kind': 'ws', 'gen': 'GenWs', 'name': focus, 'env': {'FOCUS': focus}, 'n': n, 'reps': reps}


def pb(focus, n, reps=2):
    return {'kind': 'pb', 'gen': 'GenPb', 'name': focus, 'env': {}, 'n': n, 'reps': reps}


def kv(focus, n):
    return {'kind': 'kvr' if focus == 'real' else 'kv', 'gen': 'GenKv', 'name': focus, 'env': {'FOCUS': focus}, 'n': n}


def loop(focus, n):
    return {'kind': 'loop', 'gen': 'GenLoop', 'name': focus, 'env': {'FOCUS': focus}, 'n': n}


# what share of which generator's behaviours a property's check explores
WSMIX = {
    'C12': [('frame', 8), ('ctl', 2)],
    'C13': [('hs', 8), ('frame', 1)],
    'C14': [('ctl', 8), ('frame', 2)],
}

MIX = {
    'C01': [('io', 5), ('life', 2), ('shut', 1), ('fault', 1)],
    'C02': [('io', 5), ('shut', 2), ('life', 2), ('fault', 1)],
    'C03': [('io', 6), ('shut', 2), ('fault', 1)],
    'C04': [('life', 5), ('lb', 1), ('fault', 2), ('stop', 1), ('task', 1), ('idle', 1)],
    'C05': [('life', 5), ('stop', 2), ('fault', 2), ('shut', 1), ('idle', 1)],
    'C06': [('task', 6), ('stop', 1)],
    'C07': [('life', 6), ('io', 1), ('shut', 1), ('idle', 1)],
    'C08': [('lb', 6), ('fault', 1), ('stop', 1), ('life', 1)],
    'C09': [('stop', 8), ('life', 1)],
    'C10': [('idle', 8)],
    'C11': [('timer', 8), ('stop', 1)],
    'C16': [('io', 5), ('shut', 2), ('life', 2)],
    'C18': [('fault', 8)],
    'C19': [('io', 4), ('task', 2), ('life', 3)],
    'C20': [('shut', 8), ('life', 1)],
    'C22': [('init', 7), ('stop', 3), ('fault', 1)],
    'C21': [('spin', 7), ('life', 1), ('fault', 1), ('stop', 1)],
}

# the design models (exhaustive within their configuration's bounds)
ALG = {
    'C01': ['Io', 'Life'], 'C02': ['Io', 'Shut', 'Two'], 'C03': ['Io', 'Shut'], 'C04': ['Life', 'Fail', 'StopEnd'],
    'C05': ['Life', 'Fail', 'StopEnd'], 'C06': ['Task', 'TaskStop', 'Live'], 'C07': ['Two', 'Life', 'Fail'], 'C08': ['Fail', 'Two', 'Stop'],
    'C09': ['Stop', 'StopSend', 'StopEnd', 'TaskStop'], 'C16': ['Io', 'Shut'], 'C18': ['Fail'], 'C19': ['Io', 'StopSend'], 'C20': ['Shut'],
}


def models(prop, tier):
    res = []
    for m in ALG.get(prop, []):
        x = 'X' if tier == 'thorough' and os.path.exists(os.path.join(SPEC, 'Alg%sX.cfg' % m)) else ''
        res.append({'module': 'Alg', 'cfg': 'Alg%s%s.cfg' % (m, x), 'workers': 3, 'timeout': 400 if tier == 'quick' else 1500})
    return res


def plan(prop, tier):
    total = 2200 if tier == 'quick' else 20000
    gens = []
    if prop in MIX:
        w = sum(x for _, x in MIX[prop])
        gens += [srv(f, max(20, total * x // w), 3 if tier == 'quick' else 6) for f, x in MIX[prop]]
    if prop in WSMIX:
        w = sum(x for _, x in WSMIX[prop])
        gens += [ws(f, max(20, total * 2 * x // w), 2) for f, x in WSMIX[prop]]
    if prop == 'C15':
        gens.append(pb('msg', total * 3, 2))
    q = tier == 'quick'
    if prop == 'C06':
        gens += [loop('rand', 1500 if q else 10000), loop('enum', 100 if q else 800)]
    if prop == 'C17':
        gens += [kv('rand', 1200 if q else 8000), kv('enum', 80 if q else 400), kv('real', 600 if q else 4000)]
    # of how many scenarios the schedules are enumerated
    for g in gens:
        if g['kind'] in ('srv', 'ws', 'pb'):
            g.update(enum=max(1, g['n'] // 60), bound=1, limit=120) if q else g.update(enum=max(2, g['n'] // 100), bound=2, limit=2500)
    return {'gens': gens, 'models': models(prop, tier)}

"""Confirmation and minimisation of a violating run.  Candidates are re-executed; one is kept when the same violation
class appears again."""
import copy
import json
import time


def same(r, cls):
    return r['verdict'] == 'violation' and r['class'] == cls


def confirm(pool, r):
    """a violation counts only when its plan reproduces it"""
    plan = r.get('plan')
    if not plan:
        return None
    for k in range(3):
        rs = pool.map([{'plan': plan, 'full': 1}] * 2)
        for x in rs:
            if x['verdict'] == 'violation':
                x['job'] = r['job']
                x.setdefault('plan', plan)
                return x
    return None


def size(plan):
    return (sum(len(t) for t in plan['threads']), len(plan['threads']),
            sum(1 for t in plan['threads'] for o in t if o.get('fault')),
            len(plan.get('sched', {}).get('replay') or []) if plan.get('sched', {}).get('replay') is not None else 10 ** 6)


def edits(plan):
    """structural reductions, biggest first"""
    T = plan['threads']
    if len(T) > 1 and not plan.get('fixed_threads'):
        for i in range(len(T)):
            p = copy.deepcopy(plan)
            del p['threads'][i]
            yield 'drop caller %d' % i, p
    total = sum(len(t) for t in T)
    for i, t in enumerate(T):
        if len(t) > 3:
            for lo, hi in ((0, len(t) // 2), (len(t) // 2, len(t))):
                p = copy.deepcopy(plan)
                del p['threads'][i][lo:hi]
                if any(p['threads']):
                    yield 'drop half of caller %d' % i, p
    if total > 1:
        for i, t in enumerate(T):
            for j in reversed(range(len(t))):
                p = copy.deepcopy(plan)
                del p['threads'][i][j]
                if not p['threads'][i] and len(T) > 1 and not plan.get('fixed_threads'):
                    continue
                if any(p['threads']):
                    yield 'drop step %d.%d' % (i, j), p
    for i, t in enumerate(T):
        for j, o in enumerate(t):
            for k in ('fault', 'nest'):
                if o.get(k):
                    p = copy.deepcopy(plan)
                    p['threads'][i][j][k] = None
                    yield 'drop %s %d.%d' % (k, i, j), p
            if (o.get('fault') or {}).get('more'):
                for x in [o['fault']['frac']] + o['fault']['more']:
                    p = copy.deepcopy(plan)
                    p['threads'][i][j]['fault'] = {k: v for k, v in dict(o['fault'], frac=x).items() if k != 'more'}
                    yield 'one failure at %d.%d' % (i, j), p
            for q in range(len(o['a'].get('probe') or ())):
                p = copy.deepcopy(plan)
                del p['threads'][i][j]['a']['probe'][q]
                yield 'drop probe %d.%d.%d' % (i, j, q), p
            if o['op'] == 'fork' and len(o['a']['ops']) > 1:
                for q in range(len(o['a']['ops'])):
                    p = copy.deepcopy(plan)
                    del p['threads'][i][j]['a']['ops'][q]
                    yield 'drop forked call %d.%d.%d' % (i, j, q), p
    m = plan.get('mem') or {}
    for k in ('poison', 'align'):
        if m.get(k):
            p = copy.deepcopy(plan)
            p['mem'][k] = 0
            yield 'default %s' % k, p
    for k in ('scribble', 'ambient'):
        if plan.get(k):
            p = copy.deepcopy(plan)
            p[k] = 0
            yield 'without %s' % k, p


def variants(plan, k=5):
    """the same plan under a few schedules"""
    out = [plan]
    s = plan.get('sched')
    if s and len(plan['threads']) > 1:
        for i in range(k):
            p = copy.deepcopy(plan)
            p['sched']['seed'] = (s['seed'] * 6364136223846793005 + i * 1442695040888963407 + 1) % (1 << 62)
            out.append(p)
    return out


def minimise(pool, r, budget=45.0):
    t0 = time.monotonic()
    cls, best = r['class'], r
    log = {'from': size(r['plan'])[:3], 'tried': 0}

    def left():
        return time.monotonic() - t0 < budget
    progress = True
    while progress and left():
        progress = False
        for name, cand in edits(best['plan']):
            if not left():
                break
            vs = variants(cand)
            rs = pool.map([{'plan': p, 'full': 1} for p in vs])
            log['tried'] += len(rs)
            hit = [(x, p) for x, p in zip(rs, vs) if same(x, cls)]
            if hit:
                best = dict(hit[0][0], plan=hit[0][0].get('plan') or hit[0][1])
                progress = True
                break
    # schedule: from seed to an explicit list of switches, then delta debugging on the list
    if len(best['plan']['threads']) > 1 and best.get('switches'):
        def with_list(lst):
            p = copy.deepcopy(best['plan'])
            p['sched']['replay'] = lst
            return p
        lst = [[s[0], s[1]] for s in best['switches']]
        x = pool.map([{'plan': with_list(lst), 'full': 1}])[0]
        log['tried'] += 1
        if same(x, cls) and len(lst) < 20000:
            cur, curres, n = lst, x, 2
            while len(cur) > 1 and left():
                step = max(1, len(cur) // n)
                chunks = [cur[i:i + step] for i in range(0, len(cur), step)]
                cands = [[s for j, c in enumerate(chunks) if j != i for s in c] for i in range(len(chunks))]
                found = None
                for b in range(0, len(cands), 8):
                    if not left():
                        break
                    rs = pool.map([{'plan': with_list(c), 'full': 1} for c in cands[b:b + 8]])
                    log['tried'] += len(rs)
                    for c, y in zip(cands[b:b + 8], rs):
                        if same(y, cls):
                            found = (c, y)
                            break
                    if found:
                        break
                if found:
                    cur, curres = found
                    n = max(n - 1, 2)
                elif step == 1:
                    break
                else:
                    n = min(len(cur), n * 2)
            best = dict(curres, plan=curres.get('plan') or with_list(cur))
            best['plan'] = with_list(cur)
    # the minimised file must fail again by itself
    chk = pool.map([{'plan': best['plan'], 'full': 1}])[0]
    if same(chk, cls):
        best = dict(chk, plan=best['plan'])
    else:
        log['note'] = 'minimised plan did not reproduce; the original plan is kept'
        best = r
    drop_unused(best['plan'])
    chk = pool.map([{'plan': best['plan'], 'full': 1}])[0]
    if same(chk, cls):
        best = dict(chk, plan=best['plan'])
    log['to'] = size(best['plan'])[:3]
    log['switches'] = len((best['plan'].get('sched') or {}).get('replay') or best.get('switches') or [])
    log['seconds'] = round(time.monotonic() - t0, 1)
    return best, log


def drop_unused(plan):
    """neutralise world objects nobody refers to (indices stay valid)"""
    used = set()

    def walk(v):
        if isinstance(v, dict):
            if '$' in v:
                if v['$'] not in used:
                    used.add(v['$'])
                    walk(plan['world'][v['$']].get('v'))
            else:
                for x in v.values():
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    if 'world' not in plan or plan.get('kind') not in ('calls', 'leak'):
        return
    walk(json.loads(json.dumps(plan['threads'])))
    for i, s in enumerate(plan['world']):
        if i not in used:
            plan['world'][i] = {'k': 'val', 'v': None}

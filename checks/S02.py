"""Histories over several handles on one directory against one dictionary, and concurrent writer and reader processes whose
reads must be complete versions that never go back; files
whose content cannot be read for a while, and clocks set back."""
import copy
import json
import multiprocessing
import os
import random
import shutil
import time
from urllib.parse import quote_plus

from hypothesis import strategies as st

import msgs
import store
from checks import S01
from vf import Target, Violation, outcome

UNPRIVILEGED = True
RULE = ('a case is non-trivial if a handle observes a key after another handle changed it, or if a file written after the clock was '
        'set back or repaired is read, or if at least one concurrent read happened while writers were running')
ASSUMPTIONS = ['before a key is written again the clock of the file system has ticked, so that modification times tell the versions '
               'apart', 'values of the text converter have no surrounding white space (known finding of S01)',
               'no deletions concurrent with reads']


@st.composite
def history(draw):
    conv = draw(st.sampled_from([store.JSON, store.JSON, store.PASS]))
    value = store.json_value if conv == store.JSON else store.passthru
    if conv == store.JSON and draw(st.integers(0, 4)) == 0:
        value = st.sampled_from(draw(st.sampled_from(store.TWINS)))
    ks = draw(store.keys(3))
    n = draw(st.integers(2, 3))
    ops = S01.operations(ks, value, store.bad_value(conv))
    enabled = ['set', 'set'] + draw(st.lists(st.sampled_from(S01.OPS[3:]), min_size=2, max_size=7))
    step = st.tuples(st.integers(0, n - 1), st.sampled_from(enabled).flatmap(lambda x: ops[x]))
    return conv, n, ks, draw(st.lists(step, min_size=4, max_size=14))


class Ticker:
    """Waits until a file written now gets a later modification time than the files written before."""

    def __init__(self, d):
        self.path = os.path.join(d, 'tick')
        self.last = 0

    def wait(self):
        while True:
            with open(self.path, 'w') as fp:
                fp.write('x')
            if os.stat(self.path).st_mtime_ns > self.last:
                return
            time.sleep(0.0003)

    def wrote(self):
        with open(self.path, 'w') as fp:
            fp.write('x')
        self.last = os.stat(self.path).st_mtime_ns


def handles(c, rec):
    conv, n, ks, h = c
    with store.scratch() as d:
        tick = Ticker(d)
        hs = [S01.open_store(d, conv, True, 'db')[0] for _ in range(n)]
        model, changed_by = {}, {}
        crossed = False
        written = set()
        for i, (who, op) in enumerate(h):
            s = hs[who]
            when = 'step %d (%s through handle %d)' % (i + 1, op[0], who)
            name = op[0]
            touched = [op[1]] if name in ('set', 'del') else list(op[1]) if name == 'update' else list(model) if name == 'clear' else []
            if name in ('set', 'update'):
                if written & set(touched):
                    tick.wait()
                if name == 'set':
                    s[op[1]] = copy.deepcopy(op[2])
                    model[op[1]] = op[2]
                else:
                    s.update(copy.deepcopy(op[1]))
                    model.update(op[1])
                written |= set(touched)
                tick.wrote()
            elif name == 'bad':
                o = outcome(s.__setitem__, op[1], store.literal(op[2]))
                rec.check(o[0] == 'exc', '%s: value %r was not refused', when, op[2])
            elif name == 'del':
                o = outcome(s.__delitem__, op[1])
                rec.check(o[0] == 'ok' or op[1] not in model, '%s: %r', when, o[1])
                model.pop(op[1], None)
            elif name == 'clear':
                s.clear()
                model.clear()
            elif name == 'reopen':
                hs[who] = S01.open_store(d, conv, True, 'db')[0]
            else:
                S01.observe(rec, s, model, op, when)
                seen = [op[1]] if len(op) > 1 else list(changed_by)
                if any(changed_by.get(k, who) != who for k in seen):
                    crossed = True
                    rec.cls(name + ' after another handle')
            for k in touched:
                changed_by[k] = who
        # every handle agrees, whatever it did or did not look at before
        for j, s in enumerate(hs):
            for op in [('in', k) for k in ks] + [('read', k) for k in ks] + [('len',), ('keys',), ('items',), ('iter',), ('call',)]:
                S01.observe(rec, s, model, op, 'at the end, handle %d' % j)
            if any(w != j for w in changed_by.values()):
                crossed = True
        if crossed:
            rec.nontrivial()


# --- contents that cannot be read, and clocks that are set back
SPOILT = {store.JSON: ['', '{"a": ', '{"a": 1}}', 'nope', "{'a': 1}", '\udcff', '[1, 2'], store.PASS: ['\udcff', 'abc\udce5', '\udcc3(']}
LOOK = ['read', 'read', 'get', 'items', 'keys', 'call', 'len', 'in', 'iter']


@st.composite
def accidents(draw):
    conv = draw(st.sampled_from([store.JSON, store.JSON, store.PASS]))
    ks = draw(st.sampled_from([['a'], ['a', 'b'], ['a', 'b', 'https://op.example.org/']]))
    n = draw(st.integers(1, 3))
    value = store.json_value if conv == store.JSON else store.passthru
    who, k = st.integers(0, n - 1), st.sampled_from(ks)
    step = st.one_of(st.tuples(st.just('set'), who, k, value, st.one_of(st.just(0), st.integers(-5000, 5000))),
                     st.tuples(st.just('set'), who, k, value, st.just(0)),
                     st.tuples(st.just('spoil'), k, st.sampled_from(SPOILT[conv])),
                     st.tuples(st.just('mend'), k, value), st.tuples(st.just('away'), k), st.tuples(st.just('back'), k),
                     st.tuples(st.just('look'), who, st.sampled_from(LOOK), k), st.tuples(st.just('look'), who, st.sampled_from(LOOK), k),
                     st.tuples(st.just('reopen'), who), st.tuples(st.just('hide'), k), st.tuples(st.just('show')),
                     st.tuples(st.just('remove directory')))
    h = draw(st.lists(step, min_size=4, max_size=16))
    if draw(st.integers(0, 3)) == 0:
        x, i = draw(k), draw(who)
        for s in [('set', draw(who), x, draw(value), 0), ('look', i, draw(st.sampled_from(LOOK)), x), ('away', x),
                  ('look', i, draw(st.sampled_from(LOOK)), x), ('back', x), ('look', draw(who), draw(st.sampled_from(LOOK)), x)]:
            h.insert(draw(st.integers(max([h.index(y) + 1 for y in h if y[0] in ('away', 'back')] or [0]), len(h))), s) \
                if draw(st.integers(0, 3)) == 0 else h.append(s)
    return conv, n, ks, h


def survives(c, rec):
    """While the content of a file cannot be read nobody is given what it held before; once it can, everybody is given it."""
    conv, n, ks, h = c
    with store.scratch() as d:
        where = os.path.join(d, 'db')
        hs = [S01.open_store(d, conv, True, 'db')[0] for _ in range(n)]
        model, spoilt, aside, hidden = {}, set(), {}, set()
        times = iter(range(10 ** 6))
        hit = False

        def stamp(k, shift):
            f = os.path.join(where, quote_plus(k))
            t = (1700000000 + shift) * 10 ** 9 + 1000 * next(times)     # never the same twice
            os.utime(f, ns=(t, t))

        def raw(k, text):
            with open(os.path.join(where, quote_plus(k)), 'wb') as fp:
                fp.write(text.encode('utf-8', 'surrogateescape'))
            stamp(k, 0)

        def look(i, op, k, when):
            s = hs[i]
            if not spoilt and not hidden:
                S01.observe(rec, s, model, {'read': ('read', k), 'get': ('get', k, 'default'), 'in': ('in', k)}.get(op, (op,)), when)
                return
            if op in ('read', 'get'):
                o = outcome(s.__getitem__, k) if op == 'read' else outcome(s.get, k, 'default')
                if k in spoilt:
                    rec.check(o[0] == 'exc' or op == 'get' and o[1] == 'default', '%s: %r has no readable content but reads %r', when, k,
                              o[1])
                elif k in hidden and (o[0] == 'exc' or op == 'get' and o[1] == 'default'):
                    pass            # it may be remembered, or not
                elif k in model:
                    rec.check(o[0] == 'ok' and msgs.same(o[1], model[k]), '%s: %r reads %r, expected %r', when, k, o[1], model[k])
                else:
                    rec.check(o[0] == 'exc' or op == 'get' and o[1] == 'default', '%s: %r reads %r', when, k, o[1])
            elif op == 'items':
                o = outcome(lambda: dict(s.items()))
                if o[0] == 'ok':        # it may be refused as a whole
                    rec.check(not spoilt & set(o[1]), '%s: items() gives %r, which cannot be read', when, o[1])
                    rec.check(all(x in o[1] for x in model if x not in spoilt | hidden) and
                              msgs.same(o[1], {x: v for x, v in model.items() if x in o[1]}), '%s: items() gives %r', when, o[1])
            elif op == 'in':
                rec.eq(k in s, k in model or k in spoilt, '%s: %r there', when, k)
            else:
                outcome({'keys': lambda: list(s.keys()), 'call': s, 'len': s.__len__, 'iter': lambda: list(iter(s))}[op])

        def show():
            for k in hidden:
                os.chmod(os.path.join(where, quote_plus(k)), 0o644)
            hidden.clear()

        for i, op in enumerate(h):
            when = 'step %d (%s)' % (i + 1, op[0])
            if op[0] in ('set', 'spoil', 'mend', 'away', 'back', 'show'):
                show()
            if op[0] == 'hide' and op[1] in model:      # for a while nobody may read it
                os.chmod(os.path.join(where, quote_plus(op[1])), 0)
                hidden.add(op[1])
                hit = True
                rec.cls('made unreadable')
            elif op[0] == 'remove directory':
                hidden.clear()
                shutil.rmtree(where, ignore_errors=True)
                hit = hit or bool(model)
                model.clear()
                spoilt.clear()
                rec.cls('directory removed')
            elif op[0] == 'set':
                _, who, k, v, shift = op
                hs[who][k] = copy.deepcopy(v)
                stamp(k, shift)
                hit = hit or shift < 0 and k in model
                model[k] = v
                spoilt.discard(k)
            elif op[0] == 'spoil' and (op[1] in model):
                raw(op[1], op[2])
                spoilt.add(op[1])
                del model[op[1]]
            elif op[0] == 'mend' and op[1] in spoilt:
                v = op[2]
                raw(op[1], v if conv == store.PASS else json.dumps(v))
                spoilt.discard(op[1])
                model[op[1]] = v
                hit = True
            elif op[0] == 'away' and op[1] in model:         # moved away, and perhaps back again as it was
                os.rename(os.path.join(where, quote_plus(op[1])), os.path.join(d, 'aside-' + quote_plus(op[1])))
                aside[op[1]] = model.pop(op[1])
                hit = True
            elif op[0] == 'back' and op[1] in aside:
                os.makedirs(where, exist_ok=True)
                os.replace(os.path.join(d, 'aside-' + quote_plus(op[1])), os.path.join(where, quote_plus(op[1])))
                model[op[1]] = aside.pop(op[1])
                spoilt.discard(op[1])
                rec.cls('moved away and back')
            elif op[0] == 'reopen':
                hs[op[1]] = S01.open_store(d, conv, True, 'db')[0]
            elif op[0] == 'look':
                look(op[1], op[2], op[3], when + ' ' + op[2])
        show()
        for i in range(n):
            for k in ks:
                look(i, 'read', k, 'at the end, handle %d' % i)
                look(i, 'get', k, 'at the end, handle %d' % i)
            look(i, 'items', None, 'at the end, handle %d' % i)
    if hit:
        rec.nontrivial()


# --- processes
def value_of(conv, writer, version, size):
    body = '%d:%d:' % (writer, version) + chr(97 + (writer * 7 + version) % 26) * size + ':%d:%d' % (writer, version)
    return body if conv == store.PASS else {'body': body, 'n': [version] * 3}


def version_of(conv, v):
    """(writer, version) of a complete value, else a violation."""
    body = v
    if conv != store.PASS:
        if not isinstance(v, dict) or set(v) != {'body', 'n'} or len(v['n']) != 3:
            raise Violation('a reader got %r' % (v,))
        body = v['body']
    parts = body.split(':') if isinstance(body, str) else []
    if len(parts) != 5 or parts[:2] != parts[3:] or len(set(parts[2])) != 1 or (
            conv != store.PASS and v['n'] != [int(parts[1])] * 3):
        raise Violation('a reader got a partly written value: %r...(%d characters)' % (str(body)[:60], len(str(body))))
    return int(parts[0]), int(parts[1]), len(parts[2])


@st.composite
def concurrent(draw):
    return draw(st.sampled_from([store.JSON, store.PASS])), draw(st.sampled_from([20000, 300000, 1000000])), \
        draw(st.integers(1, 2)), draw(st.integers(1, 3)), draw(st.integers(15, 40)), draw(st.sampled_from(['a', 'a b/c', 'å'])), \
        draw(st.integers(0, 10 ** 6))


def writer(d, conv, me, key, size, count, seed, barrier):
    rnd = random.Random(seed + me)
    s = S01.open_store(d, conv, True, 'db')[0]
    barrier.wait(60)
    for version in range(1, count + 1):
        s[key] = value_of(conv, me, version, size + rnd.randrange(3) * 1000)
        if rnd.random() < 0.5:
            time.sleep(rnd.random() * 0.003)


def reader(d, conv, key, writers, seed, barrier, done):
    rnd = random.Random(seed)
    s = S01.open_store(d, conv, True, 'db')[0]
    last = {}
    reads = 0
    barrier.wait(60)
    while not done.is_set():
        how = rnd.randrange(6)
        if how == 0:
            got = dict(s.items())[key]
        elif how == 1:
            if key not in s or len(s) != 2 or key not in list(s.keys()):
                raise Violation('a key that always exists is missing')
            continue
        elif how == 2:
            s = S01.open_store(d, conv, True, 'db')[0]
            got = s[key]
        elif how == 3:
            got = s.get(key)
        else:
            got = s[key]
        w, v, _ = version_of(conv, got)
        reads += 1
        if writers == 1:
            if v < last.get(w, 0):
                raise Violation('a reader saw version %d after version %d' % (v, last[w]))
            last[w] = v
        if rnd.random() < 0.3:
            time.sleep(rnd.random() * 0.002)
    time.sleep(0.03)
    return reads, version_of(conv, s[key])


def _proc(fn, args, out):
    try:
        out.put(('ok', fn(*args)))
    except BaseException as e:
        out.put(('exc', '%s: %s' % (type(e).__name__, str(e)[:400])))


def processes(c, rec):
    conv, size, n_w, n_r, count, key, seed = c
    ctx = multiprocessing.get_context('fork')
    with store.scratch() as d:
        s = S01.open_store(d, conv, True, 'db')[0]
        s[key] = value_of(conv, 0, 0, size)
        s['other'] = value_of(conv, 0, 0, 10)
        barrier, done, out_w, out_r = ctx.Barrier(n_w + n_r), ctx.Event(), ctx.Queue(), ctx.Queue()
        ws = [ctx.Process(target=_proc, args=(writer, (d, conv, i, key, size, count, seed, barrier), out_w)) for i in range(n_w)]
        rs = [ctx.Process(target=_proc, args=(reader, (d, conv, key, n_w, seed + 100 + i, barrier, done), out_r)) for i in range(n_r)]
        for p in ws + rs:
            p.start()
        try:
            res_w = [out_w.get(timeout=120) for _ in ws]
            time.sleep(0.03)
            # one more, once the clock has moved on
            s[key] = value_of(conv, 9, 9, size)
            done.set()
            res_r = [out_r.get(timeout=120) for _ in rs]
        finally:
            done.set()
            for p in ws + rs:
                p.join(10)
                if p.is_alive():
                    p.kill()
    for r in res_w + res_r:
        rec.check(r[0] == 'ok', 'concurrent processes: %s', r[1])
    reads = 0
    for _, (n, (w, v, _)) in res_r:
        reads += n
        rec.check((w, v) == (9, 9), 'after the last write a reader sees writer %d version %d', w, v)
    rec.cls('%d writers' % n_w)
    if reads > 1:
        rec.nontrivial()


TARGETS = [Target('handles', history(), handles, quick=1600, thorough=50000),
           Target('accidents', accidents(), survives, quick=1000, thorough=40000),
           Target('processes', concurrent(), processes, quick=16, thorough=1500)]
assert json and msgs

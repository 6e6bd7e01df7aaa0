"""Histories over one or several connections to one SQLite database against a dictionary; a neighbouring table is watched."""
import json
import os

from hypothesis import strategies as st

import gen
import store
from vf import Target, outcome

UNPRIVILEGED = True
RULE = 'a case is non-trivial if something is written through one connection and read through another or after re-opening'
ASSUMPTIONS = ['SQLite', 'keys and values are text', 'iterators are read to the end', 'one writer at a time']
TEXT = ['', ' ', 'a', 'A', "a'; DROP TABLE thing; --", "'", '"', '%', '_', 'a%', 'a_', 'owner', 'thing', ':owner', '%(owner)s', '?', 'å', 'a\u030a',
        '😀', '\x00', 'a\x00b', '\n', 'a ', ' a', '0', '00', '1', '1.0', 'null', 'None', '1e3', 'x' * 81, 'x' * 82, '\\', '[a]', '*']
text = st.one_of(st.sampled_from(TEXT), gen.text, gen.text0, gen.simple)
value = st.one_of(text, st.sampled_from(['x' * 4097, 'y' * 100000, json.dumps({'a': [1]}), '2020-01-01T00:00:00']))
BAD = [None, ('set',), {'a': 1}, ['x'], '\ud800']


@st.composite
def history(draw):
    ks = []
    for _ in range(draw(st.integers(2, 4))):
        if ks and draw(st.booleans()):
            k = draw(st.sampled_from(ks))
            ks.append(draw(st.sampled_from([k.swapcase(), k.upper(), k.lower(), '%', k + ' ', ' ' + k, k + '%', '_' * len(k), k + '\x00', k[:-1], k * 2, "'" + k])))
        else:
            ks.append(draw(text))
    ks = gen.uniq(ks)
    k = st.sampled_from(ks)
    ops = {'set': st.tuples(st.just('set'), k, value), 'item': st.tuples(st.just('item'), k, value),
           'update': st.tuples(st.just('update'), k, value), 'delete': st.tuples(st.just('delete'), k),
           'bad set': st.tuples(st.just('bad set'), k, st.sampled_from(BAD)), 'bad update': st.tuples(st.just('bad update'), k,
                                                                                                    st.sampled_from(BAD)),
           'get': st.tuples(st.just('get'), k), 'in': st.tuples(st.just('in'), k)}
    for n in ('call', 'iter', 'str', 'flush', 'reopen', 'create'):
        ops[n] = st.tuples(st.just(n))
    names = ['set', 'set', 'set', draw(st.sampled_from(['update', 'delete', 'bad set', 'bad update']))] + draw(st.lists(st.sampled_from(sorted(ops)), min_size=2, max_size=8))
    n = draw(st.integers(1, 3))
    step = st.tuples(st.integers(0, n - 1), st.sampled_from(names).flatmap(lambda x: ops[x]))
    return n, ks, draw(st.lists(step, min_size=4, max_size=16))


def literal(v):
    return {1} if v == ('set',) else v


def run(c, rec):
    import sqlalchemy
    from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
    from oidcmsg.storage.db_setup import create_database
    n, ks, h = c
    with store.scratch() as d:
        conf = {'url': 'sqlite:///' + os.path.join(d, 'db.sqlite') + '?timeout=0.2', 'params': {'table': 'thing'}}
        create_database(conf)
        side = sqlalchemy.create_engine(conf['url'])
        with side.begin() as con:
            con.execute(sqlalchemy.text('create table other (id integer primary key, owner varchar(80) not null, '
                                        'data varchar(4096) not null, created datetime)'))
            for k in ks:
                con.execute(sqlalchemy.text('insert into other (owner, data) values (:k, :v)'), {'k': k, 'v': 'other'})
        opened = []

        def connect():
            s = AbstractStorageSQLAlchemy(conf)
            opened.append(s)
            return s
        hs = [connect() for _ in range(n)]
        model, writer, crossed = {}, {}, False
        try:
            for i, (who, op) in enumerate(h):
                s = hs[who]
                when = 'step %d: %s of %r on connection %d' % (i + 1, op[0], op[1] if len(op) > 1 else '', who)
                rec.cls(op[0])
                if op[0] in ('set', 'item'):
                    (s.set if op[0] == 'set' else s.__setitem__)(op[1], op[2])
                    model[op[1]] = op[2]
                    writer[op[1]] = s
                elif op[0] == 'update':
                    s.update(op[1], op[2])
                    if op[1] in model:
                        model[op[1]] = op[2]
                        writer[op[1]] = s
                        rec.cls('update of an entry')
                elif op[0] == 'delete':
                    rec.eq(s.delete(op[1]), 1 if op[1] in model else 0, '%s: count', when)
                    model.pop(op[1], None)
                elif op[0] in ('bad set', 'bad update'):
                    o = outcome(s.set if op[0] == 'bad set' else s.update, op[1], literal(op[2]))
                    rec.check(o[0] == 'exc' or op[0] == 'bad update' and op[1] not in model,
                              '%s: value %r accepted', when, op[2])
                elif op[0] == 'get':
                    rec.eq(s.get(op[1]), model.get(op[1]), '%s', when)
                    crossed = crossed or op[1] in model and writer[op[1]] is not s
                elif op[0] == 'in':
                    rec.check((op[1] in s) is (op[1] in model), '%s', when)
                elif op[0] in ('call', 'iter'):
                    rows = list(s() if op[0] == 'call' else s)
                    rec.eq(sorted((r.owner, r.data) for r in rows), sorted(model.items()), '%s', when)
                elif op[0] == 'str':
                    rows = json.loads(str(s))
                    rec.eq(sorted((r[1], r[2]) for r in rows), sorted(model.items()), '%s', when)
                elif op[0] == 'flush':
                    s.flush()
                elif op[0] == 'reopen':
                    hs[who] = connect()
                elif op[0] == 'create':
                    create_database(conf)       # an existing one is kept
            for j, s in enumerate(hs + [connect()]):
                for k in ks + ['never used']:
                    rec.eq(s.get(k), model.get(k), 'at the end, %r read on connection %d', k, j)
                    rec.check((k in s) is (k in model), 'at the end, %r in connection %d', k, j)
                rec.eq(sorted((r.owner, r.data) for r in s), sorted(model.items()), 'at the end, entries on connection %d', j)
                rec.eq(sorted((r.owner, r.data) for r in s()), sorted(model.items()), 'at the end, listing on connection %d', j)
            with side.connect() as con:
                rows = con.execute(sqlalchemy.text('select owner, data from other')).fetchall()
            rec.eq(sorted(map(tuple, rows)), sorted((k, 'other') for k in ks), 'the other table')
        finally:
            for s in opened:
                s.session.remove()
                s.connection.close()
                s.engine.dispose()
            side.dispose()
    rec.cls('%d connections' % n)
    if crossed or model:
        rec.nontrivial()


@st.composite
def plenty(draw):
    return draw(gen.count), draw(st.lists(text, min_size=1, max_size=3)), draw(st.integers(2, 9)), draw(st.sampled_from(['e%d', 'https://op/%d', '%d']))


def many(c, rec):
    from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
    from oidcmsg.storage.db_setup import create_database
    n, values, nth, name = c
    with store.scratch() as d:
        conf = {'url': 'sqlite:///' + os.path.join(d, 'db.sqlite') + '?timeout=0.2', 'params': {'table': 'thing'}}
        create_database(conf)
        hs = [AbstractStorageSQLAlchemy(conf) for _ in range(2)]
        try:
            s, other = hs
            model = {name % i: values[i % len(values)] + str(i) for i in range(n)}
            for k, v in model.items():
                s.set(k, v)
            for when in ('written', 'some deleted'):
                for h in hs:
                    for rows in (list(h), list(h()), ):
                        rec.eq(sorted((r.owner, r.data) for r in rows), sorted(model.items()), '%d entries, %s', n, when)
                    for i in (0, 1, n // 2, n - 1):
                        rec.eq(h.get(name % i), model.get(name % i), '%r of %d, %s', name % i, n, when)
                        rec.check((name % i in h) is (name % i in model), '%r of %d, %s', name % i, n, when)
                    h.flush()
                if when == 'written':
                    for i in range(0, n, nth):
                        rec.eq(other.delete(name % i), 1, 'entries deleted')
                        del model[name % i]
        finally:
            for h in hs:
                h.session.remove()
                h.connection.close()
                h.engine.dispose()
    rec.nontrivial()


TARGETS = [Target('many', plenty(), many, quick=10, thorough=1000),
           Target('connections', history(), run, quick=1000, thorough=40000)]

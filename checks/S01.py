"""Histories of operations on a file store, with re-opening, against a dictionary (model based)."""
import copy
import os

from hypothesis import strategies as st

import gen
import msgs
import store
from vf import Target, outcome

UNPRIVILEGED = True
RULE = 'a case is non-trivial if a key is written and the store is read afterwards; distinct by configuration and history'
ASSUMPTIONS = ['deleting a missing key is silent', 'key names of up to 200 characters after escaping',
               'values of the text converter have no surrounding white space (known finding)',
               'a stored object is not changed by its owner afterwards']
OPS = ['set', 'set', 'set', 'del', 'update', 'read', 'get', 'in', 'keys', 'items', 'iter', 'len', 'call', 'reopen', 'bad', 'clear']


def operations(ks, value, bad):
    k = st.sampled_from(ks)
    return {'set': st.tuples(st.just('set'), k, value), 'bad': st.tuples(st.just('bad'), k, bad),
            'del': st.tuples(st.just('del'), k),
            'update': st.tuples(st.just('update'), st.dictionaries(k, value, max_size=3)),
            'read': st.tuples(st.just('read'), k), 'in': st.tuples(st.just('in'), k),
            'get': st.tuples(st.just('get'), k, st.sampled_from([None, 'default', 0])),
            **{n: st.tuples(st.just(n)) for n in ('keys', 'items', 'iter', 'len', 'call', 'reopen', 'clear')}}


@st.composite
def history(draw):
    conv = draw(st.sampled_from([store.JSON, store.JSON, store.PASS, None]))
    value = store.json_value if conv == store.JSON else store.passthru
    if conv == store.JSON and draw(st.integers(0, 3)) == 0:
        value = st.sampled_from(draw(st.sampled_from(store.TWINS)))
    ks = draw(store.keys())
    ops = operations(ks, value, store.bad_value(conv or store.PASS))
    # swarm: some operations are left out of a whole history
    enabled = draw(st.lists(st.sampled_from(OPS[3:]), min_size=1, max_size=8)) + ['set', 'set']
    h = draw(st.lists(st.sampled_from(enabled).flatmap(lambda n: ops[n]), min_size=4, max_size=16))
    where = draw(st.sampled_from(['db', 'db', 'a/b', '{issuer}', 'x/{issuer}/y', 'sub dir']))
    return conv, draw(st.booleans()), where, ks, h


def open_store(d, conv, qp, where):
    from oidcmsg.storage.abfile import AbstractFileSystem
    conf = {'fdir': os.path.join(d, where)}
    if '{issuer}' in where:
        conf['issuer'] = 'https%3A%2F%2Fop.example.org'
    if conv:
        conf['value_conv'] = conv
    if qp:
        conf['key_conv'] = store.QP
    before = copy.deepcopy(conf)
    s = AbstractFileSystem(conf)
    return s, conf == before


def pairs(xs):
    return sorted(xs, key=lambda p: p[0])


def observe(rec, s, model, op, when, ks=()):
    """One observation against the model."""
    n = op[0]
    if n == 'read':
        o = outcome(lambda: s[op[1]])
        if op[1] in model:
            rec.check(o[0] == 'ok' and msgs.same(o[1], model[op[1]]), '%s: key %r reads %r, expected %r', when, op[1], o[1],
                      model[op[1]])
        else:
            rec.check(o[0] == 'exc' and isinstance(o[1], KeyError), '%s: missing key %r reads %r', when, op[1], o[1])
    elif n == 'get':
        got = s.get(op[1], op[2]) if op[2] is not None else s.get(op[1])
        want = model.get(op[1], op[2])
        rec.check(msgs.same(got, want), '%s: get(%r, %r) is %r, expected %r', when, op[1], op[2], got, want)
    elif n == 'in':
        rec.eq(op[1] in s, op[1] in model, '%s: membership of %r', when, op[1])
    elif n == 'keys':
        rec.eq(sorted(s.keys()), sorted(model), '%s: keys', when)
    elif n == 'call':
        rec.eq(sorted(s()), sorted(model), '%s: keys by calling', when)
    elif n in ('items', 'iter'):
        got = pairs(s.items() if n == 'items' else iter(s))
        rec.check([k for k, _ in got] == sorted(model) and all(msgs.same(v, model[k]) for k, v in got),
                  '%s: %s are %r, expected %r', when, n, got, pairs(model.items()))
    elif n == 'len':
        rec.eq(len(s), len(model), '%s: length', when)


def run(c, rec):
    conv, qp, where, ks, h = c
    with store.scratch() as d:
        s, kept = open_store(d, conv, qp, where)
        rec.check(kept, 'the configuration was changed')
        model = {}
        wrote = 0
        for i, op in enumerate(h):
            when = 'step %d (%s)' % (i + 1, op[0])
            n = op[0]
            if n == 'set':
                s[op[1]] = copy.deepcopy(op[2])
                model[op[1]] = op[2]
                wrote += 1
            elif n == 'bad':
                o = outcome(s.__setitem__, op[1], store.literal(op[2]))
                rec.check(o[0] == 'exc', '%s: value %r was not refused', when, op[2])
                observe(rec, s, model, ('read', op[1]), when)
            elif n == 'del':
                o = outcome(s.__delitem__, op[1])
                rec.check(o[0] == 'ok' or op[1] not in model, '%s: %r', when, o[1])
                model.pop(op[1], None)
            elif n == 'update':
                s.update(copy.deepcopy(op[1]))
                model.update(op[1])
                wrote += len(op[1])
            elif n == 'clear':
                s.clear()
                model.clear()
            elif n == 'reopen':
                s, kept = open_store(d, conv, qp, where)
            else:
                observe(rec, s, model, op, when)
            rec.cls(n)
        for name, handle in (('at the end', s), ('opened anew', open_store(d, conv, qp, where)[0])):
            for k in ks + ['never used']:
                for op in (('in', k), ('read', k), ('get', k, 'x'), ('get', k, None)):
                    observe(rec, handle, model, op, name)
            for n in ('len', 'keys', 'items', 'iter', 'call', 'len'):
                observe(rec, handle, model, (n,), name)
    if wrote:
        rec.nontrivial()


# --- many entries
@st.composite
def plenty(draw):
    conv = draw(st.sampled_from([store.JSON, store.PASS]))
    return conv, draw(gen.count), draw(st.lists(store.json_value if conv == store.JSON else store.passthru, min_size=1, max_size=3)), \
        draw(st.integers(2, 9)), draw(st.booleans()), draw(st.sampled_from(['e%d', 'https://op.example.org/%d', '%d', 'x/%d.lock', '.%d']))


def many(c, rec):
    conv, n, values, nth, by_update, name = c
    with store.scratch() as d:
        s, _ = open_store(d, conv, True, 'db')
        model = {name % i: [values[i % len(values)], i] if conv == store.JSON else '%s|%d' % (values[i % len(values)], i) for i in range(n)}
        if by_update:
            s.update(copy.deepcopy(model))
        else:
            for k, v in model.items():
                s[k] = copy.deepcopy(v)
        for when in ('written', 'some deleted'):
            for who, h in (('the writer', s), ('a new handle', open_store(d, conv, True, 'db')[0])):
                for op in [('len',), ('keys',), ('items',), ('iter',), ('call',)] + [(o, name % i) for i in range(n) for o in ('read', 'in')]:
                    observe(rec, h, model, op, '%d entries, %s, %s' % (n, when, who))
            if when == 'written':
                for i in range(0, n, nth):
                    del s[name % i]
                    del model[name % i]
        s.clear()
        rec.eq((len(s), list(s.keys()), len(open_store(d, conv, True, 'db')[0])), (0, [], 0), 'after clear()')
    rec.nontrivial()


# --- long values
LENGTHS = [n + d for n in (1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20) for d in (-1, 0, 1)] + [10 ** 5, 3 * 10 ** 6]
long_case = st.tuples(st.sampled_from([store.JSON, store.PASS]), st.one_of(st.sampled_from(LENGTHS), st.integers(5000, 200000)),
                      st.sampled_from(['abc', 'x', 'å', 'a\n', 'a\r\nb', '"\\', '\u2028', '😀', '{}']), st.booleans())


def lengthy(c, rec):
    conv, n, part, by_update = c
    text = '|' + (part * (n // len(part) + 1))[:n - 2] + '|'
    v = text if conv == store.PASS else {'a': [text, n]}
    with store.scratch() as d:
        s, _ = open_store(d, conv, True, 'db')
        other, _ = open_store(d, conv, True, 'db')
        if by_update:
            s.update({'a': v})
        else:
            s['a'] = v
        for who, h in (('the writer', s), ('another handle', other), ('a new handle', open_store(d, conv, True, 'db')[0])):
            for how, got in (('read', h['a']), ('items', dict(h.items())['a']), ('get', h.get('a'))):
                rec.check(got == v, '%s of %d characters by %s differs', how, n, who)
    rec.nontrivial()


# --- known findings
def _stored(value, key='a', conv=store.PASS):
    import vf
    with store.scratch() as d:
        conf = {'fdir': d, 'value_conv': conv}
        from oidcmsg.storage.abfile import AbstractFileSystem
        AbstractFileSystem(conf)[key] = value
        got = outcome(lambda: AbstractFileSystem(conf)[key])
    assert vf
    return got


def white_space():
    got = _stored(' x\n')
    return None if got == ('ok', ' x\n') else 'stored %r, another handle reads %r' % (' x\n', got[1])


KNOWN = {'passthru-whitespace': white_space}
TARGETS = [Target('histories', history(), run, quick=3500, thorough=100000),
           Target('many', plenty(), many, quick=40, thorough=1500),
           Target('long values', long_case, lengthy, quick=80, thorough=2000)]
assert gen is not None

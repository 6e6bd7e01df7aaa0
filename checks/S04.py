"""Histories over several labelled stores on one backing store against one dictionary per label."""
import copy
import os

from hypothesis import strategies as st

import gen
import msgs
import store
from checks import S01, S02
from vf import Target, outcome

UNPRIVILEGED = True
RULE = 'a case is non-trivial if entries were written under two labels; distinct by labels, keys and history'
ASSUMPTIONS = ['no label contains two underscores in a row or ends in one (known finding)', 'reading a missing key gives None',
               'file modification times tell versions apart (see S02)']
LABELS = ['a', 'b', 'A', 'ab', 'aa', 'a b', 'a/b', 'client', 'clients', 'default', 'åäö', '.', '..', 'x.lock', '%', '0', "{'label': 'a'}",
          '_a', '../x', 'a_b', 'lient', 'cli']
LENGTH = {'fs', 'dict'}


@st.composite
def history(draw):
    kind = draw(st.sampled_from(['fs', 'fs', 'dict', 'shared dict']))
    labels = draw(st.lists(st.sampled_from(LABELS), min_size=2, max_size=3, unique=True))
    plain = draw(st.integers(0, 4)) == 0 and kind != 'dict'
    ks = draw(store.keys(3))
    ks = [k for k in ks if len(k) < 60] or ['a']
    near = ['__%s__' % x for x in labels] + ['__%s__' % labels[0] + k for k in ks] + ['%s__x' % labels[-1], '__', '_', labels[0], 'k']
    ks = gen.uniq(ks + draw(st.lists(st.sampled_from(near), max_size=3)))
    conv = draw(st.sampled_from([store.JSON, store.PASS]))
    value = store.passthru if conv == store.PASS and kind == 'fs' else st.one_of(store.json_value, store.json_value, st.none())
    ops = S01.operations(ks, value, store.bad_value(conv))
    ops['setm'] = st.tuples(st.just('setm'), st.sampled_from(ks), value)
    names = ['set', 'set', 'set'] + draw(st.lists(st.sampled_from(
        ['del', 'update', 'read', 'get', 'in', 'keys', 'iter', 'items', 'len', 'reopen', 'setm']), min_size=2, max_size=7))
    n = len(labels) + draw(st.integers(0, 1))       # possibly two handles on one label
    step = st.tuples(st.integers(0, n - 1 + plain), st.sampled_from(names).flatmap(lambda x: ops[x]))
    return kind, labels + labels[:1] * (n - len(labels)) + [''] * plain, conv, draw(st.booleans()), ks, \
        draw(st.lists(step, min_size=4, max_size=14))


def run(c, rec):
    from oidcmsg.storage.abfile import LabeledAbstractFileSystem
    from oidcmsg.storage.extension import LabeledDict
    kind, labels, conv, by_arg, ks, h = c
    fs = kind == 'fs'
    with store.scratch() as d:
        tick = S02.Ticker(d)

        def open_one(label):
            conf = {'fdir': os.path.join(d, 'db'), 'value_conv': conv}
            if by_arg:
                return LabeledAbstractFileSystem(conf, label=label)
            return LabeledAbstractFileSystem(dict(conf, label=label))
        if fs:
            hs = [open_one(x) for x in labels]
        else:
            hs = [LabeledDict(x) for x in labels]
            for i, x in enumerate(labels):
                j = labels.index(x)
                if kind == 'shared dict':
                    j = 0
                hs[i].storage = hs[j].storage
        models = {x: {} for x in labels if x}
        raw = {}
        shared = kind != 'dict'

        def model_of(label):
            if label:
                return models[label]
            m = dict(raw)
            for x in models:
                m.update({'__%s__%s' % (x, k): v for k, v in models[x].items()})
            return m

        def put(label, k, v):
            if not label:
                for x in models:
                    if k.startswith('__%s__' % x):
                        models[x][k[len(x) + 4:]] = v
                        return
                raw[k] = v
            else:
                models[label][k] = v

        def drop(label, k):
            if not label:
                for x in models:
                    if k.startswith('__%s__' % x):
                        models[x].pop(k[len(x) + 4:], None)
                        return
                raw.pop(k, None)
            else:
                models[label].pop(k, None)

        def observe(i, op, when):
            s, model = hs[i], model_of(labels[i])
            if op[0] == 'read':
                got = s[op[1]]
                rec.check(msgs.same(got, model.get(op[1])), '%s: %r reads %r, expected %r', when, op[1], got, model.get(op[1]))
            elif op[0] in ('len', 'items') and not fs:
                return
            else:
                S01.observe(rec, s, model, op, when)
        wrote, written = set(), False
        for i, (who, op) in enumerate(h):
            s, label = hs[who], labels[who]
            when = 'step %d (%s under %r)' % (i + 1, op[0], label)
            if op[0] in ('set', 'update', 'setm'):
                if fs and written:
                    tick.wait()
                if op[0] == 'update':
                    s.update(copy.deepcopy(op[1]))
                    for k, v in op[1].items():
                        put(label, k, v)
                else:
                    if op[0] == 'setm' and not fs:
                        s.set(op[1], copy.deepcopy(op[2]))
                    else:
                        s[op[1]] = copy.deepcopy(op[2])
                    put(label, op[1], op[2])
                if op[1]:
                    wrote.add(label)
                written = True
                if fs:
                    tick.wrote()
            elif op[0] == 'del':
                o = outcome(s.__delitem__, op[1])
                rec.check(o[0] == 'ok' or op[1] not in model_of(label), '%s: %r', when, o[1])
                drop(label, op[1])
            elif op[0] == 'reopen':
                if fs:
                    hs[who] = open_one(label)
            else:
                observe(who, op, when)
            rec.cls(op[0])
            if i % 4 == 3:
                for j in range(len(hs)):
                    observe(j, ('keys',), when + ', seen under %r' % labels[j])
        for j in range(len(hs)):
            for op in [(n, k) for k in ks for n in ('in', 'read')] + [('get', ks[0], 'x'), ('get', 'never used', 'dflt'),
                                                                     ('get', 'never used', None)] + \
                    [(n,) for n in ('keys', 'iter', 'items', 'len')]:
                observe(j, op, 'at the end under %r' % labels[j])
        if not fs:
            # what lies behind: a dictionary that can be told to set and delete
            held, back = dict(hs[0].storage), hs[0].storage
            for n, k in enumerate(ks):
                k = 'behind ' + k
                back.set(k, n)
                rec.check(back.get(k) == n and back.get(k, 'x') == n and back[k] == n and k in back, 'dictionary: %r set to %r', k, n)
                back.delete(k)
                rec.check(k not in back and back.get(k) is None and back.get(k, 'x') == 'x', 'dictionary: %r deleted', k)
                rec.check(outcome(back.delete, k)[0] == 'exc', 'dictionary: %r deleted twice', k)
            rec.check(msgs.same(dict(back), held), 'dictionary: changed to %r', dict(back))
        rec.cls(kind)
    if len(wrote) > 1:
        rec.nontrivial()
    assert shared or kind == 'dict'


def underscores():
    from oidcmsg.storage.abfile import LabeledAbstractFileSystem
    with store.scratch() as d:
        a = LabeledAbstractFileSystem({'fdir': d}, label='a')
        b = LabeledAbstractFileSystem({'fdir': d}, label='a_')
        b['x'] = 'v'
        ks = a.keys()
    return 'label "a" shows keys %r after a write under label "a_"' % ks if ks else None


KNOWN = {'underscore-labels': underscores}
TARGETS = [Target('labels', history(), run, quick=2000, thorough=80000)]

"""Message as a mapping: operation histories against a reference dictionary."""
import copy

from hypothesis import strategies as st

import gen
import msgs
from spec import SPECS
from vf import Target, outcome

RULE = 'a history is non-trivial if at least two operations changed the content'
ASSUMPTIONS = ['values of known parameters are well typed here (M03 decides the others)',
               'whether removing blanks removes 0 and False is left open']
TYPES = [list, str, int, bool, dict]


@st.composite
def history(draw):
    key = draw(st.sampled_from(msgs.KEYS))
    spec = SPECS[key]
    known = sorted(spec.params)
    pool = draw(st.lists(st.sampled_from(known), min_size=1, max_size=4, unique=True)) if known else []
    unknown = draw(st.lists(msgs.extra_keys(key), min_size=1, max_size=2, unique=True))
    if known:
        unknown.append(known[0] + '#sv')
    keys = st.sampled_from(pool + unknown + sorted(spec.defaults)[:2])

    def value(k):
        if k in spec.params:
            single = spec.params[k] not in ('L', 'S', 'K', 'E')
            return st.one_of(msgs.value_for(spec.params[k]), *([st.none()] if single else []))
        if k.endswith('#sv'):
            return msgs.value_for(spec.params[k[:-3]])
        return st.one_of(gen.json_value, st.sampled_from([1, True, 1.0, 0, False]))

    pairs = keys.flatmap(lambda k: st.tuples(st.just(k), value(k)))
    blank = keys.flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(['', ['']])))
    dicts = st.lists(pairs, max_size=3).map(dict)
    op = st.one_of(
        st.tuples(st.just('set'), pairs), st.tuples(st.just('set'), pairs),
        st.tuples(st.just('del'), keys), st.tuples(st.just('pop'), keys),
        st.tuples(st.just('setdefault'), pairs),
        st.tuples(st.just('update'), dicts), st.tuples(st.just('update_msg'), dicts),
        st.tuples(st.just('from_dict'), st.lists(st.one_of(pairs, blank), max_size=3).map(dict)),
        st.tuples(st.just('from_json'), dicts),
        st.tuples(st.just('weed'), st.none()), st.tuples(st.just('rm_blanks'), st.none()),
        st.tuples(st.just('set_defaults'), st.none()), st.tuples(st.just('copy'), st.none()),
        st.tuples(st.just('blank'), keys.flatmap(lambda k: st.tuples(st.just(k), st.sampled_from([None, '', [], {}, 0])))),
        st.tuples(st.just('clear'), st.none()))
    start = draw(dicts)
    return key, draw(st.booleans()), start, draw(st.lists(op, min_size=draw(st.sampled_from([0, 2, 4, 8])), max_size=12)), \
        draw(st.sampled_from([k for k in msgs.KEYS if SPECS[k].name != spec.name])), \
        draw(st.lists(st.integers(0, 14), max_size=5))


def blankish(v):
    return not (v in ('', ['']))


def run(c, rec):
    import json
    key, dflt, start, ops, other, shown = c
    cls = msgs.cls_of(key)
    spec = SPECS[key]
    from oidcmsg.message import Message

    m = cls(set_defaults=dflt, **copy.deepcopy(start))
    model = copy.deepcopy(spec.defaults) if dflt else {}
    model.update({k: v for k, v in copy.deepcopy(start).items() if blankish(v)})
    frozen = []
    changes = 0
    names = sorted({k for k in spec.params} | set(start) | set(spec.defaults) | {'no such', ''} |
                   {k for o, a in ops if isinstance(a, dict) for k in a} |
                   {a[0] for o, a in ops if isinstance(a, tuple)})

    def agree(when):
        held = msgs.plain(m)
        rec.check(msgs.same(held, model), 'after %s: holds %r, expected %r', when, held, model)
        rec.eq(sorted(m), sorted(model), 'iteration after %s' % (when,))
        rec.eq(sorted(m.keys()), sorted(model), 'keys() after %s' % (when,))
        rec.eq(len(m), len(model), 'len() after %s' % (when,))
        rec.check(msgs.same(msgs.plain(dict(m.items())), model), 'items() after %s', when)
        rec.check(len(list(m.values())) == len(model) and all(
            any(msgs.same(msgs.plain(v), w) for w in model.values()) for v in m.values()), 'values() after %s', when)
        for k in names:
            rec.eq(k in m, k in model, 'membership of %r after %s' % (k, when))
            if k in model:
                rec.check(msgs.same(msgs.plain(m[k]), model[k]) and msgs.same(msgs.plain(m.get(k)), model[k]) and
                          msgs.same(msgs.plain(m.get(k, 'dflt')), model[k]), 'reading %r after %s', k, when)
            else:
                o = outcome(lambda: m[k])
                rec.check(o[0] == 'exc' and isinstance(o[1], KeyError), 'reading absent %r after %s gave %r', k, when, o)
                rec.check(m.get(k) is None and m.get(k, 'dflt') == 'dflt', 'get() of absent %r after %s', k, when)
        ext = m.extra()
        rec.check(msgs.same(msgs.plain(ext), {k: v for k, v in model.items() if k not in spec.params}),
                  'extra() after %s: %r', when, ext)
        rec.eq(bool(m.only_extras()), not any(k in spec.params for k in model), 'only_extras() after %s' % (when,))

    def show(when):
        # what a message is written as depends on what it holds, not on what was asked of it before
        fresh = cls(set_defaults=False)
        fresh.update(copy.deepcopy(dict(m.items())))
        for how in ('to_json', 'to_dict', 'to_urlencoded', '__str__'):
            o, want = outcome(getattr(m, how)), outcome(getattr(fresh, how))
            rec.check(o == want or o[0] == want[0] == 'exc' and type(o[1]) is type(want[1]),
                      '%s after %s gave %r, a new message with the same content gives %r', how, when, o, want)
        rec.cls('written during the history')

    agree('construction')
    if 0 in shown:
        show('construction')
    for n, (op, a) in enumerate(ops):
        old = copy.deepcopy(model)
        if op == 'set':
            m[a[0]] = copy.deepcopy(a[1])
            if a[1] == [] or not (a[0] in spec.params and isinstance(a[1], list) and a[1][:1] == [None]):
                model[a[0]] = copy.deepcopy(a[1])
        elif op in ('del', 'pop'):
            o = outcome(m.__delitem__ if op == 'del' else m.pop, a)
            if a in model:
                rec.check(o[0] == 'ok', '%s of %r: %r', op, a, o)
                if op == 'pop':
                    rec.check(msgs.same(msgs.plain(o[1]), model[a]), 'pop gave %r', o[1])
                del model[a]
            else:
                rec.check(o[0] == 'exc' and isinstance(o[1], KeyError), '%s of absent %r: %r', op, a, o)
        elif op == 'setdefault':
            m.setdefault(a[0], copy.deepcopy(a[1]))
            model.setdefault(a[0], copy.deepcopy(a[1]))
        elif op == 'update':
            m.update(copy.deepcopy(a))
            model.update(copy.deepcopy(a))
        elif op == 'update_msg':
            src = cls(set_defaults=False)
            src.update(copy.deepcopy(a))
            m.update(src)
            rec.check(msgs.same(msgs.plain(src), a), 'update changed its argument')
            model.update(copy.deepcopy(a))
        elif op in ('from_dict', 'from_json'):
            if op == 'from_dict':
                m.from_dict(copy.deepcopy(a))
            else:
                m.from_json(json.dumps(a))
            for k, v in copy.deepcopy(a).items():
                if not blankish(v):
                    continue
                model[k] = v
        elif op == 'weed':
            m.weed()
            model = {k: v for k, v in model.items() if k in spec.params}
        elif op == 'rm_blanks':
            m.rm_blanks()
            model = {k: v for k, v in model.items() if v or (type(v) in (int, bool, float) and k in m)}
        elif op == 'blank':
            m.update({a[0]: a[1]})
            model[a[0]] = a[1]
        elif op == 'set_defaults':
            m.set_defaults()
            for k, v in spec.defaults.items():
                model.setdefault(k, copy.deepcopy(v))
        elif op == 'copy':
            new = m.copy()
            rec.check(type(new) is cls and new == m, 'copy is not equal')
            frozen.append((m, copy.deepcopy(model)))
            m = new
        elif op == 'clear':
            m.clear()
            model = {}
        agree((op, a))
        if n + 1 in shown or shown and n + 1 == len(ops):
            show((op, a))
        changes += not msgs.same(old, model)
        rec.cls('op ' + op)
    for f, content in frozen:
        rec.check(msgs.same(msgs.plain(f), content), 'a copied message changed: %r, was %r', msgs.plain(f), content)

    # equality
    twin = cls(set_defaults=False)
    twin.update(copy.deepcopy(dict(m.items())))
    rec.check(m == twin and twin == m and not (m != twin), 'equal content, not equal')
    turned = cls(set_defaults=False)
    turned.update(dict(reversed(list(copy.deepcopy(dict(m.items())).items()))))
    rec.check(m == turned and turned == m, 'equal content in another order, not equal')
    twin['zz new'] = 'x'
    rec.check(not (m == twin) and m != twin, 'different content, equal')
    if model:
        k = sorted(model)[0]
        twin = cls(set_defaults=False)
        twin.update({x: y for x, y in copy.deepcopy(dict(m.items())).items() if x != k})
        rec.check(m != twin, 'one parameter less, equal')
        twin.update({k: 'surely another value'})
        rec.check(m != twin, 'one value changed, equal')
    kin = [b for b in cls.__mro__ if issubclass(b, Message) and b.__name__ != cls.__name__]
    for ocls in [msgs.cls_of(other)] + kin:
        alien = ocls(set_defaults=False)
        alien.update(copy.deepcopy(dict(m.items())))
        rec.check(not (m == alien) and m != alien and not (alien == m) and alien != m, 'equal to a %s', ocls.__name__)
    rec.check(m != dict(m.items()) and m != 'x' and m is not None, 'equal to something that is no message')
    # queries about the class
    rec.eq(sorted(m.parameters()), sorted(spec.params), 'parameters()')
    rec.eq(sorted(m.required_parameters()), sorted(spec.required), 'required_parameters()')
    rec.check(m.type() == spec.name, 'type()')
    for p, code in spec.params.items():
        vt = m.value_type(p)
        want = {'s': str, 'i': int, 'b': bool, 'J': dict, 'D': dict}.get(code)
        if want:
            rec.check(vt is want, 'value_type(%r) is %r', p, vt)
        elif code in ('L', 'S'):
            rec.check(vt == [str], 'value_type(%r) is %r', p, vt)
    rec.check(m.value_type('no such') is None, 'value_type of an unknown parameter')
    assert isinstance(m, Message)
    if changes >= 2:
        rec.nontrivial()


TARGETS = [Target('history', history(), run, quick=2400, thorough=80000)]

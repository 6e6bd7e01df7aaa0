"""Verified claims requests that are well formed or have one defect anywhere, and claims constructors, against reference
predicates."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import valid
from vf import Target, outcome

RULE = 'a case is non-trivial if the request has a constraint (an object), or the constructor gets a typed value'
ASSUMPTIONS = ['a requested member is null or an object; other shapes are not decided',
               'true and 1, false and 0 are not decided against each other (essential flags, integer values)',
               'constraints on members that the classes do not declare are free; list members of a claims constructor are not decided']
IDA = 'oidc.identity_assurance:'
SPEC = msgs.SPECS[IDA + 'IdentityAssuranceClaims'].params
STR = [n for n in SPEC if SPEC[n] == 's']
BOOL = [n for n in SPEC if SPEC[n] == 'b']
INT = [n for n in SPEC if SPEC[n] == 'i']
VSTR = ['trust_framework', 'time', 'verification_process']
GOOD = {'s': gen.text0, 'b': st.booleans(), 'i': st.one_of(gen.integer, st.sampled_from([0, -1, 1]))}
BAD = {'s': [0, 1, 5, True, False, 1.5, [], {}, ['x'], {'a': 1}], 'b': ['x', 'true', 0, 1, '', 1.0, [], {}, [True]],
       'i': ['x', '1', '', 1.5, 0.0, [], {}, [1]]}
BAD_ESSENTIAL = ['x', 'true', 'True', 'false', 2, -1, [], {}, '', [True], 0.5]
purpose = st.one_of(
    st.tuples(st.sampled_from([3, 4, 299, 300, 150]), st.sampled_from(valid.ERRCHARS)).map(lambda t: t[0] * t[1]),
    st.text(alphabet=valid.ERRCHARS, min_size=3, max_size=20), st.just(''.join(valid.ERRCHARS)))
odd_char = st.one_of(st.sampled_from('"\\\x7f\x80\n\t\0é€\x1f\xa0'), st.integers(0, 0x24f).map(chr)).filter(
    lambda c: c not in valid.ERRCHARS)
DEFECTS = ['essential', 'value', 'values', 'purpose']


@st.composite
def bad_purpose(draw):
    kind = draw(st.sampled_from(['short', 'long', 'char', 'type']))
    if kind == 'type':
        return draw(st.sampled_from([5, True, False, 0]))
    if kind == 'short':
        return draw(st.text(alphabet=valid.ERRCHARS, max_size=2))
    if kind == 'long':
        return draw(st.sampled_from(valid.ERRCHARS)) * draw(st.sampled_from([301, 302, 400, 1000]))
    t = draw(purpose)[:200]
    i = draw(st.integers(0, len(t)))
    return t[:i] + draw(odd_char) + t[i:]


@st.composite
def constraint(draw, code, defect=None):
    if defect is None and draw(st.integers(0, 3)) == 0:
        return None
    c = {}
    for k in draw(st.permutations(['essential', 'value', 'values', 'purpose', 'max_age'])):
        if k == defect or draw(st.integers(0, 2)) == 0:
            if k == 'essential':
                c[k] = draw(st.sampled_from(BAD_ESSENTIAL if k == defect else [True, False, None]))
            elif k == 'value':
                c[k] = draw(st.sampled_from(BAD[code]) if k == defect else GOOD[code])
            elif k == 'values':
                vs = draw(st.lists(GOOD[code], max_size=draw(st.sampled_from([3, 3, 12]))))
                if k == defect:
                    vs.insert(draw(st.integers(0, len(vs))), draw(st.sampled_from(BAD[code])))
                c[k] = vs
            elif k == 'purpose':
                c[k] = draw(bad_purpose() if k == defect else purpose)
            else:
                c[k] = draw(gen.integer)
    return c


free = st.one_of(st.none(), st.fixed_dictionaries({}, optional={'value': gen.json_value, 'essential': gen.json_value}))
UNDECLARED = ['x_claim', 'http://example.com/claim', 'nickname#sv', 'max_age', 'Name']


@st.composite
def tree(draw):
    where = draw(st.sampled_from([None, None, 'claims', 'claims', 'verification', 'evidence']))
    defect = draw(st.sampled_from(DEFECTS)) if where else None

    def members(names, bad):
        """names: {name: code}"""
        chosen = draw(st.lists(st.sampled_from(sorted(names)), min_size=1 if bad else 0, max_size=5, unique=True))
        if not bad and INT[0] in names and draw(st.integers(0, 3)) == 0:
            chosen = gen.uniq(chosen + BOOL + INT)
        victim = None
        if bad:
            if INT[0] in names and draw(st.booleans()):
                victim = draw(st.sampled_from(BOOL + INT))
                chosen = gen.uniq(chosen + [victim])
            else:
                victim = draw(st.sampled_from(chosen))
        return {n: draw(constraint(names[n], defect if n == victim else None)) for n in draw(st.permutations(chosen))}
    r = {}
    if where in ('verification', 'evidence') or draw(st.booleans()):
        v = members({n: 's' for n in VSTR}, where == 'verification')
        how = draw(st.sampled_from(['absent', 'null', 'list', 'list']))
        if where == 'evidence':
            how = 'list'
        if how == 'null':
            v['evidence'] = None
        elif how == 'list':
            items = []
            n = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 7, 12]))
            bad = draw(st.integers(0, n - 1)) if where == 'evidence' else None
            for i in range(n):
                if i != bad and draw(st.integers(0, 3)) == 0:
                    items.append(None)
                    continue
                e = {}
                if i == bad or draw(st.booleans()):
                    e['type'] = draw(constraint('s', defect if i == bad else None))
                if draw(st.booleans()):
                    e[draw(st.sampled_from(['document', 'method', 'verifier', 'x']))] = draw(free)
                items.append(e)
            v['evidence'] = items
        if draw(st.integers(0, 3)) == 0:
            v['x_verification'] = draw(free)
        r['verification'] = v
    if where == 'claims' or draw(st.booleans()):
        c = members({n: SPEC[n] for n in STR + BOOL + INT}, where == 'claims')
        if draw(st.integers(0, 3)) == 0:
            c[draw(st.sampled_from(UNDECLARED))] = draw(free)
        if draw(st.integers(0, 5)) == 0:
            c['address'] = draw(st.sampled_from([None, {'value': {'country': 'x'}}, {'essential': True}]))
        r['claims'] = c
    if where is None and draw(st.integers(0, 9)) == 0:
        r[draw(st.sampled_from(['claims', 'verification']))] = None
    r = {k: r[k] for k in draw(st.permutations(list(r)))}
    return r, where, defect, draw(st.sampled_from(['VerifiedClaimsRequest', 'VerifiedClaimsRequest', 'IDAClaimsRequest'])), \
        draw(st.sampled_from(['kwargs', 'dict', 'json']))


def build(name, p, how):
    cls = msgs.cls_of(IDA + name)
    p = copy.deepcopy(p)
    return cls(**p) if how == 'kwargs' else cls().from_json(json.dumps(p)) if how == 'json' else cls().from_dict(p)


def has_object(x):
    return isinstance(x, dict) and any(isinstance(v, dict) or (isinstance(v, list) and any(isinstance(i, dict) for i in v))
                                       for k in x.values() if isinstance(k, dict) for v in k.values())


def request(c, rec):
    r, where, defect, name, how = c
    if name == 'IDAClaimsRequest':
        m = build(name, {'verified_claims': r, 'userinfo': {'email': None}}, how)
    else:
        m = build(name, r, how)
    before = msgs.plain(m)
    o = outcome(m.verify)
    if where:
        rec.check(o[0] == 'exc' or not o[1], 'accepted with a bad %s under %s: %r', defect, where, r)
    else:
        rec.check(o == ('ok', True), 'refused: %r (%r)', o[1], r)
        rec.check(outcome(m.verify) == ('ok', True), 'refused the second time')
        got = m['verified_claims'] if name == 'IDAClaimsRequest' and r else m
        if name == 'VerifiedClaimsRequest' or r:
            rec.check(isinstance(got, msgs.cls_of(IDA + 'VerifiedClaimsRequest')), 'class of the verified claims is %s', type(got))
        after = msgs.plain(m)
        rec.check(msgs.same(after, before), 'verification turned %r into %r', before, after)
    rec.cls('%s of %s' % (defect, where) if where else 'well formed')
    if has_object(r):
        rec.nontrivial()


TYPED = {'VerifiedClaims': {'verification': 'VerificationElement', 'claims': 'IdentityAssuranceClaims'},
         'VerificationElement': {n: 's' for n in VSTR}, 'IdentityAssuranceClaims': dict(
             {n: SPEC[n] for n in STR + BOOL + INT}, address='Message', _claim_names='Message'), 'Document': {
                 'type': 's', 'number': 's', 'issuer': 'Issuer', 'date_of_issuance': 's', 'date_of_expiry': 's'},
         'Issuer': {'name': 's', 'country': 's'}, 'QES': {'issuer': 's', 'serial_number': 's', 'created_at': 's', 'type': 's'},
         'IdDocument': {'method': 's', 'verifier': 'Verifier', 'document': 'Document', 'time': 's', 'type': 's'},
         'UtilityBill': {'provider': 'Provider', 'date': 's', 'type': 's'}, 'Provider': {'name': 's', 'country': 's'},
         'Verifier': {'organization': 's', 'txn': 's'}}


@st.composite
def built(draw, name, depth=0):
    """(class, how the base is given, [(member, value, accepted)]); a nested constructor is ('constructor', ...)."""
    steps = []
    for n in draw(st.lists(st.sampled_from(sorted(TYPED[name]) + ['x_undeclared']), max_size=4)):
        code = TYPED[name].get(n)
        if draw(st.integers(0, 3)) == 0:
            steps.append((n, ('value', None), True))
        elif code is None:
            steps.append((n, ('value', draw(gen.json_value)), True))
        elif len(code) == 1:
            ok = draw(st.booleans())
            steps.append((n, ('value', draw(GOOD[code] if ok else st.sampled_from(BAD[code]))), ok))
        else:
            ok = draw(st.booleans())
            if not ok and draw(st.booleans()):
                steps.append((n, ('value', draw(st.sampled_from(['x', 5, {'name': 'n'}, True, ['x'], {}]))), False))
                continue
            if code == 'Message':       # declared as a message of any class
                cls, ok = draw(st.sampled_from(sorted(TYPED))), True
            elif ok or depth > 1:
                cls = code
            else:
                cls = draw(st.sampled_from(sorted(set(TYPED) - {code, 'Evidence'})))
            steps.append((n, ('constructor', draw(built(cls, depth + 1))), code in (cls, 'Message')))
    return name, draw(st.sampled_from(['class', 'instance', 'path'])), steps


@st.composite
def constructor(draw):
    return draw(built(draw(st.sampled_from(sorted(TYPED)))))


def construct(c, rec):
    """-> (constructor, its expected rendering)"""
    from oidcmsg.oidc.identity_assurance import ClaimsConstructor
    name, how, steps = c
    cls = msgs.cls_of(IDA + name)
    cc = ClaimsConstructor(cls if how == 'class' else cls() if how == 'instance' else 'oidcmsg.oidc.identity_assurance.' + name)
    want = {}
    for n, (kind, v), ok in steps:
        if kind == 'constructor':
            val, shown = construct(v, rec)
        else:
            val, shown = copy.deepcopy(v), v
        o = outcome(cc.__setitem__, n, val)
        if ok:
            rec.check(o[0] == 'ok', '%s constructor refused %s=%r: %r', name, n, shown, o[1])
            want[n] = shown
        else:
            rec.check(o[0] == 'exc', '%s constructor accepted %s=%r', name, n, shown)
        rec.cls('%s %s' % ('accepted' if ok else 'refused', 'null' if v is None else kind))
        if v is not None and n != 'x_undeclared':
            rec.nontrivial()
    rec.check(msgs.same(cc.to_dict(), want), '%s constructor renders %r, expected %r', name, cc.to_dict(), want)
    rec.check(msgs.same(json.loads(cc.to_json()), want), '%s constructor renders %s', name, cc.to_json())
    rec.eq(list(cc.to_dict()), list(want), 'order of the members')
    return cc, want


TARGETS = [Target('requests', tree(), request, quick=4000, thorough=150000),
           Target('constructors', constructor(), construct, quick=1500, thorough=50000)]

"""Evidence objects with subsets of the members of the three kinds against a reference predicate; the recorded type."""
import copy
import json

from hypothesis import strategies as st

import gen
import msgs
import valid
from vf import Target, outcome

RULE = 'a case is non-trivial if the evidence has a member of one of the kinds; distinct by class, members and construction'
ASSUMPTIONS = ['nested objects are complete; what they require is not part of the evidence itself']
REQ = {'id_document': ['method', 'verifier'], 'utility_bill': ['provider'], 'qes': ['issuer', 'serial_number', 'created_at']}
ALL = {'id_document': ['method', 'verifier', 'time', 'document'], 'utility_bill': ['provider', 'date'],
       'qes': ['issuer', 'serial_number', 'created_at']}
KIND = {'IdDocument': 'id_document', 'UtilityBill': 'utility_bill', 'QES': 'qes'}
MEMBERS = sorted({m for v in ALL.values() for m in v})
OBJ = {'verifier': st.fixed_dictionaries({'organization': gen.text, 'txn': gen.text}),
       'provider': st.dictionaries(st.sampled_from(['name', 'street_address', 'country', 'formatted']), gen.text, min_size=1, max_size=3),
       'document': st.fixed_dictionaries({'type': gen.text, 'number': gen.text, 'issuer': st.fixed_dictionaries(
           {'name': gen.text, 'country': gen.text}), 'date_of_issuance': msgs.ts_text, 'date_of_expiry': msgs.ts_text})}
UNKNOWN = ['ID_DOCUMENT', 'id_documents', 'id_documen', 'iddocument', 'idDocument', 'QES', 'qes ', ' qes', 'utility-bill',
           'utility_bill_', 'Utility_bill', 'electronic_signature', 'document', 'IdDocument', 'q', 'qe', 'bill', 'evidence', 'None', '0',
           'id_document utility_bill', 'qes\n', 'vouch']


def good(name):
    return OBJ.get(name) or (msgs.ts_text if name in ('time', 'date', 'created_at') else gen.text)


@st.composite
def case(draw):
    where = draw(st.sampled_from(['Evidence', 'Evidence', 'Evidence', 'Evidence', 'element', 'IdDocument', 'UtilityBill', 'QES']))
    plan = draw(st.sampled_from(['complete', 'required', 'lacking', 'any', 'any', 'none']))
    kind = draw(st.sampled_from(sorted(ALL)))
    names = set()
    if plan == 'complete':
        names = set(ALL[kind])
    elif plan == 'required':
        names = set(REQ[kind])
    elif plan == 'lacking':
        names = set(ALL[kind]) - {draw(st.sampled_from(ALL[kind]))}
    if plan == 'any' or draw(st.integers(0, 2)) == 0:
        names |= set(draw(st.lists(st.sampled_from(MEMBERS), max_size=5)))
    p = {n: draw(good(n)) for n in sorted(names)}
    bad = []
    if p and draw(st.integers(0, 4)) == 0:
        n = draw(st.sampled_from(sorted(p)))
        if n in OBJ:
            v = draw(st.sampled_from(['', None, {}]))
        else:
            v = draw(st.sampled_from(['', None]))
        p[n] = v
        bad.append(n)
    t = draw(st.sampled_from(['absent', 'absent', kind, kind, 'other kind', 'unknown', 'empty']))
    if t == 'other kind':
        t = draw(st.sampled_from(sorted(set(ALL) - {kind})))
    elif t == 'unknown':
        t = draw(st.one_of(st.sampled_from([kind.upper(), kind.title(), kind.capitalize(), kind + ' ', ' ' + kind, kind[:-1], kind + 's',
                                            kind.replace('_', ''), kind.replace('_', '-'), kind + '\n', kind * 2, 'x' + kind]),
                           st.sampled_from(UNKNOWN), gen.text).filter(lambda s: s not in ALL))
    if t == 'empty':
        p['type'] = ''
    elif t != 'absent':
        p['type'] = t
    p.update(draw(valid.extras('oidc.identity_assurance:IdDocument', 1).filter(lambda d: not set(d) & set(MEMBERS))))
    p = {k: p[k] for k in draw(st.permutations(list(p)))}
    return where, p, bad, draw(st.sampled_from(['kwargs', 'dict', 'json']))


def construct(where, p, how):
    p = copy.deepcopy(p)
    if where == 'element':
        ve = msgs.cls_of('oidc.identity_assurance:VerificationElement')
        outer = {'trust_framework': 'f', 'evidence': [{'type': 'qes'}, p]}
        m = ve(**outer) if how == 'kwargs' else ve().from_json(json.dumps(outer)) if how == 'json' else ve().from_dict(outer)
        return m['evidence'][1]
    cls = msgs.cls_of('oidc.identity_assurance:' + where)
    return cls(**p) if how == 'kwargs' else cls().from_json(json.dumps(p)) if how == 'json' else cls().from_dict(p)


def check(c, rec):
    where, p, bad, how = c
    o = outcome(construct, where, p, how)
    if o[0] == 'exc':
        rec.check(bad, '%s cannot be built from %r: %r', where, p, o[1])
        rec.cls('refused at construction')
        return
    e = o[1]
    o = outcome(e.verify)
    rec.check(not isinstance(o[1], RecursionError), 'verification does not end')
    there = {n for n in p if n not in bad}
    t = p.get('type') or None
    dispatch = where in ('Evidence', 'element')
    if not dispatch:
        ok = [KIND[where]] if set(REQ[KIND[where]]) <= there else []
    elif t is not None:
        ok = [t] if t in REQ and set(REQ[t]) <= there else []
    else:
        held = set(e.keys())
        ok = [k for k in ALL if set(ALL[k]) <= there]
        maybe = [k for k in ALL if set(ALL[k]) <= held and set(REQ[k]) <= there]
        if bad and maybe != ok or (ok and bad and any(set(ALL[k]) <= held for k in ALL if k not in ok)):
            rec.cls('undecided')        # a member that is there but empty, and not required
            return
    if ok:
        rec.check(o == ('ok', True), '%s refused: %r', where, o[1])
        if t is None and dispatch:
            rec.check(e.get('type') in ok, 'recorded type %r of %r', e.get('type'), sorted(there))
            rec.cls('guessed ' + ok[0])
        else:
            rec.eq(e.get('type') or None, t, 'type')
            rec.cls('accepted ' + ok[0])
        got = {k: v for k, v in msgs.plain(e).items() if k != 'type'}
        want = {k: v for k, v in p.items() if k != 'type' and v not in ('', None, {}, [])}
        rec.check(all(k in got and msgs.same(got[k], v) for k, v in want.items() if k in MEMBERS), 'changed by verification: %r', got)
        rec.check(outcome(e.verify) == ('ok', True), 'refused the second time')
    else:
        rec.check(o[0] == 'exc' or not o[1], '%s accepted: %r', where, p)
        rec.check((e.get('type') or None) == t, 'refused evidence got type %r', e.get('type'))
        rec.cls('refused ' + ('without type' if t is None else 'as ' + t if t in ALL else 'unknown type'))
    if there & set(MEMBERS):
        rec.nontrivial()


def subsets(lo, rec):
    """All subsets of the members, with every type."""
    cls = msgs.cls_of('oidc.identity_assurance:Evidence')
    vals = {'verifier': {'organization': 'o', 'txn': 't'}, 'provider': {'name': 'n'}, 'document': {
        'type': 'p', 'number': '1', 'issuer': {'name': 'n', 'country': 'c'}, 'date_of_issuance': '2020-01-01T00:00:00+0000',
        'date_of_expiry': '2020-01-01T00:00:00+0000'}}
    for bits in range(lo, lo + 64):
        p = {n: vals.get(n, '2020-01-01T00:00:00+0000') for i, n in enumerate(MEMBERS) if bits >> i & 1}
        for t in [None, 'id_document', 'utility_bill', 'qes', 'other']:
            e = cls(**copy.deepcopy(dict(p, type=t) if t else p))
            o = outcome(e.verify)
            ok = [k for k in ALL if set(ALL[k]) <= set(p)] if t is None else [t] if t in REQ and set(REQ[t]) <= set(p) else []
            rec.check((o == ('ok', True)) == bool(ok) and not isinstance(o[1], RecursionError), 'type %r, %r: %r', t, sorted(p), o)
            if ok:
                rec.check(e['type'] in ok, 'type recorded as %r for %r', e['type'], sorted(p))
    rec.nontrivial()


TARGETS = [Target('evidence', case(), check, quick=4000, thorough=150000),
           Target('subsets', None, subsets, examples=range(0, 2 ** len(MEMBERS), 64))]

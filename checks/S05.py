"""Histories of set, get and re-creation over contexts of several issuers against one dictionary per issuer; keys given by
configuration; storage configuration lookup."""
import copy
import json
import os

from hypothesis import strategies as st

import gen
import msgs
import store
import tok
from checks import S02
from vf import Target, outcome

UNPRIVILEGED = True
RULE = 'a case is non-trivial if something is set and read through a context created later or through that of another issuer'
ASSUMPTIONS = ['the directory of a shared configuration contains {issuer}', 'issuers are URLs',
               'what reading an item never set gives is not decided', 'file modification times tell versions apart (see S02)']
ISSUERS = ['https://op.example.org', 'https://op.example.org/', 'https://op.example.org/a', 'https://op.example.org/a/b',
           'https://op.example.org:443', 'https://OP.example.org', 'http://op.example.org', 'https://op.example.org?x=y&z',
           'https://op.example.org/../b', 'https://op.example.org/å ö', 'https://op.example.org/{issuer}', 'https://op.example.org/%41',
           'https://op.example.org/A', 'urn:x', 'https://other.example.net', 'https://op.example.org/a%2Fb']
# pairs a careless directory name would take for one, or for one inside the other
ALIKE = [['https://op.example.org', 'https://op.example.org/'], ['https://op.example.org/a', 'https://op.example.org/A'],
         ['https://op.example.org', 'https://op.example.org/a'], ['https://op.example.org/a', 'https://op.example.org/a/'],
         ['https://op.example.org/a/../b', 'https://op.example.org/b'], ['https://op.example.org/a/b', 'https://op.example.org/a_b'],
         ['https://op.example.org', 'https://op.example.org:443'], ['https://op.example.org', 'http://op.example.org'],
         ['https://op.example.org?x=1', 'https://op.example.org?x=2'], ['https://op.example.org/a%2Fb', 'https://op.example.org/a/b'],
         ['https://op.example.org//a', 'https://op.example.org/a'], ['https://op.example.org/a', 'https://op2.example.org/a'],
         ['https://op.example.org/a b', 'https://op.example.org/a+b'], ['https://op.example.org/å', 'https://op.example.org/a']]
LABELLED = 'oidcmsg.storage.abfile.LabeledAbstractFileSystem'
PLAIN = store.HANDLER
KEYS = ['rsa1', 'rsa2', 'ec1', 'ec2', 'oct1', 'oct2', 'ec384a']
item = st.one_of(st.sampled_from(['seed2', 'provider_info', 'registration_response', 'base_url', 'client_preferences', 'a', 'A', 'a/b',
                                  'issuer', 'keyjar', 'default', '../x', 'Seed']), store.key).filter(lambda k: k != 'seed')
MESSAGES = [k for k in msgs.PROTO if k.split(':')[1] in ('AuthorizationRequest', 'ProviderConfigurationResponse', 'RegistrationRequest',
                                                         'RegistrationResponse', 'AccessTokenResponse', 'OpenIDSchema', 'Claims')]


@st.composite
def a_message(draw):
    key = draw(st.sampled_from(MESSAGES))
    p = draw(msgs.params_for(key))
    p = {k: v for k, v in p.items() if msgs.SPECS[key].params[k] not in ('K', 'E', 't')}
    return 'message', key, p


@st.composite
def history(draw):
    mode = draw(st.sampled_from(['memory', 'file', 'file', 'file', 'labelled', 'keyjar only']))
    keyjar = mode != 'memory'     # without a section of its own the default would be used, which is for JSON
    issuers = draw(st.one_of(st.sampled_from(ALIKE), st.lists(st.sampled_from(ISSUERS), min_size=1, max_size=3, unique=True)))
    items = draw(st.lists(item, min_size=1, max_size=3, unique=True)) + ['seed']
    value = st.one_of(store.json_value, a_message().map(lambda t: t))
    names = st.sampled_from(issuers)
    step = st.one_of(
        st.tuples(st.just('set'), names, st.sampled_from(items), value),
        st.tuples(st.just('set'), names, st.sampled_from(items), value),
        st.tuples(st.just('get'), names, st.sampled_from(items)),
        st.tuples(st.just('recreate'), names), st.tuples(st.just('second'), names))
    keys = {i: draw(st.lists(st.sampled_from(KEYS), max_size=3, unique=True)) for i in issuers}
    entity = draw(st.sampled_from(['issuer', 'issuer', '', 'https://me.example.com']))
    seed = draw(st.lists(gen.text, min_size=3, max_size=3))
    httpc = draw(st.sampled_from([None, None, {'timeout': 5}, {'verify': False, 'timeout': 1.5}]))
    more = {i: draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True)) for i in issuers}
    keys = keys, more, httpc
    return mode, keyjar, issuers, items, keys, entity, seed, draw(st.lists(step, min_size=3, max_size=12))


def config(d, mode, keyjar):
    conf = {}
    db = {}
    where = os.path.join(d, 'db', '{issuer}')
    if mode in ('file', 'labelled'):
        db['default'] = {'handler': LABELLED if mode == 'labelled' else PLAIN, 'fdir': where, 'key_conv': store.QP,
                         'value_conv': store.JSON}
        if mode == 'labelled':
            db['default']['label'] = 'ctx'
    if keyjar:
        db['keyjar'] = {'handler': LABELLED, 'fdir': os.path.join(d, 'keys', '{issuer}'), 'key_conv': store.QP,
                        'value_conv': 'cryptojwt.serialize.item.KeyIssuer', 'label': 'foo'}
    if db:
        conf['db_conf'] = db
    return conf


def material(keyjar, owner):
    # the same key may be there more than once
    res = set()
    if owner not in keyjar.owners():
        return res
    for k in keyjar.get_issuer_keys(owner):
        j = k.serialize(private=True)
        res.add(json.dumps({x: v for x, v in j.items() if x not in ('kid', 'use', 'alg')}, sort_keys=True))
    return res


def expected(names):
    return {json.dumps({x: v for x, v in tok.jwk(n).items() if x not in ('kid', 'use', 'alg')}, sort_keys=True) for n in names}


def same_as(rec, got, want, when):
    if isinstance(want, bytes):
        rec.eq(got, want, '%s', when)
    else:
        rec.check(msgs.same(msgs.plain(got), want) and not isinstance(got, bytes), '%s gives %r, expected %r', when, got, want)


def run(c, rec):
    from oidcmsg.context import OidcContext
    mode, keyjar, issuers, items, keys, entity, seed, h = c
    (keys, more, httpc) = keys
    keys = {i: list(k) for i, k in keys.items()}
    more = {i: list(k) for i, k in more.items()}
    file_based = mode in ('file', 'labelled')
    with store.scratch() as d:
        tick = S02.Ticker(d)
        shared = config(d, mode, keyjar)
        first, prior = set(), []

        def create(iss):
            conf = dict(shared, issuer=iss)
            if prior and seed[0] > seed[1]:
                # what an application passes on is the storage configuration of another context
                conf['db_conf'] = copy.deepcopy(prior[len(prior) // 2])
                rec.cls('storage configuration of another context')
            if iss in first and keyjar:
                # keys added to the configuration of an issuer that has a key jar
                if more[iss]:
                    conf['jwks'] = {'keys': [tok.jwk(n) for n in more[iss]]}
                    keys[iss] += [n for n in more[iss] if n not in keys[iss]]
                    more[iss] = []
                    rec.cls('keys added')
            elif keys[iss]:
                conf['jwks'] = {'keys': [tok.jwk(n) for n in keys[iss]]}
            if httpc:
                conf['httpc_params'] = dict(httpc)
            first.add(iss)
            before = copy.deepcopy(conf)
            eid = iss if entity == 'issuer' else entity
            ctx = OidcContext(conf, entity_id=eid)
            rec.check(conf == before, 'the configuration was changed')
            if ctx.db_conf:
                prior.append(ctx.db_conf)
            rec.check(material(ctx.keyjar, '') == expected(keys[iss]), 'keys of %s under the empty owner', iss)
            if keys[iss] and eid:
                rec.check(material(ctx.keyjar, eid) == expected(keys[iss]), 'keys of %s under the entity id %r', iss, eid)
            if httpc:
                rec.eq(ctx.keyjar.httpc_params, httpc, 'HTTP client parameters of the key jar of %s', iss)
            owners = set(ctx.keyjar.owners())
            rec.eq(owners, ({'', eid} if eid else {''}) if keys[iss] else set(), 'owners in the key jar of %s', iss)
            return ctx
        now = {i: create(i) for i in issuers}
        model = {i: {} for i in issuers}
        crossed, wrote = False, False
        for n, op in enumerate(h):
            iss = op[1]
            when = 'step %d: %s under %s' % (n + 1, op[0], iss)
            if op[0] == 'set':
                it, v = op[2], op[3]
                if it == 'seed':
                    v = seed[n % 3]
                    want = v.encode('utf-8')
                elif isinstance(v, tuple):
                    m = msgs.build(v[1], copy.deepcopy(v[2]))
                    want, v = m.to_dict(), m
                else:
                    want, v = v, copy.deepcopy(v)
                if file_based and wrote:
                    tick.wait()
                now[iss].set(it, v)
                if isinstance(v, msgs.cls_of('message:Message')):
                    v['changed_later'] = 'x'
                    rec.cls('message')
                if file_based:
                    tick.wrote()
                wrote = True
                model[iss][it] = want
            elif op[0] == 'get':
                if op[2] in model[iss]:
                    same_as(rec, now[iss].get(op[2]), model[iss][op[2]], when + ' ' + repr(op[2]))
            elif op[0] == 'recreate':
                now[iss] = create(iss)
                if not file_based:
                    model[iss] = {}
                elif model[iss]:
                    crossed = True
            elif op[0] == 'second' and file_based:
                other = create(iss)
                for it, want in model[iss].items():
                    same_as(rec, other.get(it), want, when + ' ' + repr(it))
            rec.cls(op[0])
        for iss in issuers:
            for ctx, name in ((now[iss], 'at the end'),) + (((create(iss), 'created anew'),) if file_based else ()):
                for it in items:
                    if it in model[iss]:
                        same_as(rec, ctx.get(it), model[iss][it], '%s, %r under %s' % (name, it, iss))
                    else:
                        o = outcome(ctx.get, it)
                        rec.check(o[0] == 'exc' or o[1] is None, '%s, %r under %s was never set but reads %r', name, it, iss, o[1])
        if wrote and (crossed or len([i for i in issuers if model[i]]) > 0 and len(issuers) > 1):
            rec.nontrivial()
    rec.cls('%s, %d issuers' % (mode, len(issuers)))


# --- configuration lookup
SECTIONS = ['state', 'keyjar', 'token', 'default', 'client']


@st.composite
def lookup(draw):
    there = draw(st.lists(st.sampled_from(SECTIONS), max_size=4, unique=True))
    asked = draw(st.lists(st.sampled_from(SECTIONS), min_size=1, max_size=3, unique=True))
    kinds = {s: draw(st.sampled_from([PLAIN, LABELLED])) for s in there}
    missing = draw(st.sampled_from(there)) if there and draw(st.integers(0, 4)) == 0 else None
    return there, asked, kinds, missing, draw(store.json_value), draw(st.sampled_from(['init', 'boxes']))


def sections(c, rec):
    from oidcmsg.context import OidcContext
    from oidcmsg.storage.extension import LabeledDict
    from oidcmsg.storage.init import init_storage
    there, asked, kinds, missing, value, how = c
    with store.scratch() as d:
        conf = {s: {'handler': kinds[s], 'fdir': os.path.join(d, s), 'value_conv': store.JSON} for s in there}
        for s in there:
            if kinds[s] == LABELLED:
                conf[s]['label'] = 'l'
        if missing:
            del conf[missing]['handler']
        before = copy.deepcopy(conf)
        ctx = OidcContext()
        for n, s in enumerate(asked):
            used = s if s in conf else 'default' if 'default' in conf else None
            if how == 'init':
                o = outcome(init_storage, conf, s)
            else:
                o = outcome(ctx.add_boxes, {s: 'box_' + s}, conf)
                o = ('ok', getattr(ctx, 'box_' + s)) if o[0] == 'ok' else o
            rec.check(conf == before, 'the configuration was changed')
            if used is None:
                if there and s == 'default':
                    continue        # a configuration without a default
                rec.check(o[0] == 'ok' and isinstance(o[1], LabeledDict), 'storage for %r without configuration: %r', s, o[1])
            elif used == missing:
                rec.check(o[0] == 'exc', 'a section without handler gives %r', o[1])
                continue
            else:
                rec.check(o[0] == 'ok' and type(o[1]).__name__ == kinds[used].split('.')[-1], 'storage for %r: %r', s, o[1])
            if o[0] != 'ok':
                continue
            k = 'key%d' % n
            o[1][k] = copy.deepcopy(value)
            rec.check(msgs.same(o[1][k], value), 'storage for %r reads %r', s, o[1][k])
            if used:
                files = [f for f in os.listdir(os.path.join(d, used)) if not f.endswith('.lock')]
                want = ('__l__' if kinds[used] == LABELLED else '') + k
                rec.check(want in files, 'an entry for %r of section %r is not in its directory: %r', s, used, files)
                again = init_storage(conf, s)
                rec.check(msgs.same(again[k], value), 'storage for %r made anew reads %r', s, again[k])
                rec.nontrivial()
            rec.cls('own section' if used == s else 'default' if used else 'memory')
        rec.eq(sorted(os.listdir(d)), sorted({s if s in conf else 'default' for s in asked if (s in conf or 'default' in conf) and
                                              (s if s in conf else 'default') != missing}), 'directories made')


KEYDEFS = [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}, {'type': 'EC', 'crv': 'P-384', 'use': ['sig']},
           {'type': 'EC', 'crv': 'P-256', 'use': ['enc']}, {'type': 'EC', 'crv': 'P-256', 'use': ['sig', 'enc']},
           {'type': 'OCT', 'use': ['sig'], 'bytes': 32}]


@st.composite
def keydefs(draw):
    return draw(st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)), draw(st.sampled_from(['', 'me', 'https://op'])), \
        draw(st.sampled_from(['none', 'uri_path', 'paths', 'given', 'jwks too'])), draw(st.booleans())


def generated(c, rec):
    from cryptojwt.key_jar import KeyJar
    from oidcmsg.context import OidcContext
    idx, eid, how, params = c
    with store.scratch() as d:
        defs = [KEYDEFS[i] for i in idx]
        conf = {'keys': {'key_defs': copy.deepcopy(defs)}}
        if how == 'uri_path':
            conf['keys']['uri_path'] = 'static/jwks.json'
        if how == 'paths':
            conf['keys'].update(private_path=os.path.join(d, 'p', 'jwks.json'), public_path=os.path.join(d, 'pub.json'), read_only=False)
        if how == 'jwks too':
            conf['jwks'] = {'keys': [tok.jwk('rsa1')]}
        if params:
            conf['httpc_params'] = {'timeout': 5}
        before = copy.deepcopy(conf)
        if how == 'given':
            kj = KeyJar()
            ctx = OidcContext(conf, keyjar=kj, entity_id=eid)
            rec.check(ctx.keyjar is kj and kj.owners() == [], 'the given key jar')
            rec.check(conf == before, 'the configuration was changed')
            return
        ctx = OidcContext(conf, entity_id=eid)
        rec.check(conf == before, 'the configuration was changed')
        want = sorted((x['type'].lower(), u) for x in defs for u in x['use'])
        for owner in {'', eid}:
            keys = ctx.keyjar.get_issuer_keys(owner)
            rec.eq(sorted((k.kty.lower(), k.use) for k in keys), want, 'keys of owner %r', owner)
            rec.check(all(k.kty.lower() == 'oct' or k.priv_key for k in keys), 'a private key is missing under %r', owner)
        rec.check(material(ctx.keyjar, '') == material(ctx.keyjar, eid), 'the keys differ')
        rec.eq(set(ctx.keyjar.owners()), {'', eid}, 'owners')
        if params:
            rec.eq(ctx.keyjar.httpc_params, {'timeout': 5}, 'HTTP client parameters')
        if how == 'paths' and 4 not in idx:     # key files and symmetric keys: cryptojwt's business
            again = OidcContext(conf, entity_id=eid)
            rec.check(material(again.keyjar, eid) == material(ctx.keyjar, ''), 'keys read from the private path')
    rec.cls(how)
    rec.nontrivial()


TARGETS = [Target('contexts', history(), run, quick=600, thorough=30000),
           Target('sections', lookup(), sections, quick=600, thorough=20000),
           Target('key definitions', keydefs(), generated, quick=100, thorough=3000)]

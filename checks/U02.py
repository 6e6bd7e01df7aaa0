"""Names of classes in modules made for the case, in both notations, against the objects put there; malformed names and names of
nothing must be refused; configurations that name converters and handlers must use exactly the named ones."""
import importlib
import os
import sys
import types

from hypothesis import strategies as st

import gen
import msgs
import store
from vf import Target, outcome

UNPRIVILEGED = True
RULE = ('a case is non-trivial if the module name has a dot, or another module made for the case has the same attribute, or the name '
        'denotes nothing')
ASSUMPTIONS = ['what is named is defined at the top level of its module', 'any exception is a refusal']
ROOT = 'vfmod'
part = st.one_of(st.sampled_from(['a', 'b', 'A', 'aa', 'storage', 'message', 'Message', 'x1', '_p', 'å', 'name', 'class_']), gen.ident).filter(
    lambda s: s.isidentifier() and not s.startswith('__'))
module = st.lists(part, max_size=3).map(lambda ps: '.'.join([ROOT] + ps))
KINDS = ['class', 'class', 'function', 'object']


@st.composite
def world(draw):
    mods = draw(st.lists(module, min_size=1, max_size=4, unique=True))
    mods += [m.rsplit('.', 1)[0] for m in mods if '.' in m and draw(st.booleans())]
    attrs = draw(st.lists(part, min_size=1, max_size=3, unique=True))
    there = {}
    for m in gen.uniq(mods):
        there[m] = {a: draw(st.sampled_from(KINDS)) for a in draw(st.lists(st.sampled_from(attrs), min_size=1, unique=True))}
    return there


class Thing:
    def __init__(self, n):
        self.n = n


class Modules:
    """The modules of a case, importable while the case runs."""

    def __init__(self, there):
        self.there = there
        self.obj = {}

    def __enter__(self):
        for m, attrs in self.there.items():
            mod = types.ModuleType(m)
            for n, (a, kind) in enumerate(attrs.items()):
                if kind == 'class':
                    o = type(a, (object,), {'__module__': m})
                elif kind == 'function':
                    def o():
                        return None
                    o.__name__ = o.__qualname__ = a
                    o.__module__ = m
                else:
                    o = Thing(n)
                setattr(mod, a, o)
                self.obj[m, a] = o
            sys.modules[m] = mod
        return self

    def __exit__(self, *exc):
        for m in self.there:
            sys.modules.pop(m, None)


def resolves(c, rec):
    from oidcmsg.storage.utils import importer, qualified_name
    there = c
    with Modules(there) as w:
        for (m, a), o in w.obj.items():
            for name in (m + '.' + a, m + ':' + a):
                got = outcome(importer, name)
                rec.check(got[0] == 'ok' and got[1] is o, '%r gives %r, expected %r', name, got[1], o)
            if there[m][a] != 'object':
                n = qualified_name(o)
                rec.check(importer(n) is o, '%r names %r but imports something else', n, o)
            if '.' in m or len([1 for x, y in w.obj if y == a]) > 1:
                rec.nontrivial()
            rec.cls(there[m][a])


@st.composite
def wrong(draw):
    there = draw(world())
    m = draw(st.sampled_from(sorted(there)))
    a = draw(st.sampled_from(sorted(there[m])))
    how = draw(st.sampled_from(['no attr', 'no module', 'two colons', 'only attr', 'only module', 'no name', 'no module name', 'dots', 'relative',
                                'tail', 'colon tail', 'mixed', 'space', 'case']))
    name = {'no attr': m + draw(st.sampled_from('.:')) + draw(part) + 'Q', 'no module': m + 'Q' + draw(st.sampled_from('.:')) + a,
            'two colons': m + ':' + a + ':' + a, 'only attr': a + 'Q', 'only module': ROOT + 'Q', 'no name': draw(st.sampled_from(['', '.', ':', '..', '::'])),
            'no module name': draw(st.sampled_from('.:')) + a, 'dots': m + '..' + a, 'relative': '.' + m + '.' + a,
            'tail': m + '.' + a + '.', 'colon tail': m + ':' + a + ':', 'mixed': m + ':' + a + '.' + a, 'space': m + draw(st.sampled_from(['. ', ' .', ': '])) + a,
            'case': m + '.' + (a.swapcase() if a.swapcase() != a else a + 'Q')}[how]
    return there, name, how


def refuses(c, rec):
    from oidcmsg.storage.utils import importer
    there, name, how = c
    with Modules(there) as w:
        if any(name in (m + '.' + a, m + ':' + a) for m, a in w.obj):
            return
        o = outcome(importer, name)
        rec.check(o[0] == 'exc', '%r names nothing but gives %r', name, o[1])
    rec.cls(how)
    rec.nontrivial()


LIBRARY = ['oidcmsg.message', 'oidcmsg.oauth2', 'oidcmsg.oauth2.device_authorization', 'oidcmsg.oidc', 'oidcmsg.oidc.session',
           'oidcmsg.oidc.identity_assurance', 'oidcmsg.storage.abfile', 'oidcmsg.storage.converter', 'oidcmsg.storage.extension',
           'oidcmsg.context', 'oidcmsg.exception']


def library(c, rec):
    """Every class of the library by its own name."""
    from oidcmsg.storage.utils import importer, qualified_name
    mod = importlib.import_module(c)
    n = 0
    for name, o in sorted(vars(mod).items()):
        if isinstance(o, type):
            rec.check(importer(c + '.' + name) is o and importer(c + ':' + name) is o, '%s in %s', name, c)
            if getattr(sys.modules.get(o.__module__), o.__name__, None) is o:
                rec.check(importer(qualified_name(o)) is o, '%s by its qualified name %s', name, qualified_name(o))
                rec.eq(qualified_name(o), o.__module__ + '.' + o.__name__, 'qualified name')
                n += 1
    rec.check(n > 0, 'no class in %s', c)
    rec.nontrivial()


@st.composite
def configured(draw):
    there = draw(st.lists(module, min_size=2, max_size=3, unique=True))
    return there, draw(part), draw(st.integers(0, len(there) - 1)), draw(st.integers(0, len(there) - 1)), draw(st.sampled_from('.:')), \
        draw(st.sampled_from('.:')), draw(store.key.filter(lambda k: not k.startswith('.') and len(k) < 50)), draw(gen.text)


def used(c, rec):
    """The converters and the handler a configuration names are the ones that are used."""
    from oidcmsg.storage.init import init_storage
    mods, name, ki, vi, sep1, sep2, key, value = c
    calls = []

    def make(tag):
        class Conv:
            def serialize(self, v):
                calls.append(tag)
                return tag + v.encode('utf-8', 'surrogatepass').hex()

            def deserialize(self, v):
                calls.append(tag)
                return bytes.fromhex(v[len(tag):]).decode('utf-8', 'surrogatepass')
        return Conv

    try:
        for n, m in enumerate(mods):
            sys.modules[m] = types.ModuleType(m)
            setattr(sys.modules[m], name, make('conv%d-' % n))
        with store.scratch() as d:
            s = init_storage({'default': {'handler': 'oidcmsg.storage.abfile' + sep2 + 'AbstractFileSystem', 'fdir': os.path.join(d, 'x'),
                                          'key_conv': mods[ki] + sep1 + name, 'value_conv': mods[vi] + sep2 + name}}, 'other')
            rec.eq(type(s).__name__, 'AbstractFileSystem', 'handler')
            s[key] = value
            files = [f for f in os.listdir(os.path.join(d, 'x')) if not f.endswith('.lock')]
            rec.eq(files, ['conv%d-' % ki + key.encode('utf-8', 'surrogatepass').hex()], 'files written')
            with open(os.path.join(d, 'x', files[0])) as fp:
                rec.eq(fp.read(), 'conv%d-' % vi + value.encode('utf-8', 'surrogatepass').hex(), 'content written')
            rec.check(msgs.same(s[key], value) and list(s.keys()) == [key], 'read back: %r under %r', s[key], list(s.keys()))
            rec.eq(set(calls), {'conv%d-' % ki, 'conv%d-' % vi}, 'converters used')
    finally:
        for m in mods:
            sys.modules.pop(m, None)
    if ki != vi:
        rec.nontrivial()


TARGETS = [Target('names', world(), resolves, quick=1500, thorough=60000),
           Target('names of nothing', wrong(), refuses, quick=1500, thorough=60000),
           Target('library', None, library, examples=LIBRARY, once=True),
           Target('configured', configured(), used, quick=500, thorough=15000)]

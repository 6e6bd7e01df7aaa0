"""Path strings against a model of the normal form; configuration trees with listed and unlisted entries against a model that
builds the expected tree alongside."""
import copy

from hypothesis import strategies as st

import gen
from vf import Target

RULE = 'a case is non-trivial if the path has a separator or a leading dot; if a listed relative path is below a section'
ASSUMPTIONS = ['what an empty listed path becomes is not decided', 'no entry is listed twice',
               'listed entries that are there are text, sections are dictionaries']
piece = st.one_of(st.sampled_from(['', '.', '..', '...', 'a', 'b.c', '.hidden', '..x', 'a b', 'å', ' ', '~', '\\', 'x.', '*', 'C:', '\n', '%2F']),
                  gen.simple, gen.text0)
path = st.one_of(st.tuples(st.sampled_from(['', '.', '..', './', '/', '../', '...', '//', '/.', './/', '.../', './.', '/..', '../../']),
                           st.lists(piece, max_size=4).map('/'.join)).map(''.join), st.text('./ab', max_size=8), gen.text0)


def normal(p):
    if p[:2] != './' and p[:1] == '.':
        p = p.lstrip('.')
    head = '' if p[:2] == './' else '.' if p[:1] == '/' else './'
    return head + p + ('' if (head + p)[-1:] == '/' else '/')


def proper(p, rec):
    from oidcmsg import proper_path
    got = proper_path(p)
    rec.check(isinstance(got, str) and got[:2] == './' and got[-1] == '/', 'path %r becomes %r', p, got)
    rec.eq(proper_path(got), got, 'path %r normalized twice', p)
    rec.eq(got, normal(p), 'path %r', p)
    names = [x for x in p.split('/') if x]
    if names and all(x[0] != '.' for x in names):
        rec.eq([x for x in got.split('/') if x], ['.'] + names, 'names in %r', p)
    if '/' in p or p[:1] == '.':
        rec.nontrivial()
    rec.cls('starts with %r' % p[:1] if p[:1] in './' else 'name')


# --- base path
name = st.one_of(st.sampled_from(['keys', 'private_path', 'public_path', 'fdir', 'db_conf', 'template_dir', 'a', 'b', 'c', 'logging', 'server',
                                  'filename', '0', 'a.b', 'a/b']), gen.ident)
rel = st.one_of(st.sampled_from(['a', './a', '../a', 'a/b/', '.', '..', 'a//b', ' /a', '~/a', 'http://a/b', '\\a', 'C:/x', './', 'a b']),
                path.filter(lambda p: p and p[0] != '/'))
absolute = path.map(lambda p: '/' + p)
other = st.one_of(rel, absolute, st.integers(), st.none(), st.booleans(), st.lists(rel, max_size=2), st.just({}))


@st.composite
def tree(draw, depth=0):
    """(configuration, what is listed, number of listed relative paths)"""
    conf, listed = {}, {}
    names = draw(st.lists(name, min_size=1 if depth else 2, max_size=5, unique=True))
    here = []
    for n in names:
        kind = draw(st.sampled_from((['section'] * 4 if depth < 3 else []) + ['rel', 'rel', 'rel', 'abs', 'abs', 'unlisted', 'gone', 'empty']))
        if kind == 'section':
            conf[n], listed[n] = draw(tree(depth + 1))
            how = draw(st.integers(0, 7))
            if how == 7:
                del listed[n]       # a whole section that is not listed
            elif how == 6:
                del conf[n]         # or one that is not there
            continue
        if kind != 'gone':
            conf[n] = draw({'rel': rel, 'abs': absolute, 'unlisted': other, 'empty': st.just('')}[kind])
        if kind != 'unlisted':
            if draw(st.booleans()):
                here.append(n)
            else:
                listed[n] = None
    # a level is a dictionary; a list stands for the entries of a section
    if here:
        if not listed and depth and draw(st.booleans()):
            return conf, here
        listed[''] = here
    elif draw(st.integers(0, 9)) == 0:
        listed[''] = []
    if draw(st.integers(0, 5)) == 0 and '' not in listed and listed:
        listed = {'': listed}
    items = list(listed.items())
    return conf, dict(draw(st.permutations(items)))


def apply(conf, listed, base, count, depth=0):
    """The expected tree."""
    def put(n):
        v = conf.get(n)
        if isinstance(v, str) and v and v[0] != '/':
            conf[n] = (base if base == '' or base[-1] == '/' else base + '/') + v
            count.append(depth)
        elif v == '':
            count.append('empty')
    if isinstance(listed, list):
        for n in listed:
            put(n)
        return
    for n, sub in listed.items():
        if n == '':
            apply(conf, sub, base, count, depth)
        elif sub is None:
            put(n)
        elif n in conf:
            apply(conf[n], sub, base, count, depth + 1)


def same(got, want, base):
    if isinstance(want, dict):
        return isinstance(got, dict) and list(got) == list(want) and all(same(got[k], want[k], base) for k in want)
    if want == '' and isinstance(want, str):
        return got in ('', './', base, base + '/')
    return type(got) is type(want) and got == want


bases = st.one_of(st.sampled_from(['/', '/opt/app', '/opt/app/', 'rel', './', '', 'a b/', '/å', '../x']), path)


def based(c, rec):
    from oidcmsg import add_base_path
    (conf, listed), base = c
    if isinstance(listed, list):
        listed = {'': listed}
    want, arg, paths = copy.deepcopy(conf), copy.deepcopy(conf), copy.deepcopy(listed)
    count = []
    apply(want, listed, base, count)
    add_base_path(arg, paths, base)
    rec.check(same(arg, want, base), '%r with %r listed and base %r becomes %r, expected %r', conf, listed, base, arg, want)
    rec.check(paths == listed, 'the list of paths was changed')
    depths = [x for x in count if x != 'empty']
    rec.cls('deepest %s' % (max(depths) if depths else 'none'))
    if depths and max(depths) > 0:
        rec.nontrivial()


TARGETS = [Target('proper path', path, proper, quick=6000, thorough=200000),
           Target('base path', st.tuples(tree(), bases), based, quick=4000, thorough=100000)]

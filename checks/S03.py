"""Hostile keys: everything outside the store directory is compared before and after, all file accesses are recorded by an audit
hook, keys keep their own values, refused keys change nothing."""
import os
import sys

from hypothesis import strategies as st

import gen
import store
from checks import S01
from vf import Target, outcome

UNPRIVILEGED = True
RULE = 'a case is non-trivial if one of the keys has a path separator, a dot, a percent sign or another character that needs escaping'
ASSUMPTIONS = ['{d} in a key stands for the path of the scratch directory', 'the check runs as an unprivileged user where it can']
PATHS = ['../outside', '{d}/outside', '/../outside', '../db2/k', '../db/a', 'sub/inner', 'sub', 'sub/../a', './a', 'a/../../outside',
         '../../outside', '..%2Foutside', '..%2foutside', '%2e%2e/outside', '%2e%2e%2foutside', '..\\outside', '{d}', '{d}/db', '{d}/db/a',
         '{d}/new', '../new', '..', '.', '', '/', '//', '/etc/hostname', '/dev/null', '/dev/full', '/proc/self/environ', 'link', 'link/x',
         'filelink', '..\x00/outside', '../outside\x00', 'x' * 300, 'å' * 100, '/' * 90, '\ud800', 'a\ud800', '....//outside',
         '../outside.lock', 'a.lock', 'a', '.lock', '..lock', '\u2024\u2024/outside', '\uff0e\uff0e/outside', '..\u2215outside',
         'CON', 'a:b', '~/x', '$HOME', '-', 'a\nb', 'a%2Fb', 'a/b', 'a%252Fb', 'a b', 'a+b', 'a%20b', 'A']
segment = st.sampled_from(['..', '.', '', 'a', 'sub', 'outside', 'db', 'db2', 'k', '%2e%2e', '...', 'link', 'x y', 'inner', 'new'])
path = st.lists(segment, min_size=1, max_size=4).flatmap(lambda s: st.sampled_from(['/', '/', '%2F', '%2f', '\\', '//', '%252F']).map(
    lambda sep: sep.join(s)))
hostile = st.one_of(st.sampled_from(PATHS), path, store.key)


@st.composite
def case(draw):
    ks = []
    for _ in range(draw(st.integers(1, 5))):
        if ks and draw(st.integers(0, 2)) == 0:
            k = draw(st.sampled_from(ks))
            ks.append(draw(st.sampled_from([k + '.lock', k.replace('/', '%2F'), k.replace('%', '%25'), './' + k, k + '/', k + '\x00', k.upper(),
                                            k.replace(' ', '+'), k.replace('.', '%2E'), '/' + k, k + '/.', k[1:], k.strip()])))
        else:
            ks.append(draw(hostile))
    # what storing under the name of the link that is there already does is nobody's business
    ks = gen.uniq([k if k != 'link' else 'link/' for k in ks])
    h = draw(st.lists(st.tuples(st.sampled_from(['set', 'set', 'set', 'read', 'get', 'in', 'del', 'list', 'reopen', 'update', 'clear']),
                                st.integers(0, len(ks) - 1)), min_size=2, max_size=14))
    return ks, h, draw(st.sampled_from([store.JSON, store.PASS])), draw(st.sampled_from(['plain', 'plain', 'labelled']))


_watch = {'on': False, 'seen': []}


def _audit(event, args):
    if not _watch['on']:
        return
    if event in ('open', 'os.remove', 'os.mkdir', 'os.rename', 'os.rmdir', 'os.truncate', 'os.listdir', 'os.scandir', 'os.link',
                 'os.symlink', 'os.chmod', 'shutil.rmtree'):
        _watch['seen'].append((event,) + tuple(args))


_hooked = []


def snapshot(d, skip):
    res = {}
    for root, dirs, files in os.walk(d):
        if root == d:
            dirs[:] = [x for x in dirs if x != skip]
        for x in dirs:
            res[os.path.join(root, x)] = 'dir'
        for x in files:
            p = os.path.join(root, x)
            if os.path.islink(p):
                res[p] = os.readlink(p)
            else:
                with open(p, 'rb') as fp:
                    res[p] = (fp.read(), os.stat(p).st_mtime_ns)
    return res


def check(c, rec):
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked.append(1)
    ks, h, conv, kind = c
    with store.scratch() as d:
        os.mkdir(os.path.join(d, 'db'))
        os.mkdir(os.path.join(d, 'db2'))
        os.mkdir(os.path.join(d, 'db', 'sub'))
        for p in ('outside', 'db2/k', 'db2/a', 'db/sub/inner', 'a', 'outside.lock'):
            with open(os.path.join(d, p), 'w') as fp:
                fp.write('"SECRET"')
        os.symlink(os.path.join(d, 'db2'), os.path.join(d, 'db', 'link'))
        outer = snapshot(d, 'db')
        before_sub = snapshot(os.path.join(d, 'db', 'sub'), '')
        inside = os.path.join(d, 'db')
        ks = [k.replace('{d}', d) for k in ks]

        def open_store():
            if kind == 'labelled':
                from oidcmsg.storage.abfile import LabeledAbstractFileSystem
                return LabeledAbstractFileSystem({'fdir': inside, 'value_conv': conv}, label='l')
            return S01.open_store(d, conv, False, 'db')[0]
        _watch['seen'] = []
        _watch['on'] = True
        try:
            s = open_store()
            model = {}
            for i, (op, n) in enumerate(h):
                k, v = ks[n], 'value %d of %d' % (i, n)
                when = 'step %d: %s %r' % (i + 1, op, k)
                if op in ('set', 'update'):
                    o = outcome(s.__setitem__, k, v) if op == 'set' else outcome(s.update, {k: v})
                    rec.cls('stored' if o[0] == 'ok' else 'refused')
                    if o[0] == 'ok':
                        model[k] = v
                elif op in ('read', 'get'):
                    o = outcome(s.__getitem__, k) if op == 'read' else outcome(s.get, k, 'missing')
                    if k in model:
                        rec.check(o == ('ok', model[k]), '%s gives %r, stored was %r', when, o[1], model[k])
                    else:
                        rec.check(o[0] == 'exc' or o[1] in (None, 'missing'), '%s gives %r although never stored', when, o[1])
                elif op == 'in':
                    o = outcome(s.__contains__, k)
                    rec.check(o[0] == 'exc' and k not in model or o == ('ok', k in model), '%s gives %r', when, o[1])
                elif op == 'del':
                    o = outcome(s.__delitem__, k)
                    rec.check(o[0] == 'ok' or k not in model, '%s: %r', when, o[1])
                    model.pop(k, None)
                elif op == 'reopen':
                    s = open_store()
                elif op == 'clear':
                    if kind != 'labelled':
                        s.clear()
                        model.clear()
                else:
                    rec.eq(sorted(s.keys()), sorted(model), '%s: keys', when)
            for s in (s, open_store()):
                rec.eq(sorted(s.keys()), sorted(model), 'keys at the end')
                rec.eq(sorted(s.items()), sorted(model.items()), 'items at the end')
                rec.eq(len(s), len(model), 'length at the end')
                for k in model:
                    rec.eq(s[k], model[k], 'value of %r', k)
        finally:
            _watch['on'] = False
        for event, *args in _watch['seen']:
            p = args[0]
            if not isinstance(p, (str, bytes)):
                continue
            p = os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(p)))
            writing = event != 'open' and event not in ('os.listdir', 'os.scandir')
            if event == 'open':
                mode, flags = args[1], args[2]
                writing = bool(mode and set(str(mode)) & set('wax+')) or bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            within = p == inside or os.path.dirname(p) == inside
            rec.check(within or not (writing or p.startswith(d)), '%s of %r, outside the store', event, p)
        rec.check(snapshot(d, 'db') == outer, 'something outside the store directory was changed')
        rec.check(snapshot(os.path.join(inside, 'sub'), '') == before_sub, 'a directory below the store was changed')
        names = [f for f in os.listdir(inside) if f not in ('sub', 'link') and not f.endswith('.lock')]
        rec.eq(len(names), len(model), 'number of files in the store')
        rec.check(os.path.islink(os.path.join(inside, 'link')), 'the link is gone')
        rec.check(all(os.path.isfile(os.path.join(inside, f)) for f in names), 'directories were created')
    if any(ch in k for k in ks for ch in './%\\ +~\x00'):
        rec.nontrivial(c)


TARGETS = [Target('keys', case(), check, quick=3500, thorough=100000)]

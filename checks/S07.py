"""Storing processes that are killed at any bytecode of the storage code, or run out of space at any byte; whoever comes after
must find, for every key, what was there before or what was being put there, and a store that works."""
import copy
import json
import os
import resource
import signal
import sqlite3
import sys

from hypothesis import strategies as st

import msgs
import store
import vf
from checks import S01
from vf import Target, outcome

UNPRIVILEGED = True
RULE = 'a case is non-trivial if the operation was interrupted at least once before it was done'
ASSUMPTIONS = ['what the operating system was given is kept (no power failure)', 'SQLite for the SQL store',
               'values of the text converter have no surrounding white space (known finding of S01)']
BIG = ['x' * 9000, 'y' * 70000, 'z' * 300000]


@st.composite
def state(draw):
    kind = draw(st.sampled_from(['json', 'text', 'text', 'sql']))
    if kind == 'sql':
        ks = draw(st.lists(st.sampled_from(['a', 'A', 'b', 'a b', 'å', '%', "'"]), min_size=1, max_size=3, unique=True))
        value = st.one_of(st.sampled_from(['', 'v', 'w', 'å', '0'] + BIG), store.passthru)
    else:
        ks = draw(store.keys(3))
        value = st.one_of(store.json_value if kind == 'json' else store.passthru, st.sampled_from(BIG))
    before = draw(st.dictionaries(st.sampled_from(ks), value, max_size=len(ks)))
    if draw(st.integers(0, 3)):
        before.setdefault(ks[0], draw(value))
    k = st.sampled_from(ks)
    ops = [st.tuples(st.just('set'), st.just(ks[0]), value)] * 3 + [st.tuples(st.just('set'), k, value), st.tuples(st.just('del'), k)]
    if kind == 'sql':
        ops += [st.tuples(st.just('update one'), k, value), st.tuples(st.just('item'), k, value)]
    else:
        ops += [st.tuples(st.just('update'), st.dictionaries(k, value, min_size=1, max_size=3)), st.tuples(st.just('clear')),
                st.tuples(st.just('items')), st.tuples(st.just('bad'), k, store.bad_value(store.JSON if kind == 'json' else store.PASS))]
    return kind, ks, before, draw(st.one_of(ops))


class Files:
    def __init__(self, d, kind):
        self.d, self.conv = d, store.JSON if kind == 'json' else store.PASS

    def create(self, before):
        s = self.open()
        for k, v in before.items():
            s[k] = copy.deepcopy(v)
        where = os.path.join(self.d, 'db')
        for i, f in enumerate(sorted(os.listdir(where))):   # so that a later write has a later time
            os.utime(os.path.join(where, f), ns=((1600000000 + i) * 10 ** 9,) * 2)

    def open(self):
        return S01.open_store(self.d, self.conv, True, 'db')[0]

    def do(self, s, op):
        if op[0] == 'set':
            s[op[1]] = copy.deepcopy(op[2])
        elif op[0] == 'bad':
            s[op[1]] = store.literal(op[2])
        elif op[0] == 'update':
            s.update(copy.deepcopy(op[1]))
        elif op[0] == 'del':
            del s[op[1]]
        elif op[0] == 'clear':
            s.clear()
        else:
            list(s.items())

    def content(self, s):
        r = dict(s.items())
        return r, {k: s[k] for k in r}, sorted(s.keys()), len(s)


class Table:
    timeout = 5

    def __init__(self, d, kind):
        self.d = d

    @property
    def conf(self):
        return {'url': 'sqlite:///%s?timeout=%s' % (os.path.join(self.d, 'db.sqlite'), self.timeout), 'params': {'table': 'thing'}}

    def create(self, before):
        from oidcmsg.storage.db_setup import create_database
        create_database(self.conf)
        s = self.open()
        for k, v in before.items():
            s.set(k, v)
        self.close(s)

    def open(self):
        from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
        return AbstractStorageSQLAlchemy(self.conf)

    @staticmethod
    def close(s):
        s.session.remove()
        s.connection.close()
        s.engine.dispose()

    def do(self, s, op):
        if op[0] == 'set':
            s.set(op[1], op[2])
        elif op[0] == 'item':
            s[op[1]] = op[2]
        elif op[0] == 'update one':
            s.update(op[1], op[2])
        else:
            s.delete(op[1])

    def content(self, s):
        rows = [(e.owner, e.data) for e in s()]
        s.session.rollback()
        r = dict(rows)
        got = {k: s.get(k) for k in r}
        s.session.rollback()
        return r, got, sorted(k for k, _ in rows), len(rows)


def allowed(before, op):
    """{key: possible values}, a missing one is ()."""
    p = {k: [v] for k, v in before.items()}
    if op[0] in ('set', 'item') or op[0] == 'update one' and op[1] in before:
        p.setdefault(op[1], [()]).append(op[2])
    elif op[0] == 'update':
        for k, v in op[1].items():
            p.setdefault(k, [()]).append(v)
    elif op[0] == 'del' and op[1] in p:
        p[op[1]].append(())
    elif op[0] == 'clear':
        for k in p:
            p[k].append(())
    return p


def child(fn):
    """Runs fn in a process of its own -> (exit code or -signal, what it wrote)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            out = fn()
            os.write(w, json.dumps(out).encode())
            code = 0
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    os.close(w)
    text = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        text += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), json.loads(text) if text else None


def traced(fn, at, unit):
    """Runs fn, killing the process before the at-th line or bytecode executed in the storage package (never if at is 0)."""
    n = [0]

    def local(frame, event, arg):
        if event in (unit, 'return'):
            n[0] += 1
            if n[0] == at:
                os.kill(os.getpid(), signal.SIGKILL)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if '/oidcmsg/storage/' in f:
            frame.f_trace_opcodes = unit == 'opcode'
            return local
        return None
    sys.settrace(glob)
    try:
        o = outcome(fn)
    finally:
        sys.settrace(None)
    return n[0], o[0]


def after(rec, st_, before, op, who, when, exact=None):
    """What a survivor finds."""
    p = allowed(before, op)
    o = outcome(st_.content, who)
    rec.check(o[0] == 'ok', '%s: the store cannot be read: %r', when, o[1])
    r, got, ks, n = o[1]
    rec.check(msgs.same(r, got), '%s: items %.200r, one by one %.200r', when, r, got)
    rec.check(ks == sorted(r) and n == len(r), '%s: keys %r, %d entries, items %r', when, ks, n, sorted(r))
    rec.check(set(r) <= set(p), '%s: keys from nowhere: %r', when, sorted(set(r) - set(p)))
    for k, vs in p.items():
        v = r.get(k, ())
        rec.check(any(msgs.same(v, x) for x in vs), '%s: %r is %.200r, expected one of %.200r', when, k, v, vs)
    if exact is not None:
        rec.check(msgs.same(r, exact), '%s: %.200r, expected %.200r', when, r, exact)
    return r


def done(before, op):
    r = dict(before)
    if op[0] in ('set', 'item') or op[0] == 'update one' and op[1] in before:
        r[op[1]] = op[2]
    elif op[0] == 'update':
        r.update(op[1])
    elif op[0] == 'del':
        r.pop(op[1], None)
    elif op[0] == 'clear':
        r = {}
    return r


def survivors(rec, kind, d, before, op, old, when, exact=None):
    make = (Table if kind == 'sql' else Files)(d, kind)
    new = make.open()
    a = after(rec, make, before, op, new, when + ', a new one', exact)
    b = after(rec, make, before, op, old, when + ', one opened before', exact)
    rec.check(msgs.same(a, b), '%s: the one opened before sees %.200r, a new one %.200r', when, b, a)
    # nothing is locked or half done
    k = op[1] if len(op) > 1 and isinstance(op[1], str) else next(iter(before), 'a')
    o = outcome(make.do, old, ('set', k, 'afterwards'))
    rec.check(o[0] == 'ok', '%s: cannot be written any more: %r', when, o[1])
    last = make.open()
    r = make.content(last)[0]
    rec.check(msgs.same(r, dict(a, **{k: 'afterwards'})), '%s: after another write %.200r, expected %r to have changed in %.200r', when, r, k, a)
    for s in (new, last):
        if kind == 'sql':
            make.close(s)


@st.composite
def killing(draw):
    return draw(state()) + (draw(st.sampled_from(['line', 'line', 'opcode'])), draw(st.integers(0, 49)))


def killed(c, rec):
    kind, ks, before, op, unit, shift = c
    total = None
    hit = False
    points = [0]
    while points:
        at = points.pop()
        with store.scratch() as d:
            make = (Table if kind == 'sql' else Files)(d, kind)
            make.create(before)

            def run():
                s = make.open()
                return traced(lambda: make.do(s, op), at, unit)
            old = make.open()
            if kind == 'sql':
                old.session.rollback()
            else:
                make.content(old)
            code, out = child(run)
            when = '%s of %s killed at %s %d of %s' % (op[0], kind, unit, at, total)
            if total is None:
                rec.check(code == 0, 'the process ended with %r', code)
                total = out[0]
                refused = op[0] == 'bad' or op[0] == 'del' and op[1] not in before
                rec.check(out[1] == 'ok' or refused, '%s of %s failed', op[0], kind)
                survivors(rec, kind, d, before, op, old, '%s of %s' % (op[0], kind), before if op[0] == 'bad' else done(before, op))
                # every line, or some of the bytecodes
                n = min(total, 40 if unit == 'line' else 15)
                points = [1 + (shift + i * total // n) % total for i in range(n)]
            else:
                rec.check(code in (0, -signal.SIGKILL), 'the process ended with %r', code)
                survivors(rec, kind, d, before, op, old, when)
                hit = hit or code != 0
            if kind == 'sql':
                make.close(old)
    rec.cls('%s %s' % (kind, op[0]))
    rec.cls(unit)
    if hit:
        rec.nontrivial()


# --- no space left
@st.composite
def filling(draw):
    kind, ks, before, op = draw(state().filter(lambda s: s[3][0] in ('set', 'update', 'update one', 'item')))
    return kind, ks, before, op, draw(st.one_of(st.integers(0, 40), st.integers(0, 100000), st.sampled_from([0, 4096, 8192, 65536, 65537]))), \
        draw(st.sampled_from(['refused', 'refused', 'killed']))


def full(c, rec):
    """Files may not grow beyond a limit: writing fails half way, or the process is killed there."""
    kind, ks, before, op, limit, how = c
    with store.scratch() as d:
        make = (Table if kind == 'sql' else Files)(d, kind)
        make.create(before)
        old = make.open()
        if kind == 'sql':
            old.session.rollback()
            limit += os.path.getsize(os.path.join(d, 'db.sqlite'))
        else:
            make.content(old)

        def run():
            s = make.open()
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == 'killed' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            o = outcome(make.do, s, op)
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
            if kind == 'sql':
                s.session.rollback()
            # the one that failed goes on working
            x = outcome(make.content, s)
            good = x[0] == 'ok' and all(any(msgs.same(x[1][0].get(k, ()), y) for y in vs) for k, vs in allowed(before, op).items())
            return o[0], good, repr(x[1])[:300]
        code, out = child(run)
        when = '%s of %s with files up to %d bytes' % (op[0], kind, limit)
        if code == 0:
            rec.check(out[1], '%s: the one that %s reads %s', when, 'failed' if out[0] == 'exc' else 'wrote', out[2])
            keep = None
            if out[0] == 'ok':
                keep = done(before, op)
            elif op[0] != 'update':
                keep = before
            survivors(rec, kind, d, before, op, old, when, keep)
        else:
            rec.check(code == -signal.SIGXFSZ, 'the process ended with %r', code)
            survivors(rec, kind, d, before, op, old, when)
        if kind == 'sql':
            make.close(old)
    rec.cls('%s %s' % (kind, 'killed' if code else 'refused' if out[0] == 'exc' else 'written'))
    if code or out[0] == 'exc':
        rec.nontrivial()


# --- refused for a while
@st.composite
def refusing(draw):
    kind, ks, before, op = draw(state())
    how = draw(st.sampled_from(['reader', 'reader', 'writer', 'exclusive'] if kind == 'sql' else ['directory']))
    return kind, ks, before, op, how, draw(st.booleans())


def refused(c, rec):
    """Somebody else uses the database, or the directory cannot be written, and then they can be used again."""
    kind, ks, before, op, how, warm = c
    with store.scratch() as d:
        make = (Table if kind == 'sql' else Files)(d, kind)
        make.timeout = 0.02
        make.create(before)
        old, s = make.open(), make.open()
        for x in [old] + [s] * warm:
            make.content(x)
        if kind == 'sql':
            con = sqlite3.connect(os.path.join(d, 'db.sqlite'), timeout=0.02, isolation_level=None)
            con.execute({'reader': 'begin', 'writer': 'begin immediate', 'exclusive': 'begin exclusive'}[how])
            con.execute('select * from thing').fetchall()
        else:
            os.chmod(os.path.join(d, 'db'), 0o555)
        try:
            o = outcome(make.do, s, op)
        finally:
            if kind == 'sql':
                con.execute('rollback')
                con.close()
            else:
                os.chmod(os.path.join(d, 'db'), 0o755)
        when = '%s of %s, %s' % (op[0], kind, how)
        if o[0] == 'ok':
            keep = done(before, op)
        else:
            keep = before if op[0] not in ('update', 'clear') else None
        # anybody else first: nothing is kept locked
        survivors(rec, kind, d, before, op, old, when, keep)
        with_that = make.content(old)[0]
        now = outcome(make.content, s)
        rec.check(now[0] == 'ok' and msgs.same(now[1][0], with_that), '%s: the one that was %s reads %.200r, others %.200r', when,
                  'refused' if o[0] == 'exc' else 'served', now[1], with_that)
        k = ks[0]
        x = outcome(make.do, s, ('set', k, 'again'))
        rec.check(x[0] == 'ok', '%s: the one that was refused cannot write any more: %r', when, x[1])
        rec.check(msgs.same(make.content(old)[0].get(k), 'again'), '%s: what it wrote afterwards is not seen by others', when)
        if kind == 'sql':
            make.close(s)
            make.close(old)
    rec.cls('%s %s' % (how, o[0]))
    if o[0] == 'exc':
        rec.nontrivial()


assert vf
TARGETS = [Target('killed', killing(), killed, quick=40, thorough=3000),
           Target('no space', filling(), full, quick=120, thorough=8000),
           Target('refused', refusing(), refused, quick=150, thorough=8000)]

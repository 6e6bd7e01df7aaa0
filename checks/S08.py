"""Two or three processes on one directory under schedules the check owns (switching at chosen lines of the storage code, waiting processes
included); results judged by linearizability per key."""
import copy
import json
import os
import select
import sys
import time

from hypothesis import strategies as st

import msgs
import store
import vf
from checks import S01
from vf import Target

UNPRIVILEGED = True
RULE = 'a case is non-trivial if an operation was interrupted by one of another process that concerns the same key'
ASSUMPTIONS = ['switches happen between lines of the storage package, and wherever a process waits', 'modification times tell versions apart '
               '(a pause at each switch sees to it)']
KEYS = ['a', 'b', 'a/b']


@st.composite
def case(draw):
    n = draw(st.sampled_from([2, 2, 2, 3]))
    k = st.sampled_from(draw(st.sampled_from([['a'], ['a'], ['a', 'b'], KEYS])))
    op = st.one_of(st.tuples(st.sampled_from(['set', 'set', 'del', 'get', 'item', 'in']), k),
                   st.tuples(st.sampled_from(['keys', 'items', 'iter', 'len', 'call', 'open', 'clear', 'update'])))
    progs = [draw(st.lists(op, min_size=1, max_size=3 if n == 2 else 2)) for _ in range(n)]
    before = draw(st.lists(k, max_size=2, unique=True))
    warm = draw(st.booleans())
    slices = draw(st.lists(st.tuples(st.integers(0, n - 1), st.one_of(st.integers(1, 12), st.integers(1, 60))), min_size=1, max_size=6))
    if not before and draw(st.integers(0, 2)) == 0:     # nobody has made the directory
        warm = None
        progs = [[('open',)] + p for p in progs]
    return before, progs, warm, slices


class Child:
    def __init__(self, d, i, prog, warm, kind):
        self.i = i
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(down_w)
                os.close(up_r)
                play(d, i, prog, warm, kind, down_r, up_w)
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)
        self.r, self.w, self.buf, self.done, self.waiting = up_r, down_w, b'', False, False

    def go(self, lines):
        os.write(self.w, b'%d\n' % lines)
        self.waiting = False

    def messages(self, timeout):
        """What it says until it pauses, waits or ends; stops as well if nothing is heard."""
        while True:
            while b'\n' in self.buf:
                line, self.buf = self.buf.split(b'\n', 1)
                m = json.loads(line)
                yield m
                if m[0] in ('pause', 'wait', 'end'):
                    return
            if not select.select([self.r], [], [], timeout)[0]:
                yield ['silent']
                return
            b = os.read(self.r, 65536)
            if not b:
                yield ['dead']
                return
            self.buf += b

    def close(self):
        os.close(self.r)
        os.close(self.w)
        try:
            os.kill(self.pid, 9)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def play(d, i, prog, warm, kind, r, w):
    """The life of a child: does what it is told, a number of lines at a time."""
    budget = [0]

    def say(*m):
        os.write(w, json.dumps(m).encode() + b'\n')

    def listen():
        text = b''
        while not text.endswith(b'\n'):
            b = os.read(r, 1)
            if not b:
                os._exit(0)
            text += b
        budget[0] = int(text)

    def local(frame, event, arg):
        if event == 'line':
            budget[0] -= 1
            if budget[0] < 0:
                say('pause')
                listen()
        return local

    def glob(frame, event, arg):
        return local if '/oidcmsg/storage/' in frame.f_code.co_filename else None

    def sleep(_):
        say('wait')
        listen()
    s = None
    if warm is not None:
        s = kind.open(d)
    if warm:
        kind.warm(s)
    time.sleep = sleep
    say('pause')
    listen()
    for j, op in enumerate(prog):
        say('start', j)
        sys.settrace(glob)
        try:
            try:
                s, out = kind.do(d, s, i, j, op)
                res = ['ok', out]
            except KeyError:
                res = ['KeyError']
            except Exception as e:
                res = ['exc', repr(e)[:300]]
        finally:
            sys.settrace(None)
        say('stop', j, res)
    say('end')
    listen()


def value(i, j, k):
    return [i, j, k, 'x' * 50]


class Files:
    refuses = False

    @staticmethod
    def prepare(d, before):
        s = Files.open(d)
        for k in before:
            s[k] = value('b', 0, k)

    @staticmethod
    def open(d):
        return S01.open_store(d, store.JSON, True, 'db')[0]

    @staticmethod
    def warm(s):
        dict(s.items())

    @staticmethod
    def do(d, s, i, j, op):
        out = None
        if op[0] == 'set':
            s[op[1]] = value(i, j, op[1])
        elif op[0] == 'del':
            del s[op[1]]
        elif op[0] == 'get':
            out = s.get(op[1], 'default')
        elif op[0] == 'item':
            out = s[op[1]]
        elif op[0] == 'in':
            out = op[1] in s
        elif op[0] == 'keys':
            out = list(s.keys())
        elif op[0] == 'call':
            out = list(s())
        elif op[0] in ('items', 'iter'):
            out = [list(x) for x in (s.items() if op[0] == 'items' else s)]
        elif op[0] == 'len':
            out = len(s)
        elif op[0] == 'open':
            s = Files.open(d)
        elif op[0] == 'clear':
            s.clear()
        elif op[0] == 'update':
            s.update({k: value(i, j, k) for k in KEYS[:2]})
        return s, out

    @staticmethod
    def on(k, op, res, i, j):
        """What this operation was for the key: kind and argument or result."""
        if op[0] == 'set' or op[0] == 'update' and k in KEYS[:2]:
            return 'write', value(i, j, k)
        if op[0] in ('del', 'clear'):
            return 'write', None
        if op[0] == 'get':
            return 'read', None if res[1] == 'default' else res[1]
        if op[0] == 'item':
            return 'read', None if res[0] == 'KeyError' else res[1]
        if op[0] == 'in':
            return 'there', res[1]
        if op[0] in ('keys', 'call'):
            return 'there', k in res[1]
        if op[0] in ('items', 'iter'):
            return 'read', dict((a, b) for a, b in res[1]).get(k)


class Table:
    refuses = True      # a database may say that it is locked, and do nothing
    conf = staticmethod(lambda d: {'url': 'sqlite:///%s?timeout=0.02' % os.path.join(d, 'db.sqlite'), 'params': {'table': 'thing'}})

    @staticmethod
    def prepare(d, before):
        from oidcmsg.storage.db_setup import create_database
        create_database(Table.conf(d))
        s = Table.open(d)
        for k in before:
            s.set(k, json.dumps(value('b', 0, k)))
        s.session.remove()
        s.connection.close()
        s.engine.dispose()

    @staticmethod
    def open(d):
        from oidcmsg.storage.absqlalchemy import AbstractStorageSQLAlchemy
        return AbstractStorageSQLAlchemy(Table.conf(d))

    @staticmethod
    def warm(s):
        s()
        s.session.remove()

    @staticmethod
    def do(d, s, i, j, op):
        out = None
        if op[0] == 'set':
            s.set(op[1], json.dumps(value(i, j, op[1])))
        elif op[0] == 'item':
            s[op[1]] = json.dumps(value(i, j, op[1]))
        elif op[0] == 'replace':
            s.update(op[1], json.dumps(value(i, j, op[1])))
        elif op[0] == 'del':
            out = s.delete(op[1])
        elif op[0] == 'get':
            out = s.get(op[1])
            out = out and json.loads(out)
        elif op[0] == 'in':
            out = op[1] in s
        elif op[0] in ('items', 'iter'):
            out = [[x.owner, json.loads(x.data)] for x in (s() if op[0] == 'items' else s)]
        elif op[0] == 'open':
            s.session.remove()
            s = Table.open(d)
        return s, out

    @staticmethod
    def on(k, op, res, i, j):
        if res[0] != 'ok':
            return None
        if op[0] in ('set', 'item'):
            return 'write', value(i, j, k)
        if op[0] == 'replace':
            return 'replace', value(i, j, k)
        if op[0] == 'del':
            return 'removed', res[1]
        if op[0] == 'get':
            return 'read', res[1]
        if op[0] == 'in':
            return 'there', res[1]
        if op[0] in ('items', 'iter'):
            return 'read', dict((a, b) for a, b in res[1]).get(k)


def per_key(kind, k, ops):
    """Operations on one key as (start, stop, kind, argument or result)."""
    r = []
    for (i, j), (op, start, stop, res) in sorted(ops.items()):
        what = None if len(op) > 1 and op[1] != k else kind.on(k, op, res, i, j)
        if what:
            r.append((start, stop) + what)
    return r


def linearizable(ops, v):
    """Is there an order of the operations, each at a moment between its start and stop, that explains every result?"""
    seen = set()

    def search(left, v):
        if not left:
            return True
        mark = (left, json.dumps(v))
        if mark in seen:
            return False
        seen.add(mark)
        first = min(ops[x][1] for x in left)
        for x in left:
            start, stop, kind, arg = ops[x]
            if start > first:
                continue
            if kind == 'read' and not msgs.same(arg, v) or kind == 'there' and arg is not (v is not None) or kind == 'removed' and arg != (v is not None):
                continue
            if search(left - {x}, arg if kind == 'write' or kind == 'replace' and v is not None else None if kind == 'removed' else v):
                return True
        return False
    return search(frozenset(range(len(ops))), v)


def run(c, rec, kind=Files):
    before, progs, warm, slices = c
    with store.scratch() as d:
        if warm is not None:
            kind.prepare(d, before)
        kids = [Child(d, i, p, warm, kind) for i, p in enumerate(progs)]
        try:
            ops, clock, log = {}, [0], []
            for kid in kids:
                for m in kid.messages(100):
                    rec.check(m[0] == 'pause', 'process %d: %r', kid.i, m)

            def turn(kid, lines):
                """-> did it get anywhere?"""
                kid.go(lines)
                moved = False
                for m in kid.messages(100):
                    clock[0] += 1
                    if m[0] == 'start':
                        ops[kid.i, m[1]] = [progs[kid.i][m[1]], clock[0], None, None]
                        moved = True
                    elif m[0] == 'stop':
                        ops[kid.i, m[1]][2:] = [clock[0], m[2]]
                        moved = True
                    elif m[0] == 'pause':
                        moved = True
                    elif m[0] == 'end':
                        kid.done = True
                    elif m[0] == 'wait':
                        pass
                    else:
                        rec.check(False, 'process %d does not answer (%s), %r', kid.i, m[0], log)
                    log.append((kid.i, m[0]))
                time.sleep(0.005)
                return moved
            at_once = None
            for i, lines in slices:
                if not kids[i].done:
                    turn(kids[i], lines)
                if at_once is None:
                    at_once = kids[i].done
            idle = 0
            while not all(kid.done for kid in kids):
                moved = [turn(kid, 10 ** 6) for kid in kids if not kid.done]
                idle = 0 if any(moved) else idle + 1
                rec.check(idle < 20, 'everybody waits for somebody: %r', log[-6:])
        finally:
            for kid in kids:
                kid.close()
        time.sleep(0.005)
        final = kind.open(d)
        for n, op in enumerate([('get', k) for k in KEYS] + [('in', k) for k in KEYS] + [('items',)]):
            clock[0] += 1
            ops[99, n] = [op, clock[0], clock[0] + 1, ['ok', kind.do(d, final, 99, n, op)[1]]]
            clock[0] += 1
        if kind is Table:
            final.session.remove()
            final.connection.close()
            final.engine.dispose()
        for (i, j), (op, start, stop, res) in ops.items():
            if res[0] == 'exc' and kind.refuses and 'database is locked' in res[1] and op[0] in ('set', 'item', 'replace', 'del'):
                rec.cls('locked')
                continue
            rec.check(res[0] == 'ok' or res[0] == 'KeyError' and op[0] == 'item', '%s by process %s ended with %r; %r', op, i, res, ops)
            if op[0] in ('keys', 'call', 'items', 'iter'):
                names = [x if isinstance(x, str) else x[0] for x in res[1]]
                rec.check(len(names) == len(set(names)) and set(names) <= set(KEYS), '%s by process %s gave %r', op, i, res[1])
        for k in KEYS:
            h = per_key(kind, k, ops)
            rec.check(linearizable(h, value('b', 0, k) if k in before else None), 'no order explains what was seen of %r (there before: %r): %r', k, k in before,
                      sorted((x for x in ops.items() if len(x[1][0]) < 2 or x[1][0][1] == k), key=str))
    crossed = False
    for (i, j), (op, start, stop, _) in ops.items():
        for (i2, j2), (op2, start2, stop2, _) in ops.items():
            if i != i2 and 99 not in (i, i2) and start < start2 < stop and (len(op) < 2 or len(op2) < 2 or op[1] == op2[1]):
                crossed = True
                rec.cls('%s in %s' % (op2[0], op[0]))
    if crossed:
        rec.nontrivial()
    return at_once


SINGLE = [('set', 'a'), ('del', 'a'), ('get', 'a'), ('item', 'a'), ('in', 'a'), ('keys',), ('items',), ('iter',), ('len',), ('call',), ('open',),
          ('clear',), ('update',)]


@st.composite
def sweep_case(draw):
    op = st.sampled_from(SINGLE)
    first, second = [draw(op)], draw(st.lists(op, min_size=1, max_size=2))
    before, warm = draw(st.sampled_from([([], None), ([], False), (['a'], True), (['a'], True), (['a'], False), (['a', 'b'], True)]))
    if warm is None:
        first, second = [('open',)] + first, [('open',)] + second
    return before, [first, second], warm, draw(st.integers(0, 2))


def sweep(c, rec):
    """One switch, after the first line or two, after every third line from there."""
    before, progs, warm, offset = c
    for lines in range(1 + offset, 100, 3):
        if run((before, progs, warm, [(0, lines), (1, 10 ** 6)]), rec):
            break       # got to the end before the switch


@st.composite
def table_case(draw):
    n = draw(st.sampled_from([2, 2, 2, 3]))
    k = st.sampled_from(draw(st.sampled_from([['a'], ['a'], ['a', 'b'], KEYS])))
    op = st.one_of(st.tuples(st.sampled_from(['set', 'item', 'replace', 'del', 'del', 'get', 'in']), k), st.tuples(st.sampled_from(['items', 'iter', 'open'])))
    progs = [draw(st.lists(op, min_size=1, max_size=3 if n == 2 else 2)) for _ in range(n)]
    slices = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(1, 16)), min_size=1, max_size=6))
    return draw(st.lists(k, max_size=2, unique=True)), progs, draw(st.booleans()), slices


def table(c, rec):
    run(c, rec, Table)


TARGETS = [Target('processes', case(), run, quick=300, thorough=20000), Target('sweep', sweep_case(), sweep, quick=60, thorough=4000),
           Target('database', table_case(), table, quick=200, thorough=10000)]

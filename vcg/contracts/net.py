"""P15, P16, P17: channels.  System calls, the C++ library's vector, deque and locks are given by assumed
contracts (wmodels, below); everything of the repository between them is executed."""
from ..wspec import *
from ..word import Fun, FnPtr
from .wmodels import *
from . import lib

SRC = ('net', ['tcp_channel.cc', 'tcp_utils.cc', 'mem_channel.cc', 'mersenne61.cc', 'mersenne127.cc', 'tu:net'])
TCP = lib.GROUPS.setdefault('tcp', [])
MEM = lib.GROUPS.setdefault('memchan', [])
MSG = lib.GROUPS.setdefault('message', [])
B64 = lambda x: z3.BitVecVal(x, 64)
BIG = B64(1 << 60)


def fields(W, cls):
    rec = W.lay.rec.get(cls)
    if rec is None:
        raise Unsupported('layout of ' + cls)
    return rec[0], {n: off for off, t, n in rec[1]}


class _T:
    kind = 'int'

    def __init__(self, bits):
        self.bits, self.size = bits, (bits + 7) // 8


THROWERR = (demstart('scl::details::ThrowError('), lambda ex, st, a, ins: [(st, Throw('std::runtime_error'))])


# ------------------------------------------------------------------ P17: TCP
def syscall(sysname, wrapper):
    """the wrapper makes exactly one system call with its own arguments and returns its result"""
    def body(W):
        fd, n = z3.BitVec('fd', 32), z3.BitVec('n', 64)
        buf = byte_obj('buf')
        off = z3.BitVec('off', 64)
        ret = z3.BitVec('ret', 64)

        def h(ex, st, a, ins):
            st.events.append('call')
            ex.oblige(st, z3.And(a[0] == fd, z3.BoolVal(isinstance(a[1], Ptr) and a[1].obj is buf), z64(a[1].off) == off, a[2] == n), '%s(socket, buffer, n)' % sysname)
            return [(st, ret)]
        ex = W.ex(models=[(named(sysname), h)])
        st = State()
        # POSIX: -1, or a count that is at most n; Linux transfers at most 0x7ffff000 bytes per call
        st.cond = [ret >= -1, ret <= 0x7ffff000, z3.Implies(ret >= 0, z3.ULE(ret, n)), z3.ULT(n, BIG)]
        for s, r in ex.run(W.fn(wrapper), st, [fd, Ptr(buf, off), n]):
            W.ob('ensures one system call', s.events == ['call'], str(s.events))
            if r[0] != 'ret':
                W.ob('returns', False, str(r))
                continue
            v = r[1]
            W.goal(ex, s, (z3.SignExt(64 - v.size(), v) if v.size() < 64 else v) == ret, 'ensures the result of %s is returned' % sysname)
        W.finish(ex)
    return body


def transfer(kind):
    """Send / Recv move bytes [0, n) in order, whatever each system call transfers"""
    fname = 'scl::TcpChannel::%s' % ('Send(unsigned char const*, unsigned long)' if kind == 'write' else 'Recv(unsigned char*, unsigned long)')
    wrapper = 'scl::details::WriteToSocket(' if kind == 'write' else 'scl::details::ReadFromSocket('

    def body(W):
        size, fs = fields(W, 'scl::TcpChannel')
        n, base = z3.BitVec('n', 64), z3.BitVec('base', 64)
        buf = byte_obj('buf')
        o = Obj('channel', size)
        sock = z3.BitVec('socket', 32)
        o.init[(fs['mSocket'], 4)] = sock

        def h(ex, st, a, ins):
            done = st.ghost['done']
            ex.oblige(st, a[0] == sock, 'the transfer uses the channel\'s socket')
            ex.oblige(st, z3.And(z3.BoolVal(isinstance(a[1], Ptr) and a[1].obj is buf), z64(a[1].off) == base + done),
                      'each transfer starts at the first byte not yet transferred')
            ex.oblige(st, z3.And(z3.ULE(a[2], n - done), a[2] != 0), 'each transfer asks for bytes that remain, and for at least one')
            r = z3.FreshConst(z3.BitVecSort(32), 'ret')
            s2 = st.fork(r >= -1, z3.Implies(r >= 0, z3.ULE(z3.SignExt(32, r), a[2])))
            s2.ghost['done'] = z3.simplify(done + z3.If(r >= 0, z3.SignExt(32, r), B64(0)))
            s2.ghost['last'] = r
            s2.ghost['err'] = z3.Or(st.ghost['err'], r < 0)
            s2.ghost['eof'] = z3.Or(st.ghost['eof'], r == 0)
            return [(s2, r)]

        def make():
            def inv(env, g, st, ex, pre):
                done = st.ghost['done']
                return [('transferred <= n', z3.ULE(done, n)), ('no error so far', z3.Not(st.ghost['err'])),
                        ('no end of file so far' if kind == 'read' else 'x', z3.Not(st.ghost['eof']) if kind == 'read' else z3.BoolVal(True))]

            def havoc(env, g, st, ex):
                st.ghost['done'] = z3.FreshConst(z3.BitVecSort(64), 'done')
                st.ghost['last'] = None
                return []
            return [LoopSpec(lambda fn: fn.dem == fname, 0, [], inv, havoc=havoc, linear=lambda g, st: st.ghost['done'])]

        def verify(loops):
            ex = W.ex(models=[(demstart(wrapper), h), THROWERR], loops=loops)
            st = State()
            st.cond = [z3.ULT(n, BIG), z3.ULT(base, BIG)]
            st.ghost.update(done=B64(0), err=z3.BoolVal(False), eof=z3.BoolVal(False), last=None)
            k = 0
            for s, r in ex.run(W.fn(fname), st, [Ptr(o), Ptr(buf, base), n]):
                if r[0] == 'cut':
                    continue
                k += 1
                if r[0] == 'throw':
                    W.ob('throws std::runtime_error', r[1] == 'std::runtime_error', str(r))
                    W.goal(ex, s, s.ghost['err'], 'throws only when a system call failed')
                    continue
                W.goal(ex, s, z3.Not(s.ghost['err']), 'a failed system call is reported')
                d = s.ghost['done'] == n
                W.goal(ex, s, d if kind == 'write' else z3.Or(d, s.ghost['eof']),
                       'ensures all n bytes were transferred' + ('' if kind == 'write' else ' unless the peer closed the connection'))
                if kind == 'write':
                    W.ob('the data is not modified', s.mem.get(buf, buf.arr0) is buf.arr0)
            if not k and not ex.failures:
                raise Unsupported('no path returns')
            W.finish(ex)
        with_perms(W, make, verify)
    return body


def tcp_close(W):
    size, fs = fields(W, 'scl::TcpChannel')
    o = Obj('channel', size)
    sock = z3.BitVec('socket', 32)
    alive = z3.BitVec('alive', 8)
    o.init[(fs['mSocket'], 4)] = sock
    o.init[(fs['mAlive'], 1)] = alive

    def h(ex, st, a, ins):
        ex.oblige(st, a[0] == sock, 'the channel\'s socket is closed')
        st.events.append('close')
        r = z3.BitVec('ret', 32)
        return [(st, r)]
    ex = W.ex(models=[(demstart('scl::details::CloseSocket('), h), THROWERR])
    st = State()
    st.cond = [z3.Or(alive == 0, alive == 1)]
    for s, r in ex.run(W.fn('scl::TcpChannel::Close()'), st, [Ptr(o)]):
        if r[0] == 'throw':
            W.goal(ex, s, z3.And(alive == 1, z3.BitVec('ret', 32) < 0), 'throws only when closing failed')
            continue
        now = ex.load(s, Ptr(o, fs['mAlive']), _T(8))
        W.goal(ex, s, now == 0, 'ensures the channel is not alive')
        W.goal(ex, s, z3.BoolVal(len(s.events) == 1) == (alive == 1), 'ensures an open connection is closed exactly once')
        W.ob('closes at most once', len(s.events) <= 1)
    W.finish(ex)


TCP += [WC('scl::details::WriteToSocket', SRC, syscall('write', 'scl::details::WriteToSocket(int, unsigned char const*, unsigned long)')),
        WC('scl::details::ReadFromSocket', SRC, syscall('read', 'scl::details::ReadFromSocket(int, unsigned char*, unsigned long)')),
        WC('TcpChannel::Send', SRC, transfer('write')), WC('TcpChannel::Recv', SRC, transfer('read')), WC('TcpChannel::Close', SRC, tcp_close)]


# ------------------------------------------------------------------ P16: in-memory channel
POP = 'scl::details::SharedDeque<std::vector<unsigned char>>::Pop()'


def mem_send(W):
    size, fs = fields(W, 'scl::InMemoryChannel')
    o, src = Obj('channel', size), byte_obj('src')
    qin, qout = Obj('in', 200), Obj('out', 200)
    o.ptrs = {fs['mIn']: Ptr(qin), fs['mOut']: Ptr(qout)}
    n, base, J = z3.BitVec('n', 64), z3.BitVec('base', 64), z3.BitVec('j', 64)

    def push(ex, st, a, ins):
        b, e = vec_get(ex, st, a[1])
        st.events.append(('push', a[0].obj, ex.content(st, b.obj), z64(b.off), z64(e.off)))
        return [(st, JUNK)]
    ex = W.ex(models=[(demstart('scl::details::SharedDeque<std::vector<unsigned char>>::PushBack('), push)] + HEAP + VEC)
    st = State()
    st.cond = [z3.ULT(n, BIG), z3.ULT(base, BIG)]
    for s, r in ex.run(W.fn('scl::InMemoryChannel::Send(unsigned char const*, unsigned long)'), st, [Ptr(o), Ptr(src, base), n]):
        ev = [e for e in s.events if e[0] == 'push']
        W.ob('returns', r[0] == 'ret', str(r))
        W.ob('ensures one chunk is queued, on the outgoing queue', len(ev) == 1 and ev[0][1] is qout, str(len(ev)))
        if len(ev) != 1:
            continue
        W.goal(ex, s, ev[0][4] - ev[0][3] == n, 'ensures the chunk has n bytes')
        W.goal(ex, s, z3.Implies(z3.ULT(J, n), ev[0][2](ev[0][3] + J) == src.arr0(base + J)), 'ensures the chunk is src[0, n)')
    W.finish(ex)


def mem_recv(W):
    size, fs = fields(W, 'scl::InMemoryChannel')
    fname = 'scl::InMemoryChannel::Recv(unsigned char*, unsigned long)'
    S = fresh_bytes('stream')
    n, base, J, L = z3.BitVec('n', 64), B64(0), z3.BitVec('j', 64), z3.BitVec('left', 64)
    qin, qout = Obj('in', 200), Obj('out', 200)
    ovo = fs['mOverflow']

    def body(loops, o, dst):
        obuf = Obj('overflow', None, Fun(lambda j: S.f(j)))
        o.ptrs = {fs['mIn']: Ptr(qin), fs['mOut']: Ptr(qout), ovo: Ptr(obuf, 0), ovo + 8: Ptr(obuf, L), ovo + 16: Ptr(obuf, L)}

        def pop(ex, st, a, ins):
            ex.oblige(st, z3.BoolVal(a[1].obj is qin), 'chunks are taken from the incoming queue')
            m = z3.FreshConst(z3.BitVecSort(64), 'chunk')
            cur = st.ghost['cur']
            s2 = st.fork(z3.ULT(m, BIG))
            b = byte_obj('chunk')
            s2.mem[b] = Fun(lambda j: S.f(cur + j))
            vec_set(ex, s2, a[0], b, 0, m)
            s2.ghost['cur'] = z3.simplify(cur + m)
            return [(s2, JUNK)]
        ex = W.ex(models=[(dem(POP), pop)] + HEAP + VEC, loops=loops)
        st = State()
        st.cond = [z3.ULT(x, BIG) for x in (n, base, L)]
        st.ghost['cur'] = L
        d0 = dst.arr0
        k = 0
        for s, r in ex.run(W.fn(fname), st, [Ptr(o), Ptr(dst, 0), n]):
            if r[0] == 'cut':
                continue
            k += 1
            if r[0] != 'ret':
                W.ob('returns', False, str(r))
                continue
            x = ex.content(s, dst)
            W.goal(ex, s, z3.Implies(z3.ULT(J, n), x(base + J) == S(J)), 'ensures dst[j] is byte j of the stream')
            W.goal(ex, s, z3.Implies(z3.UGE(J - base, n), x(J) == d0(J)), 'ensures nothing outside dst[0, n) is written')
            b, e = vec_get(ex, s, Ptr(o, ovo))
            W.goal(ex, s, z64(e.off) - z64(b.off) == s.ghost['cur'] - n, 'ensures exactly the bytes received and not delivered are kept')
            W.goal(ex, s, z3.Implies(z3.ULT(J, s.ghost['cur'] - n), ex.content(s, b.obj)(z64(b.off) + J) == S(n + J)), 'ensures they are kept in order')
        if not k and not ex.failures:
            raise Unsupported('no path returns')
        W.finish(ex)

    def verify(loops):
        o, dst = Obj('channel', size), byte_obj('dst')
        d0 = dst.arr0

        def delivered(st):
            c = st.ghost['cur']
            return z3.If(z3.ULE(c, n), c, n)

        def inv(env, g, st, ex, pre):
            cur = st.ghost['cur']
            rem = n - delivered(st)
            x = ex.content(st, dst)
            b, e = vec_get(ex, st, Ptr(o, ovo))
            ln = z64(e.off) - z64(b.off)
            return [('rem <= n', z3.ULE(rem, n)), ('bytes [0, n - rem) are delivered', z3.Implies(z3.ULT(J, n - rem), x(base + J) == S(J))),
                    ('the rest of dst is untouched', z3.Implies(z3.UGE(J - base, n), x(J) == d0(J))),
                    ('leftover length', z3.And(ln == cur - (n - rem), z3.ULT(ln, B64(1 << 61)))), ('leftovers only when done', z3.Implies(rem != 0, ln == 0)),
                    ('leftovers are the next bytes', z3.Implies(z3.ULT(J, ln), ex.content(st, b.obj)(z64(b.off) + J) == S(n - rem + J)))]

        def havoc(env, g, st, ex):
            cur = st.ghost['cur'] = z3.FreshConst(z3.BitVecSort(64), 'cur')
            rem = n - delivered(st)
            junk = fresh_bytes('rest')
            st.mem[dst] = Fun(lambda j: z3.If(z3.ULT(j - base, n - rem), S.f(j - base), z3.If(z3.ULT(j - base, n), junk.f(j), d0.f(j))))
            nb = byte_obj('overflow')
            st.mem[nb] = Fun(lambda j: S.f(n - rem + j))
            vec_set(ex, st, Ptr(o, ovo), nb, 0, z3.simplify(cur - (n - rem)))
            return [o, dst]
        for l in loops:
            l.inv, l.havoc, l.linear = inv, havoc, lambda g, st: delivered(st)
        body(loops, o, dst)
    with_perms(W, lambda: [LoopSpec(lambda fn: fn.dem == fname, 0, [], None, linear=lambda g, st: None)], verify)


class Q:
    """assumed contracts of std::deque, std::mutex, std::unique_lock and std::condition_variable, as a protocol on one
    queue: it may change whenever the lock is not held"""

    def __init__(self):
        self.ms = [
            (self.has('unique_lock<std::mutex>::unique_lock(std::mutex&)'), self.lock), (self.has('unique_lock<std::mutex>::~unique_lock()'), self.dtor),
            (self.has('unique_lock<std::mutex>::unlock()'), self.unlock),
            (self.has('lock_guard<std::mutex>::lock_guard('), self.lock), (self.has('lock_guard<std::mutex>::~lock_guard'), self.dtor),
            (self.has('condition_variable::wait('), self.wait), (self.has('condition_variable::notify_one()'), self.notify), (self.has('condition_variable::notify_all()'), self.notify),
            (self.has('::empty() const'), self.empty), (self.has('::size() const'), self.size), (self.has('::front()'), self.front),
            (self.has('::pop_front()'), self.popf), (self.has('::push_back(std::vector<unsigned char> const&)'), self.push('copy')),
            (self.has('::push_back(std::vector<unsigned char>&&)'), self.push('move')),
            (dem('std::vector<unsigned char>::vector(std::vector<unsigned char> const&)'), self.copy),
            (dem('std::vector<unsigned char>::vector(std::vector<unsigned char>&&)'), self.copy),
            (dem('std::vector<unsigned char>::~vector()'), noop)]

    def has(self, sub):
        return lambda fn, ins: fn is not None and sub in fn.dem and (sub.startswith(('unique', 'lock', 'cond')) or 'std::deque<' in fn.dem)

    def held(self, ex, st, what):
        ex.oblige(st, z3.BoolVal(st.ghost['held']), what + ' with the lock held')

    def lock(self, ex, st, a, ins):
        ex.oblige(st, z3.BoolVal(not st.ghost['held']), 'the lock is not taken twice')
        st.ghost['held'] = True
        self.change(st)
        return [(st, JUNK)]

    def change(self, st):
        st.ghost['len'] = z3.FreshConst(z3.BitVecSort(64), 'len')
        st.cond = st.cond + [z3.ULT(st.ghost['len'], BIG)]

    def unlock(self, ex, st, a, ins):
        self.held(ex, st, 'unlock')
        st.ghost['held'] = False
        return [(st, JUNK)]

    def dtor(self, ex, st, a, ins):
        st.ghost['held'] = False
        return [(st, JUNK)]

    def wait(self, ex, st, a, ins):
        self.held(ex, st, 'wait')
        ex.oblige(st, st.ghost['len'] == 0, 'waits only while the queue is empty')
        self.change(st)
        return [(st, JUNK)]

    def notify(self, ex, st, a, ins):
        st.events.append(('notify',))
        return [(st, JUNK)]

    def empty(self, ex, st, a, ins):
        self.held(ex, st, 'empty()')
        return [(st, z3.simplify(st.ghost['len'] == 0))]

    def size(self, ex, st, a, ins):
        self.held(ex, st, 'size()')
        st.events.append(('size', st.ghost['len']))
        return [(st, st.ghost['len'])]

    def front(self, ex, st, a, ins):
        self.held(ex, st, 'front()')
        ex.oblige(st, st.ghost['len'] != 0, 'front() of a non-empty queue')
        o = Obj('front', 24)
        o.epoch = len([e for e in st.events if e[0] == 'pop'])
        o.elem = ('element', o.epoch)
        return [(st, Ptr(o, 0))]

    def popf(self, ex, st, a, ins):
        self.held(ex, st, 'pop_front()')
        ex.oblige(st, st.ghost['len'] != 0, 'pop_front() of a non-empty queue')
        st.ghost['len'] = st.ghost['len'] - 1
        st.events.append(('pop',))
        return [(st, JUNK)]

    def push(self, kind):
        def h(ex, st, a, ins):
            self.held(ex, st, 'push_back()')
            st.ghost['len'] = st.ghost['len'] + 1
            st.events.append(('push', a[1].obj))
            return [(st, JUNK)]
        return h

    def copy(self, ex, st, a, ins):
        e = getattr(a[1].obj, 'elem', None)
        st.events.append(('copy', a[0].obj, e, len([x for x in st.events if x[0] == 'pop'])))
        return [(st, JUNK)]


def deque(method, sig):
    cls = 'scl::details::SharedDeque<std::vector<unsigned char>>::'

    def body(W):
        q = Q()
        item = Obj('item', 24)
        res = Obj('result', 24)
        o = Obj('queue', 400)

        def inv(env, g, st, ex, pre):
            return [('the lock is held', z3.BoolVal(st.ghost['held'])), ('nothing was taken', z3.BoolVal(not st.events))]

        def havoc(env, g, st, ex):
            q.change(st)
            return []
        f = W.fn(cls + sig)
        wait = [LoopSpec(lambda fn: fn.dem == cls + sig, 0, [], inv, havoc=havoc)] if method in ('Pop', 'PopFront', 'Peek') else []
        ex = W.ex(models=q.ms + HEAP, loops=wait)
        st = State()
        st.ghost.update(held=False, len=z3.BitVec('len', 64))
        args = {'Pop': [Ptr(res), Ptr(o)], 'PushBack': [Ptr(o), Ptr(item)]}.get(method, [Ptr(o)])
        n = 0
        for s, r in ex.run(f, st, args):
            if r[0] == 'cut':
                continue
            n += 1
            W.ob('returns', r[0] == 'ret', str(r))
            W.ob('ensures the lock is released', not s.ghost['held'])
            kinds = [e[0] for e in s.events if e[0] in ('pop', 'push', 'copy')]
            if method == 'Pop':
                cp = [e for e in s.events if e[0] == 'copy']
                W.ob('ensures exactly one element is removed', kinds.count('pop') == 1 and 'push' not in kinds, str(kinds))
                W.ob('ensures the result is the element removed', len(cp) == 1 and cp[0][1] is res and cp[0][2] == ('element', 0) and cp[0][3] == 0, str(kinds))
            elif method == 'PopFront':
                W.ob('ensures exactly one element is removed', kinds == ['pop'], str(kinds))
            elif method == 'PushBack':
                pu = [e for e in s.events if e[0] == 'push']
                W.ob('ensures the item is appended exactly once', kinds == ['push'] and pu[0][1] is item, str(kinds))
                W.ob('ensures a waiting reader is woken', ('notify',) in s.events)
            else:
                sz = [e for e in s.events if e[0] == 'size']
                W.ob('ensures the queue is unchanged', not kinds, str(kinds))
                if len(sz) == 1:
                    W.goal(ex, s, r[1] == sz[0][1], 'ensures the result is the length')
                else:
                    raise Unsupported('size() is not asked once')
        if not n and not ex.failures:
            raise Unsupported('no path returns')
        W.finish(ex)
    return body


MEM += [WC('InMemoryChannel::Send', SRC, mem_send), WC('InMemoryChannel::Recv', SRC, mem_recv),
        WC('SharedDeque::Pop()', SRC, deque('Pop', 'Pop()')), WC('SharedDeque::PopFront()', SRC, deque('PopFront', 'PopFront()')),
        WC('SharedDeque::PushBack(const T&)', SRC, deque('PushBack', 'PushBack(std::vector<unsigned char> const&)')),
        WC('SharedDeque::PushBack(T&&)', SRC, deque('PushBack', 'PushBack(std::vector<unsigned char>&&)')),
        WC('SharedDeque::Size()', SRC, deque('Size', 'Size()'))]


# ------------------------------------------------------------------ P15: typed messages
ELEM = {'FF61': 8, 'FF127': 16}
LIMIT = 1 << 25
TV = 'scl::TcpChannel'


class Wire:
    """a channel whose virtual Send / Recv are given by the contract of P16 / P17: they move exactly the bytes
    of the buffer they are given; every call is recorded with the bytes it carries"""

    def __init__(self, W):
        self.W = W
        self.o = Obj('channel', 64)
        self.vt = Obj('vtable', 64)
        self.o.ptrs = {0: Ptr(self.vt, 0)}
        self.vt.ptrs = {}
        for k, f in enumerate(self.slots()):
            self.vt.ptrs[8 * k] = FnPtr(f)
        self.models = [(lambda fn, ins: fn is not None and fn.dem == TV + '::Send(unsigned char const*, unsigned long)', self.send),
                       (lambda fn, ins: fn is not None and fn.dem == TV + '::Recv(unsigned char*, unsigned long)', self.recv)]

    def slots(self):
        g = self.W.mod.global_byname('_ZTVN3scl10TcpChannelE')
        out = []

        def walk(c):
            if c.kind == 'agg':
                for x in c.ops:
                    walk(x)
            elif c.kind == 'func':
                out.append(c.val)
        walk(self.W.mod.global_init(g))
        if not out:
            raise Unsupported('virtual table not found')
        return out

    def send(self, ex, st, a, ins):
        ex.oblige(st, z3.BoolVal(a[0].obj is self.o), 'the message is sent on this channel')
        src, n = a[1], a[2]
        c = ex.dom.cval(n)
        x = ex.content(st, src.obj)
        if c is not None and isinstance(x, dict):
            data = [ex.load(st, Ptr(src.obj, ex.padd(src.off, i)), _T(8)) for i in range(c)]
            st.events.append(('send', c, z3.simplify(z3.Concat(*data[::-1])) if c > 1 else data[0], None))
        else:
            st.events.append(('send', n, Fun(rdshift(x, z64(src.off))) if isinstance(x, Fun) else None, src.obj))
        return [(st, JUNK)]

    def recv(self, ex, st, a, ins):
        ex.oblige(st, z3.BoolVal(a[0].obj is self.o), 'the message is received from this channel')
        dst, n = a[1], a[2]
        c = ex.dom.cval(n)
        x = ex.content(st, dst.obj)
        if c is not None and isinstance(x, dict):
            v = z3.FreshConst(z3.BitVecSort(8 * c), 'wire')
            ex.store(st, dst, v, c)
            st.events.append(('recv', c, v, None))
        elif isinstance(x, Fun):
            b = fresh_bytes('wire')
            st.mem[dst.obj] = x.copy(z64(dst.off), n, b, B64(0))
            st.events.append(('recv', n, b, dst.obj))
        else:
            raise Unsupported('receive of symbolic size into an object')
        return [(st, JUNK)]


def vecobj(name, esz):
    """a Vec / std::vector<T> of symbolic length: (object, buffer, length)"""
    o, buf = Obj(name, 24), byte_obj(name + '.data')
    n = z3.BitVec('len_' + name, 64)
    o.ptrs = {0: Ptr(buf, 0), 8: Ptr(buf, n * esz), 16: Ptr(buf, n * esz)}
    return o, buf, n


def m_write(which, F):
    """contract of Vec::Write / Mat::Write (P08): the bytes of the elements, in order, and nothing else"""
    def h(ex, st, a, ins):
        st.events.append(('write', a[0].obj, a[1].obj, a[1].off))
        enc = ex.encoding
        x = ex.content(st, a[1].obj)
        st.mem[a[1].obj] = x.copy(z64(a[1].off), ex.nbytes, enc, B64(0))
        return [(st, JUNK)]
    return (dem('scl::%s<%s>::Write(unsigned char*) const' % (which, F)), h)


def msg_send(which, F):
    esz = ELEM[F]

    def body(W):
        w = Wire(W)
        J = z3.BitVec('j', 64)
        st = State()
        if which == 'Vec':
            o, buf, n = vecobj('vec', esz)
            hdr = [n]
            dims = [z3.ULT(n, B64(1 << 32))]
            nb = n * esz
        else:
            size, fs = fields(W, 'scl::Mat<%s>' % F)
            o, buf = Obj('mat', size), byte_obj('mat.data')
            rows, cols = z3.BitVec('rows', 64), z3.BitVec('cols', 64)
            hdr = [rows, cols]
            nb = rows * cols * esz
            # representation invariant of Mat: the value vector has rows * cols entries; dimensions on the wire are 32 bit
            dims = [z3.ULT(rows, B64(1 << 28)), z3.ULT(cols, B64(1 << 28))]
            o.init[(fs['mRows'], 8)], o.init[(fs['mCols'], 8)] = rows, cols
            k = fs['mValues']
            o.ptrs = {k: Ptr(buf, 0), k + 8: Ptr(buf, rows * cols * esz), k + 16: Ptr(buf, rows * cols * esz)}
        ex = W.ex(models=w.models + [m_write(which, F)] + HEAP)
        ex.encoding, ex.nbytes = fresh_bytes('encoding'), nb
        st.cond = dims
        for s, r in ex.run(W.fn('void scl::Channel::Send<%s>(scl::%s<%s> const&)' % (F, which, F)), st, [Ptr(w.o), Ptr(o)]):
            if r[0] != 'ret':
                W.ob('returns', False, str(r))
                continue
            ev = [e for e in s.events if e[0] == 'send']
            W.ob('ensures the message is its dimensions and its content', len(ev) == len(hdr) + 1 and all(e[1] == 4 for e in ev[:-1]), str([e[1] for e in ev]))
            if len(ev) != len(hdr) + 1 or any(e[1] != 4 for e in ev[:-1]):
                continue
            for e, h in zip(ev, hdr):
                W.goal(ex, s, z3.ZeroExt(32, e[2]) == h, 'ensures the dimensions are sent')
            W.goal(ex, s, ev[-1][1] == nb, 'ensures the content has its exact size')
            W.ob('the content is written once', len([e for e in s.events if e[0] == 'write']) == 1)
            if ev[-1][2] is None:
                raise Unsupported('content sent from an untracked buffer')
            W.goal(ex, s, z3.Implies(z3.ULT(J, nb), ev[-1][2](J) == ex.encoding(J)), 'ensures the content is the encoding of the elements')
            al = [e for e in s.events if e[0] == 'alloc']
            W.ob('one buffer', len(al) == 1)
            W.goal(ex, s, z3.UGE(al[0][1], nb), 'the buffer is large enough')
        W.finish(ex)
    return body


def msg_recv(which, F):
    esz = ELEM[F]
    read = 'scl::%s<%s>::Read(%sunsigned long, unsigned char const*)' % (which, F, 'unsigned long, ' if which == 'Mat' else '')

    def body(W):
        w = Wire(W)

        def m_read(ex, st, a, ins):
            st.events.append(('read', a[0].obj, a[1:-1], a[-1]))
            a[0].obj.val = 'read'
            return [(st, JUNK)]

        def m_move(ex, st, a, ins):
            st.events.append(('assign', a[0].obj, a[1].obj))
            return [(st, a[0])]
        ms = [(dem(read), m_read), (dem('scl::%s<%s>::operator=(scl::%s<%s>&&)' % (which, F, which, F)), m_move),
              (dem('scl::%s<%s>::operator=(scl::%s<%s> const&)' % (which, F, which, F)), m_move), (dem('scl::%s<%s>::~%s()' % (which, F, which)), noop)]
        ex = W.ex(models=w.models + ms + HEAP)
        o = Obj('dst', 64)
        nd = 1 if which == 'Vec' else 2
        st = State()
        for s, r in ex.run(W.fn('void scl::Channel::Recv<%s>(scl::%s<%s>&)' % (F, which, F)), st, [Ptr(w.o), Ptr(o)]):
            rv = [e for e in s.events if e[0] == 'recv']
            al = [e for e in s.events if e[0] == 'alloc']
            rd = [e for e in s.events if e[0] == 'read']
            if len(rv) < nd or any(e[1] != 4 for e in rv[:nd]):
                W.ob('the dimensions are received first', False, str([e[1] for e in rv]))
                continue
            dim = [z3.ZeroExt(32, e[2]) for e in rv[:nd]]
            claimed = dim[0] if nd == 1 else dim[0] * dim[1]
            if r[0] == 'throw':
                W.ob('throws std::logic_error', r[1] == 'std::logic_error', str(r))
                W.goal(ex, s, z3.UGT(claimed, LIMIT), 'rejects only messages above the size limit')
                W.ob('rejects before allocating or receiving the content', not al and len(rv) == nd and not rd)
                continue
            W.goal(ex, s, z3.ULE(claimed, LIMIT), 'a message above the size limit is rejected')
            W.ob('ensures one content of the claimed size is received', len(rv) == nd + 1 and len(al) == 1 and len(rd) == 1, '%d %d %d' % (len(rv), len(al), len(rd)))
            if len(rv) != nd + 1 or len(al) != 1 or len(rd) != 1:
                continue
            nb = claimed * esz
            W.goal(ex, s, rv[nd][1] == nb, 'ensures exactly the bytes of the claimed size are consumed')
            W.goal(ex, s, al[0][1] == nb, 'ensures the buffer has that size')
            W.ob('ensures the content is received into the buffer', rv[nd][3] is al[0][2])
            W.goal(ex, s, z3.And(*[z3.BoolVal(len(rd[0][2]) == nd)] + [a == b for a, b in zip(rd[0][2], dim)]), 'ensures the shape read is the one received')
            W.ob('ensures the elements are read from the start of the buffer', rd[0][3].obj is al[0][2] and rd[0][3].off == 0)
            asn = [e for e in s.events if e[0] == 'assign']
            W.ob('ensures the result is what was read', len(asn) == 1 and asn[0][1] is o and asn[0][2] is rd[0][1])
        W.finish(ex)
    return body


def msg_scalar(T, dem_, bytes_, send):
    def body(W):
        w = Wire(W)
        ex = W.ex(models=w.models + HEAP)
        o = Obj('value', bytes_)
        st = State()
        v = ex.load(st, Ptr(o, 0), _T(8 * bytes_))
        f = 'void scl::Channel::%s<%s, true>(%s%s&)' % ('Send' if send else 'Recv', dem_, dem_, ' const' if send else '')
        for s, r in ex.run(W.fn(f), st, [Ptr(w.o), Ptr(o)]):
            ev = [e for e in s.events if e[0] in ('send', 'recv')]
            W.ob('ensures one transfer of sizeof(T) bytes', len(ev) == 1 and ev[0][0] == ('send' if send else 'recv') and ev[0][1] == bytes_, str([e[:2] for e in ev]))
            if len(ev) == 1 and ev[0][1] == bytes_:
                W.goal(ex, s, (v if send else ex.load(s, Ptr(o, 0), _T(8 * bytes_))) == ev[0][2], 'ensures the bytes of the value are transferred')
        W.finish(ex)
    return body


def msg_bytes(T, esz, send):
    def body(W):
        w = Wire(W)
        ex = W.ex(models=w.models + HEAP)
        o, buf, n = vecobj('v', esz)
        J = z3.BitVec('j', 64)
        st = State()
        st.cond = [z3.ULT(n, BIG / 16)]
        f = 'void scl::Channel::%s<%s, true>(std::vector<%s>%s&)' % ('Send' if send else 'Recv', T, T, ' const' if send else '')
        for s, r in ex.run(W.fn(f), st, [Ptr(w.o), Ptr(o)]):
            ev = [e for e in s.events if e[0] in ('send', 'recv')]
            W.ob('ensures one transfer, of the vector\'s buffer', len(ev) == 1 and ev[0][3] is buf, str(len(ev)))
            if len(ev) == 1 and ev[0][2] is not None:
                W.goal(ex, s, ev[0][1] == n * esz, 'ensures exactly the elements are transferred')
                W.goal(ex, s, z3.Implies(z3.ULT(J, n * esz), ex.content(s, buf)(J) == ev[0][2](J)), 'ensures the content is transferred in order')
        W.finish(ex)
    return body


for _F in ('FF61', 'FF127'):
    for _w in ('Vec', 'Mat'):
        MSG.append(WC('Channel::Send(const %s<%s>&)' % (_w, _F), SRC, msg_send(_w, _F)))
        MSG.append(WC('Channel::Recv(%s<%s>&)' % (_w, _F), SRC, msg_recv(_w, _F)))
for _d, _b in (('unsigned int', 4), ('unsigned long', 8), ('FF61', 8), ('FF127', 16)):
    for _s in (True, False):
        MSG.append(WC('Channel::%s<%s>' % ('Send' if _s else 'Recv', _d), SRC, msg_scalar(_d, _d, _b, _s)))
for _d, _b in (('unsigned char', 1), ('unsigned short', 2)):
    for _s in (True, False):
        MSG.append(WC('Channel::%s(std::vector<%s>&)' % ('Send' if _s else 'Recv', _d), SRC, msg_bytes(_d, _b, _s)))

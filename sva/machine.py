"""Abstract machine: flow-sensitive, interprocedural abstract interpretation of
the linked IR.  Undecided branches are followed on both sides up to the
immediate post-dominator and the two abstract states are joined there (gated
values for scalars that differ); loops whose bound is known are unrolled, a
loop with an unknown bound makes the scenario unresolved.  Nothing is executed
and no solver is involved.
"""
import re
import struct
import sys

from . import terms as D
from .terms import Term, mk_undef
from .ir import (P, PTR, VOID, Func, IRError, tokenize, unescape, float_const, DBG, MDSUF, CONSTWORDS)

M64 = (1 << 64) - 1
RET, FORK, SWITCH = -1, -2, -3


class IRThrow(Exception):
    def __init__(self, obj, tinfo, tname):
        self.obj = obj
        self.tinfo = tinfo
        self.tname = tname


class PathDead(Exception):
    pass


class Unresolved(Exception):
    pass


class Obj:
    __slots__ = ('size', 'cells', 'fill', 'own', 'name', 'alive', 'kind', 'loc')

    def __init__(self, size, fill, own, name, kind):
        self.size = size
        self.cells = {}
        self.fill = fill
        self.own = own
        self.name = name
        self.alive = True
        self.kind = kind
        self.loc = 0

    def clone(self, own):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.cells = dict(self.cells)
        o.fill = self.fill
        o.own = own
        o.name = self.name
        o.alive = self.alive
        o.kind = self.kind
        o.loc = self.loc
        return o


class FnTable(dict):
    def __init__(self, m):
        self.m = m

    def __missing__(self, name):
        f = self.m.make_callable(name)
        self[name] = f
        return f


class Machine:
    def __init__(self, mod, repo_prefix='/repo/'):
        self.mod = mod
        self.repo_prefix = repo_prefix
        self.objs = {}
        self.tok = object()
        self.side = {}
        self.facts = {}
        self.nextid = 1
        self.gid = {}
        self.idg = {}
        self.loc = 0
        self.depth = 0
        self.stack = []
        self.events = []
        self.maythrow = []
        self.steps = 0
        self.max_steps = 60_000_000
        self.forks = 0
        self.joins = 0
        self.forkdepth = {}
        self.funcs = {}
        self.installed = set()
        self.caught = []
        self.covered = {}
        self.typeids = {}
        self.FN = FnTable(self)
        self.ext = {}
        self.ret = None
        self.fk = None
        self.obl = []
        self.params = {}
        for nm in list(mod.globals) + list(mod.fn_text) + list(mod.decls) + list(mod.aliases):
            self.gid[nm] = self.nextid
            self.idg[self.nextid] = nm
            self.nextid += 1
        self.storeloc = {}

    # ------------------------------------------------------------ addresses
    def gaddr(self, name):
        a = self.mod.aliases.get(name)
        if a is not None:
            m = re.search(r'ptr (@(?:"[^"]*"|[-\w.$]+))\s*$', a.split(', !')[0])
            if m:
                return self.gaddr(m.group(1))
            raise Unresolved('alias ' + name)
        i = self.gid.get(name)
        if i is None:
            i = self.gid[name] = self.nextid
            self.idg[i] = name
            self.nextid += 1
        return i << 32

    def new(self, size, name, kind, fill=None):
        i = self.nextid
        self.nextid += 1
        o = Obj(size, fill, self.tok, name, kind)
        o.loc = self.loc
        self.objs[i] = o
        return i << 32

    def obj(self, i):
        o = self.objs.get(i)
        if o is None:
            nm = self.idg.get(i)
            if nm is None:
                return None
            if nm in self.mod.globals:
                return self.materialize(i, nm)
            return None
        return o

    def materialize(self, i, nm):
        txt = self.mod.globals[nm]
        txt = MDSUF.sub('', DBG.sub('', txt))
        toks = tokenize(txt)
        p = P(self.mod, toks)
        ext = False
        while p.peek() not in ('global', 'constant'):
            t = p.next()
            if t == 'external' or t == 'extern_weak':
                ext = True
            if p.peek() == '(':
                while p.next() != ')':
                    pass
        p.next()
        ty = p.type()
        o = Obj(0, 0, self.tok, nm, 'global')
        if ext:
            o.size = 1 << 20
            o.kind = 'external'
        else:
            o.size = self.mod.size(ty)
            self.objs[i] = o
            v = self.const(p, ty)
            self.init(o, 0, ty, v)
        self.objs[i] = o
        return o

    def init(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if v is None:      # zeroinitializer
            return
        if k == 's':
            offs, _ = self.mod.layout(ty)
            for f, fo, x in zip(ty[1], offs, v):
                self.init(o, off + fo, f, x)
        elif k == 'a':
            if v.__class__ is bytes:
                for j, b in enumerate(v):
                    if b:
                        o.cells[off + j] = (1, b)
                return
            es = self.mod.size(ty[2])
            for j, x in enumerate(v):
                self.init(o, off + j * es, ty[2], x)
        else:
            if v.__class__ is int and v == 0:
                return
            o.cells[off] = (self.mod.size(ty), v)

    # ------------------------------------------------------------ constants
    def const(self, p, ty):
        """constant value of type ty at the cursor (None = all zero)"""
        p.skip_attrs()
        t = p.next()
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        if t == 'null' or t == 'none':
            return 0
        if t in ('undef', 'poison'):
            return self.zero_or_undef(ty)
        if t == 'zeroinitializer':
            r = self.mod.resolve(ty)
            if r[0] in ('s', 'a'):
                return None
            return 0.0 if r[0] == 'f' else 0
        if t[0] == '@':
            return self.gaddr(t)
        if t.startswith('c"'):
            return unescape(t[2:-1])
        if t == '{' or t == '<' or t == '[':
            if t == '<':
                p.expect('{')
            out = []
            end = ']' if t == '[' else '}'
            while not p.eat(end):
                et = p.type()
                out.append(self.const(p, et))
                p.eat(',')
            if t == '<':
                p.expect('>')
            return tuple(out)
        if t == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            p.expect('(')
            bt = p.type()
            p.expect(',')
            p.type()
            base = self.const(p, PTR)
            idx = []
            while p.eat(','):
                p.eat('inrange')
                it = p.type()
                idx.append(D.sgn(self.const(p, it), it[1]))
            p.expect(')')
            return (base + self.gep_off(bt, idx)) & M64
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            p.expect('(')
            st = p.type()
            v = self.const(p, st)
            p.expect('to')
            tt = p.type()
            p.expect(')')
            if tt[0] == 'i':
                v &= D.mask(tt[1])
            return v
        if t in ('add', 'sub', 'mul', 'xor'):
            while p.peek() != '(':
                p.next()
            p.expect('(')
            t1 = p.type()
            a = self.const(p, t1)
            p.expect(',')
            p.type()
            b = self.const(p, t1)
            p.expect(')')
            w = t1[1] if t1[0] == 'i' else 64
            return getattr(D, t if t != 'xor' else 'xor')(a, b, w)
        r = self.mod.resolve(ty)
        if r[0] == 'f':
            return float_const(t, r[1])
        if r[0] == 'i':
            return int(t) & D.mask(r[1])
        raise IRError('const %r of %r' % (t, ty))

    def zero_or_undef(self, ty):
        r = self.mod.resolve(ty)
        if r[0] == 's':
            return tuple(self.zero_or_undef(f) for f in r[1])
        if r[0] == 'a':
            return tuple(self.zero_or_undef(r[2]) for _ in range(r[1]))
        if r[0] == 'f':
            return mk_undef(r[1], True, 'undefined value')
        return mk_undef(64 if r[0] == 'p' else r[1], False, 'undefined value')

    def zero(self, ty):
        r = self.mod.resolve(ty)
        if r[0] == 's':
            return tuple(self.zero(f) for f in r[1])
        if r[0] == 'a':
            return tuple(self.zero(r[2]) for _ in range(r[1]))
        return 0.0 if r[0] == 'f' else 0

    def gep_off(self, ty, idx):
        off = idx[0] * self.mod.size(ty)
        for i in idx[1:]:
            r = self.mod.resolve(ty)
            if r[0] == 's':
                off += self.mod.layout(ty if ty[0] == 'n' else r)[0][i]
                ty = r[1][i]
            else:
                ty = r[2]
                off += i * self.mod.size(ty)
        return off

    # ------------------------------------------------------------ diagnostics
    def where(self, loc=None):
        """innermost source position inside the repository (or harness)"""
        locs = [self.loc if loc is None else loc] + [l for _, l in reversed(self.stack)]
        best = None
        for l in locs:
            f, n, fn = self.mod.loc(l)
            if best is None:
                best = (f, n, fn)
            if self.repo_prefix in f:
                return (f[f.index(self.repo_prefix) + len(self.repo_prefix):], n, fn)
        return best

    def value_site(self, v):
        """repository position that last stored the abstract value v"""
        if v.__class__ is not Term:
            return None
        for t in D.subterms(v):
            locs = self.storeloc.get(t.uid)
            if locs:
                for l in locs:
                    f, n, fn = self.mod.loc(l)
                    if self.repo_prefix in f:
                        return (f[f.index(self.repo_prefix) + len(self.repo_prefix):], n, fn)
        return None

    def trail(self):
        out = []
        for l in [self.loc] + [l for _, l in reversed(self.stack)]:
            f, n, fn = self.mod.loc(l)
            if self.repo_prefix in f:
                s = '%s:%d (%s)' % (f[f.index(self.repo_prefix) + len(self.repo_prefix):], n, fn)
                if not out or out[-1] != s:
                    out.append(s)
        return out[:8]

    def uninitialised(self, atom):
        """a value that depends on nothing but memory that was never written"""
        sup = D.support(atom)
        return bool(sup) and all(x.op == 'undef' and str(x.args[1]).startswith('memory of ') for x in sup.values())

    def event(self, kind, msg):
        f, n, fn = self.where()
        self.events.append(dict(kind=kind, msg=msg, file=f, line=n, func=fn, trail=self.trail(),
                                facts=list(self.facts.values())))

    def die(self, kind, msg):
        self.event(kind, msg)
        raise PathDead(msg)

    # ------------------------------------------------------------ memory
    def wobj(self, i):
        o = self.objs.get(i)
        if o is None:
            o = self.obj(i)
            if o is None:
                return None
        if o.own is not self.tok:
            o = o.clone(self.tok)
            self.objs[i] = o
        return o

    def check(self, o, i, off, n, what):
        if o is None:
            if i == 0:
                self.die('null-deref', '%s through a null pointer' % what)
            if i in self.idg:
                self.die('bad-pointer', '%s through a pointer to function %s' % (what, self.idg[i]))
            self.die('dangling', '%s of %d bytes through a pointer to an object that no longer exists' % (what, n))
        if not o.alive:
            self.die('use-after-free', '%s of freed %s' % (what, o.name))
        if o.size is not None and o.size.__class__ is int and off + n > o.size:
            if off > 0x80000000:
                off -= 1 << 32
            self.die('out-of-bounds', '%s of %d bytes at offset %d of %s (%d bytes)' % (what, n, off, o.name, o.size))

    def byte(self, o, off):
        """abstract byte at a known in-range offset"""
        cells = o.cells
        c = cells.get(off)
        if c is not None:
            n, v = c
            if n == 1:
                return v if v.__class__ is int or not v.f else D.f2i(v, 8)
            if v.__class__ is int:
                return v & 255
            return self.slice(v, n, 0)
        for k in range(1, 16):
            c = cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    v = c[1]
                    if v.__class__ is int:
                        return (v >> (8 * k)) & 255
                    return self.slice(v, c[0], k)
                break
        f = o.fill
        if f.__class__ is int:
            return f
        if f is None:
            v = mk_undef(8, False, 'memory of %s' % o.name)
            cells[off] = (1, v)
            return v
        v = f(off)
        if v.__class__ is not int:
            cells[off] = (1, v)
        return v

    @staticmethod
    def slice(v, n, k):
        if v.__class__ is float:
            return (D.f2i(v, n * 8) >> (8 * k)) & 255
        b = D.to_bits(v, n * 8)
        return D.mk_bits(b[8 * k:8 * k + 8])

    def load(self, a, n):
        """integer/pointer load of n bytes"""
        if a.__class__ is not int:
            return self.load_sym(a, n)
        i = a >> 32
        o = self.objs.get(i)
        off = a & 0xffffffff
        if o is not None:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if v.__class__ is int or (v.__class__ is Term and not v.f):
                    return v
                return D.f2i(v, n * 8)
        else:
            o = self.obj(i)
        if o is None or not o.alive or off + n > o.size:
            self.check(o, i, off, n, 'read')
        return self.load_slow(o, off, n)

    def load_slow(self, o, off, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if v.__class__ is int or (v.__class__ is Term and not v.f):
                return v
            return D.f2i(v, n * 8)
        if o.own is not self.tok and o.fill is None:
            pass
        if o.fill is None and n > 1:
            # wholly uninitialised word
            for k in range(off - 15, off + n):
                c = cells.get(k)
                if c is not None and k + c[0] > off:
                    break
            else:
                v = mk_undef(n * 8, False, 'memory of %s' % o.name)
                cells[off] = (n, v)
                return v
        bs = [self.byte(o, off + k) for k in range(n)]
        for b in bs:
            if b.__class__ is not int:
                break
        else:
            r = 0
            for k in range(n):
                r |= bs[k] << (8 * k)
            return r
        bits = ()
        for b in bs:
            bits += D.to_bits(b, 8)
        return D.mk_bits(bits)

    def loadf(self, a, n):
        if a.__class__ is not int:
            return D.i2f(self.load_sym(a, n), n * 8)
        i = a >> 32
        o = self.objs.get(i)
        off = a & 0xffffffff
        if o is not None:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                return D.i2f(c[1], n * 8)
        return D.i2f(self.load(a, n), n * 8)

    def addresses(self, a, limit=10):
        """possible concrete addresses of a symbolic address: [(condition bits, addr)]"""
        bases = []
        c, d = D.to_lin(a, 64)
        bases = sorted(d)
        if len(bases) > limit:
            raise Unresolved('address depends on too many unknown bits')
        known = {}
        for fb in self.facts:
            known[fb & ~1] = 1 ^ (fb & 1)
        out = []
        idx = D.mk_bits(tuple(bases)) if bases else 0
        for v in range(1 << len(bases)):
            adr = c
            ok = True
            for k, b in enumerate(bases):
                x = (v >> k) & 1
                if known.get(b, x) != x:
                    ok = False
                if x:
                    adr += d[b]
            out.append((v, adr & M64, ok))
        return idx, bases, out

    def load_sym(self, a, n):
        idx, bases, lst = self.addresses(a)
        vals = []
        anyok = False
        ev = None
        for v, adr, ok in lst:
            i = adr >> 32
            o = self.obj(i)
            off = adr & 0xffffffff
            if not ok or o is None or not o.alive or off + n > o.size:
                if ok and ev is None:
                    ev = (i, o, off)
                vals.append(None)
                continue
            anyok = True
            vals.append(self.load_slow(o, off, n))
        if not anyok:
            if ev:
                self.check(ev[1], ev[0], ev[2], n, 'read')
            raise Unresolved('symbolic address')
        if ev is not None:
            i, o, off = ev
            self.event('possible-oob', 'read of %d bytes at an input-dependent address: %s' % (
                n, 'offset %d of %s (%s bytes)' % (off, o.name, o.size) if o else 'outside every object'))
        first = next(x for x in vals if x is not None)
        vals = tuple(first if x is None else x for x in vals)
        if all(x is first or (x.__class__ is int and x == first) for x in vals):
            return first
        if len(bases) == 1:
            return D.ite(D.mk_bits((bases[0],)), vals[1], vals[0], n * 8)
        return D.table(idx, vals, n * 8)

    def explode(self, o, off):
        n, v = o.cells.pop(off)
        if n == 1:
            o.cells[off] = (1, v)
            return
        if v.__class__ is int:
            for k in range(n):
                o.cells[off + k] = (1, (v >> (8 * k)) & 255)
        else:
            for k in range(n):
                o.cells[off + k] = (1, self.slice(v, n, k))

    def clear(self, o, off, n):
        cells = o.cells
        for k in range(1, 16):
            c = cells.get(off - k)
            if c is not None:
                if c[0] > k:
                    self.explode(o, off - k)
                break
        end = off + n
        if n > 64 and len(cells) < n:
            ks = [k for k in cells if off <= k < end]
        else:
            ks = [k for k in range(off, end) if k in cells]
        for k in ks:
            c = cells[k]
            if k + c[0] > end:
                self.explode(o, k)
        for k in ks:
            cells.pop(k, None)
        if n <= 64:
            for k in range(off, end):
                cells.pop(k, None)

    def store(self, a, n, v):
        if a.__class__ is not int:
            return self.store_sym(a, n, v)
        i = a >> 32
        o = self.objs.get(i)
        if o is None:
            o = self.obj(i)
        off = a & 0xffffffff
        if o is None or not o.alive or off + n > o.size:
            self.check(o, i, off, n, 'write')
        if o.own is not self.tok:
            o = o.clone(self.tok)
            self.objs[i] = o
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        o.cells[off] = (n, v)
        if v.__class__ is Term:
            self.storeloc[v.uid] = (self.loc,) + tuple(l for _, l in self.stack[-1:-8:-1])

    def store_sym(self, a, n, v):
        idx, bases, lst = self.addresses(a, 6)
        for val, adr, ok in lst:
            if not ok:
                continue
            i = adr >> 32
            o = self.obj(i)
            off = adr & 0xffffffff
            if o is None or not o.alive or off + n > o.size:
                self.event('possible-oob', 'write of %d bytes at an input-dependent address' % n)
                continue
            cond = D.eq(idx, val, len(bases))
            old = self.load_slow(o, off, n)
            if v.__class__ is float or (v.__class__ is Term and v.f):
                nv = D.ite(cond, D.f2i(v, n * 8), old, n * 8)
            else:
                nv = D.ite(cond, v, old, n * 8)
            self.store(adr, n, nv)

    def range_obj(self, a, n, what):
        if a.__class__ is not int:
            raise Unresolved('%s at a symbolic address' % what)
        i = a >> 32
        o = self.obj(i)
        off = a & 0xffffffff
        if n == 0:
            return i, o, off
        self.check(o, i, off, n, what)
        return i, o, off

    def memcpy(self, d, s, n):
        if n.__class__ is not int:
            raise Unresolved('memcpy of unknown length')
        if n == 0:
            return
        if n > 0x7fffffff:
            self.die('out-of-bounds', 'copy of %d bytes' % n)
        si, so, soff = self.range_obj(s, n, 'read')
        self.range_obj(d, n, 'write')
        got = []
        cells = so.cells
        k = soff
        end = soff + n
        c = None
        for q in range(1, 16):
            c = cells.get(soff - q)
            if c is not None:
                if c[0] > q:
                    for z in range(c[0] - q):
                        if k < end:
                            got.append((k, 1, self.byte(so, k)))
                            k += 1
                break
        while k < end:
            c = cells.get(k)
            if c is None:
                if so.fill is not None:
                    got.append((k, 1, self.byte(so, k)))
                k += 1
                continue
            m, v = c
            if k + m <= end:
                got.append((k, m, v))
                k += m
            else:
                while k < end:
                    got.append((k, 1, self.byte(so, k)))
                    k += 1
        di = d >> 32
        do = self.wobj(di)
        doff = d & 0xffffffff
        delta = doff - soff
        self.clear(do, doff, n)
        dc = do.cells
        if so.fill is None and do.fill is not None:
            have = set()
            for k, m, v in got:
                for z in range(m):
                    have.add(k + z)
            for k in range(soff, end):
                if k not in have:
                    dc[k + delta] = (1, mk_undef(8, False, 'memory of %s' % so.name))
        for k, m, v in got:
            dc[k + delta] = (m, v)

    def memset(self, d, v, n):
        if n.__class__ is not int:
            raise Unresolved('memset of unknown length')
        if n == 0:
            return
        if n > 0xffffffff:
            self.die('out-of-bounds', 'fill of %d bytes' % n)
        i, o, off = self.range_obj(d, n, 'write')
        o = self.wobj(i)
        if n > 1 << 20 and o.size - n <= 4096 and v.__class__ is int:
            # (nearly) the whole of a large object: one value stands for all
            rest = [(k, self.byte(o, k)) for k in range(off)]
            rest += [(k, self.byte(o, k)) for k in range(off + n, o.size)]
            o.cells.clear()
            for k, b in rest:
                o.cells[k] = (1, b)
            o.fill = v & 255
            return
        self.clear(o, off, n)
        if v.__class__ is int:
            v &= 255
            w = v * 0x0101010101010101
            k = 0
            while k + 8 <= n:
                o.cells[off + k] = (8, w)
                k += 8
            while k < n:
                o.cells[off + k] = (1, v)
                k += 1
        else:
            for k in range(n):
                o.cells[off + k] = (1, v)

    def read_bytes(self, a, n):
        i, o, off = self.range_obj(a, n, 'read')
        return [self.byte(o, off + k) for k in range(n)]

    def write_bytes(self, a, bs):
        i, o, off = self.range_obj(a, len(bs), 'write')
        if not bs:
            return
        o = self.wobj(i)
        self.clear(o, off, len(bs))
        for k, b in enumerate(bs):
            o.cells[off + k] = (1, b)

    def cstr(self, a):
        out = bytearray()
        while True:
            b = self.load(a + len(out), 1)
            if b.__class__ is not int:
                raise Unresolved('symbolic C string')
            if b == 0:
                return bytes(out)
            out.append(b)

    def stdstring(self, a):
        p = self.load(a, 8)
        n = self.load(a + 8, 8)
        if n.__class__ is not int:
            raise Unresolved('string of unknown length')
        return self.read_bytes(p, n)

    def pystring(self, a):
        b = self.stdstring(a)
        if any(x.__class__ is not int for x in b):
            raise Unresolved('symbolic string')
        return bytes(b).decode('latin-1')

    def write_string(self, a, data):
        n = len(data)
        if n < 16:
            p = a + 16
        else:
            p = self.new(n + 1, 'string', 'heap')
            self.store(a + 16, 8, n)
        self.store(a, 8, p)
        self.store(a + 8, 8, n)
        self.write_bytes(p, list(data) + [0])

    def load_t(self, a, ty):
        r = self.mod.resolve(ty)
        k = r[0]
        if k == 's':
            offs = self.mod.layout(ty if ty[0] == 'n' else r)[0]
            return tuple(self.load_t(a + o, f) for o, f in zip(offs, r[1]))
        if k == 'a':
            s = self.mod.size(r[2])
            return tuple(self.load_t(a + j * s, r[2]) for j in range(r[1]))
        if k == 'f':
            return self.loadf(a, r[1] // 8)
        if k == 'p':
            return self.load(a, 8)
        w = r[1]
        v = self.load(a, (w + 7) // 8)
        if w & 7:
            return D.trunc(v, (w + 7) // 8 * 8, w)
        return v

    def store_t(self, a, ty, v):
        r = self.mod.resolve(ty)
        k = r[0]
        if k == 's':
            offs = self.mod.layout(ty if ty[0] == 'n' else r)[0]
            for o, f, x in zip(offs, r[1], v):
                self.store_t(a + o, f, x)
        elif k == 'a':
            s = self.mod.size(r[2])
            for j, x in enumerate(v):
                self.store_t(a + j * s, r[2], x)
        else:
            w = self.mod.size(r)
            if k == 'i' and r[1] & 7 and v.__class__ is Term:
                v = D.zext(v, r[1], w * 8)
            self.store(a, w, v)

    # ------------------------------------------------------------ calls
    def make_callable(self, name):
        if name in self.mod.aliases:
            a = self.gaddr(name)
            return self.FN[self.idg[a >> 32]]
        e = self.ext.get(name)
        if e is not None:
            return lambda *args: e(self, *args)
        for rx, e in self.extrx:
            if rx.match(name):
                return lambda *args, e=e: e(self, *args)
        if name in self.mod.fn_text:
            return self.lazy(name)
        if name.startswith('@llvm.'):
            for pre, e in self.intrin:
                if name.startswith('@llvm.' + pre):
                    return lambda *args, e=e: e(self, name, *args)

        def unknown(*args):
            raise Unresolved('no model for external function %s' % name)
        return unknown

    def lazy(self, name):
        def first(*args):
            self.warm(name)
            return self.FN[name](*args)
        return lambda *args: (self.FN[name] if name in self.installed else first)(*args)

    def warm(self, name):
        if name in self.installed:
            return
        F = self.function(name)
        run = self.run

        def call(*args):
            return run(F, args)
        self.FN[name] = call
        self.installed.add(name)

    def function(self, name):
        F = self.funcs.get(name)
        if F is None:
            from .codegen import compile_function
            F = self.funcs[name] = compile_function(self, name)
        return F

    def call_ptr(self, a, *args):
        if a.__class__ is not int:
            return self.call_gated(a, args)
        i = a >> 32
        nm = self.idg.get(i)
        if i == 0:
            self.die('null-call', 'call through a null function pointer')
        if nm is None or a & 0xffffffff:
            self.die('bad-call', 'call through a pointer that is no function')
        return self.FN[nm](*args)

    def call_gated(self, a, args):
        """call through a pointer that depends on an undecided condition: both callees, joined"""
        try:
            c0, d = D.to_lin(a, 64)
        except Exception:
            raise Unresolved('call through an unknown function pointer')
        bases = sorted(d)
        if not bases or len(bases) > 3:
            raise Unresolved('call through an unknown function pointer')
        b = bases[0]

        def sub(x):
            r = c0 + (d[b] if x else 0)
            rest = {k: v for k, v in d.items() if k != b}
            if not rest:
                return r & M64
            t = r & M64
            for k, v in rest.items():
                t = D.ite(D.mk_bits((k,)), D.add(t, v & M64, 64), t, 64) if t.__class__ is int else None
                if t is None:
                    raise Unresolved('call through an unknown function pointer')
            return t
        if b in self.facts:
            return self.call_ptr(sub(1), *args)
        if b ^ 1 in self.facts:
            return self.call_ptr(sub(0), *args)
        base = (self.objs, self.side, self.facts)
        depth, nst, loc0, caught = self.depth, len(self.stack), self.loc, list(self.caught)
        res = []
        self.forks += 1
        for x in (1, 0):
            self.objs, self.side, self.facts = dict(base[0]), dict(base[1]), dict(base[2])
            fb = b if x else b ^ 1
            self.facts[fb] = D.mk_bits((fb,))
            self.tok = object()
            self.depth = depth
            del self.stack[nst:]
            self.loc = loc0
            self.caught = list(caught)
            try:
                v = self.call_ptr(sub(x), *args)
                res.append(('ret', v, None, self.objs, self.side, self.facts, self.loc))
            except IRThrow as e:
                e.where = getattr(e, 'where', None) or self.where()
                res.append(('throw', e, None, self.objs, self.side, self.facts, self.loc))
            except PathDead as e:
                res.append(('dead', e, None, self.objs, self.side, self.facts, self.loc))
        self.depth = depth
        del self.stack[nst:]
        self.loc = loc0
        self.tok = object()
        live = [x for x in res if x[0] == 'ret']
        for x in res:
            if x[0] == 'throw' and live:
                self.maythrow.append(dict(tname=x[1].tname, where=x[1].where, facts=list(x[5].values())))
        if len(live) < 2:
            x = live[0] if live else (res[0] if res[0][0] == 'throw' else res[1])
            self.objs, self.side, self.facts = x[3], x[4], x[5]
            if not live:
                raise x[1]
            return x[1]
        self.joins += 1
        cond = D.mk_bits((b,))
        self.join(cond, res[0], res[1], base)
        if res[0][1] is None or res[1][1] is None:
            return None
        return self.join_val(cond, res[0][1], res[1][1])

    def run(self, F, args):
        R = [None] * F.nregs
        n = 0
        for v in args:
            if n < F.nargs:
                R[n] = v
                n += 1
        fr = []
        R[-1] = fr
        if F.byval:
            for k, sz in F.byval:
                p = self.new(sz, 'by-value argument', 'stack')
                fr.append(p >> 32)
                self.memcpy(p, R[k], sz)
                R[k] = p
        self.depth += 1
        if self.depth > 400:
            self.depth -= 1
            raise Unresolved('call depth')
        self.stack.append((F, self.loc))
        if F.isrepo:
            self.lastfn = (F.defloc[0][F.defloc[0].index(self.repo_prefix) + len(self.repo_prefix):],) + tuple(F.defloc[1:])
            self.covered[F.name] = self.covered.get(F.name, 0) + 1
        try:
            kind, v = self.run_from(F, R, 0, -1, None, False)
        finally:
            self.depth -= 1
            _, self.loc = self.stack.pop()
            objs = self.objs
            for i in R[-1]:
                objs.pop(i, None)
        return v

    def run_from(self, F, R, b, prev, stop, skip):
        blocks = F.blocks
        phis = F.phis
        while True:
            if not skip:
                ph = phis[b]
                if ph is not None:
                    ph(R, prev)
                if b == stop:
                    return 'stop', None
            skip = False
            nxt = blocks[b](R)
            if nxt >= 0:
                prev = b
                b = nxt
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unresolved('step limit')
                continue
            if nxt == RET:
                return 'ret', self.ret
            # undecided branch
            cond, t, f = self.fk
            kind, v, nb = self.fork(F, R, b, cond, t, f, stop)
            if kind == 'go':
                prev = b
                b = nb
                skip = True
                if nb == stop:
                    return 'stop', None
                continue
            return kind, v

    def decide(self, c):
        """truth of a 1-bit value under the current facts, or None"""
        b = D.to_bits(c, 1)[0]
        if b <= 1:
            return b
        if b in self.facts:
            return 1
        if b ^ 1 in self.facts:
            return 0
        return None

    def ipdom(self, F):
        if F.ipdom is None:
            n = len(F.succ)
            EX = n
            succ = [list(s) for s in F.succ]
            for i in range(n):
                if F.succ[i] and F.succ[i][0] == 'ret':
                    succ[i] = [EX]
            reach = {EX}
            ch = True
            while ch:
                ch = False
                for i in range(n):
                    if i not in reach and any(s in reach for s in succ[i]):
                        reach.add(i)
                        ch = True
            pd = {EX: {EX}}
            allr = set(reach)
            for i in reach:
                if i != EX:
                    pd[i] = set(allr)
            ch = True
            order = sorted((i for i in reach if i != EX), reverse=True)
            while ch:
                ch = False
                for i in order:
                    ss = [pd[s] for s in succ[i] if s in reach]
                    new = set.intersection(*ss) | {i}
                    if new != pd[i]:
                        pd[i] = new
                        ch = True
            ip = {}
            for i in reach:
                if i == EX:
                    continue
                cand = pd[i] - {i}
                # nearest: the one postdominated by all others
                best = None
                for c in cand:
                    if len(pd[c]) == len(cand):
                        best = c
                ip[i] = best if best != EX else None
            F.ipdom = ip
        return F.ipdom

    def snapshot(self):
        return (self.objs, self.side, self.facts, self.tok)

    def fork(self, F, R, b, cond, t, f, stop):
        """follow both sides of an undecided branch and join"""
        key = (F.name, b)
        if f == -10:
            sw = self.swrest
            key = (F.name, b, D.to_bits(cond, 1)[0])
        fd = self.forkdepth
        d = fd.get(key, 0)
        if d > 40:
            raise Unresolved('loop with an unknown bound at %s:%d (%s)' % self.where())
        fd[key] = d + 1
        self.forks += 1
        try:
            ip = self.ipdom(F).get(b)
            if ip is None and stop is not None:
                ip2 = None
            else:
                ip2 = ip
            base = (self.objs, self.side, self.facts)
            cb = D.to_bits(cond, 1)[0]
            if cb > 1 and self.uninitialised(D.code_atom(cb)[0]):
                self.event('uninit-branch', 'branch on uninitialised memory')
            res = []
            depth, nst = self.depth, len(self.stack)
            loc0 = self.loc
            ncaught = list(self.caught)
            for val, tgt in ((1, t), (0, f)):
                self.objs = dict(base[0])
                self.side = dict(base[1])
                self.facts = dict(base[2])
                fb = cb if val else cb ^ 1
                self.facts[fb] = D.mk_bits((fb,))
                self.tok = object()
                self.depth = depth
                del self.stack[nst:]
                self.loc = loc0
                self.caught = list(ncaught)
                R2 = list(R)
                R2[-1] = list(R[-1])
                try:
                    if tgt == -10:
                        nxt = self.switch_fork(*sw, R2)
                        if nxt == -2:
                            c2, t2, f2 = self.fk
                            kind, v, nb = self.fork(F, R2, b, c2, t2, f2, ip2)
                            if kind == 'go':
                                kind = 'stop'
                        else:
                            kind, v = self.run_from(F, R2, nxt, b, ip2, False)
                    else:
                        kind, v = self.run_from(F, R2, tgt, b, ip2, False)
                    res.append((kind, v, R2, self.objs, self.side, self.facts, self.loc))
                except IRThrow as e:
                    res.append(('throw', e, R2, self.objs, self.side, self.facts, self.loc))
                    e.where = getattr(e, 'where', None) or self.where()
                except PathDead as e:
                    res.append(('dead', e, R2, self.objs, self.side, self.facts, self.loc))
            self.depth = depth
            del self.stack[nst:]
            A, B = res
            live = [x for x in res if x[0] in ('stop', 'ret')]
            for x in res:
                if x[0] == 'throw' and live:
                    self.maythrow.append(dict(tname=x[1].tname, where=x[1].where, facts=list(x[5].values())))
            self.tok = object()
            if not live:
                x = A if A[0] == 'throw' else B
                self.objs, self.side, self.facts, self.loc = x[3], x[4], x[5], x[6]
                raise x[1]
            if len(live) == 1:
                x = live[0]
                self.objs, self.side, self.facts, self.loc = x[3], x[4], x[5], x[6]
                R[:] = x[2]
                if x[0] == 'stop':
                    return 'go', None, ip2
                return 'ret', x[1], None
            if A[0] != B[0]:
                raise Unresolved('paths leave the function differently at %s:%d (%s)' % self.where())
            self.joins += 1
            self.join(cond, A, B, base)
            if A[0] == 'stop':
                for k in range(len(R) - 1):
                    x, y = A[2][k], B[2][k]
                    if x is y:
                        R[k] = x
                    elif x is None or y is None:
                        R[k] = None
                    else:
                        R[k] = self.join_val(cond, x, y)
                R[-1] = list(dict.fromkeys(A[2][-1] + B[2][-1]))
                return 'go', None, ip2
            R[-1] = list(dict.fromkeys(A[2][-1] + B[2][-1]))
            v = self.join_val(cond, A[1], B[1]) if A[1] is not None and B[1] is not None else None
            return 'ret', v, None
        finally:
            fd[key] = d

    WIDTHS = {}

    def join_val(self, c, x, y, n=None):
        if x is y:
            return x
        if x.__class__ is tuple:
            return tuple(self.join_val(c, p, q) for p, q in zip(x, y))
        fx = x.__class__ is float or (x.__class__ is Term and x.f)
        fy = y.__class__ is float or (y.__class__ is Term and y.f)
        if fx and fy:
            w = x.w if x.__class__ is Term else (y.w if y.__class__ is Term else 64)
            return D.ite(c, x, y, w, True)
        w = n * 8 if n else (x.w if x.__class__ is Term else (y.w if y.__class__ is Term else 64))
        if fx:
            x = D.f2i(x, w)
        if fy:
            y = D.f2i(y, w)
        return D.ite(c, x, y, w)

    def join(self, c, A, B, base):
        oa, ob = A[3], B[3]
        out = oa
        for i, o2 in ob.items():
            o1 = oa.get(i)
            if o1 is o2:
                continue
            if o1 is None:
                out[i] = o2
                continue
            out[i] = self.join_obj(c, o1, o2)
        self.objs = out
        sa, sb = A[4], B[4]
        side = {}
        for k in set(sa) | set(sb):
            x, y = sa.get(k), sb.get(k)
            if x == y or y is None:
                side[k] = x
            elif x is None:
                side[k] = y
            elif x.__class__ is tuple and len(x) == len(y):
                side[k] = tuple(p if (p is q or p == q) else
                                (self.join_val(c, p, q) if p.__class__ in (int, Term) and q.__class__ in (int, Term) else None)
                                for p, q in zip(x, y))
            else:
                side[k] = None
        self.side = side
        fa, fb = A[5], B[5]
        self.facts = {k: v for k, v in fa.items() if k in fb}

    def join_obj(self, c, a, b):
        if not a.alive or not b.alive:
            if a.alive == b.alive:
                return a
            o = (a if a.alive else b).clone(self.tok)
            return o
        o = a.clone(self.tok)
        bc = b.cells
        for k in list(o.cells):
            if k not in o.cells:
                continue
            x = o.cells[k]
            y = bc.get(k)
            if y is x:
                continue
            if y is not None and y[0] == x[0]:
                if y[1] is x[1] or (x[1].__class__ is int and y[1].__class__ is int and x[1] == y[1]):
                    continue
                o.cells[k] = (x[0], self.join_val(c, x[1], y[1], x[0]))
                continue
            # different shapes: byte by byte
            vals = [self.join_val(c, self.byte(a, k + z), self.byte(b, k + z), 1) for z in range(x[0])]
            self.clear(o, k, x[0])
            for z, v in enumerate(vals):
                o.cells[k + z] = (1, v)
        for k, y in bc.items():
            if k in a.cells and a.cells[k][0] == y[0]:
                continue
            vals = [self.join_val(c, self.byte(a, k + z), self.byte(b, k + z), 1) for z in range(y[0])]
            self.clear(o, k, y[0])
            for z, v in enumerate(vals):
                o.cells[k + z] = (1, v)
        return o

    # ------------------------------------------------------------ exceptions
    def tname(self, tinfo):
        if tinfo.__class__ is str:
            return tinfo
        nm = self.idg.get(tinfo >> 32, '?')
        return nm[1:].replace('_ZTI', '')

    STD_BASES = {
        'St12out_of_range': 'St11logic_error', 'St12length_error': 'St11logic_error',
        'St16invalid_argument': 'St11logic_error', 'St11logic_error': 'St9exception',
        'St12domain_error': 'St11logic_error', 'St13runtime_error': 'St9exception',
        'St11range_error': 'St13runtime_error', 'St14overflow_error': 'St13runtime_error',
        'St9bad_alloc': 'St9exception', 'St20bad_array_new_length': 'St9bad_alloc',
        'St17bad_function_call': 'St9exception', 'St18bad_variant_access': 'St9exception',
        'St19bad_optional_access': 'St9exception', 'St8bad_cast': 'St9exception',
        'NSt8ios_base7failureB5cxx11E': 'St12system_error', 'St12system_error': 'St13runtime_error',
    }

    def bases(self, tinfo):
        """type names along the inheritance chain, most derived first"""
        out = []
        todo = [tinfo]
        while todo:
            t = todo.pop(0)
            if t.__class__ is str:
                out.append(t)
                b = self.STD_BASES.get(t)
                if b:
                    todo.append(b)
                continue
            nm = self.tname(t)
            if nm in out:
                continue
            out.append(nm)
            o = self.obj(t >> 32)
            if o is not None and o.kind != 'external':
                vt = o.cells.get(0)
                vn = self.idg.get(vt[1] >> 32, '') if vt else ''
                if 'si_class' in vn:
                    todo.append(self.load(t + 16, 8))
                elif 'vmi_class' in vn:
                    n = self.load(t + 20, 4)
                    for k in range(n):
                        todo.append(self.load(t + 24 + 16 * k, 8))
            elif nm in self.STD_BASES:
                todo.append(self.STD_BASES[nm])
        return out

    def throw_std(self, tname):
        p = self.new(32, 'exception object', 'heap', 0)
        raise IRThrow(p, tname, tname)

    def landing(self, e, clauses, cleanup):
        """selector for a landing pad, or None when it is not entered"""
        names = self.bases(e.tinfo)
        for kind, v in clauses:
            if kind == 'catch':
                if v == 0:
                    return self.typeid(0)
                if self.tname(v) in names:
                    return self.typeid(v)
            else:
                return 0xffffffff
        return 0 if cleanup else None

    def typeid(self, a):
        i = self.typeids.get(a)
        if i is None:
            i = self.typeids[a] = len(self.typeids) + 1
        return i

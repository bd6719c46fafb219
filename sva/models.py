"""Models of the functions the linked program leaves undefined (C runtime, C++
ABI, stream library), and the observation interface used by the scenarios."""
import math
import re

from . import terms as D
from .terms import Term, mk_undef
from .machine import Machine, IRThrow, PathDead, Unresolved, M64
from .ir import tokenize, P, DBG, MDSUF


def need_int(v, what):
    if v.__class__ is not int:
        raise Unresolved('%s is not known' % what)
    return v


# ---------------------------------------------------------------- machine helpers
def alloca(self, size, frame, name):
    a = self.new(size, name, 'stack')
    frame.append(a >> 32)
    return a


def select(self, c, a, b, w, isf):
    d = self.decide(c)
    if d is not None:
        return a if d else b
    return D.ite(c, a, b, w, isf)


def insert(self, agg, v, idx):
    if agg is None:
        raise Unresolved('insertvalue')
    if agg.__class__ is not tuple:
        raise Unresolved('insertvalue into scalar')
    k = idx[0]
    if len(idx) > 1:
        v = insert(self, agg[k], v, idx[1:])
    return agg[:k] + (v,) + agg[k + 1:]


def land(self, e, block, fname):
    F = self.funcs[fname]
    cl = _clauses(self, F, block)
    sel = self.landing(e, cl[0], cl[1])
    if sel is None:
        return False
    self.lp = (e.obj, sel)
    self.inflight[e.obj] = e
    return True


_CL = {}


def _clauses(self, F, block):
    key = (F.name, block)
    r = self.clcache.get(key)
    if r is None:
        hdr, body = self.mod.fn_text[F.name]
        # find the landingpad text of that block
        k = -1
        lab = None
        for l, b in F.bindex.items():
            if b == block:
                lab = l[1:]
        i = 0
        while i < len(body) and not body[i].startswith(lab + ':'):
            i += 1
        while i < len(body) and ' = landingpad ' not in body[i]:
            i += 1
        cl = []
        cleanup = False
        i += 1
        if ' cleanup' in body[i - 1]:
            cleanup = True
        while i < len(body) and re.match(r'\s+(catch|filter|cleanup)', body[i]):
            s = MDSUF.sub('', DBG.sub('', body[i].strip()))
            if s.startswith('cleanup'):
                cleanup = True
            elif s.startswith('catch'):
                p = P(self.mod, tokenize(s[5:]))
                ty = p.type()
                cl.append(('catch', self.const(p, ty)))
            else:
                cl.append(('filter', None))
            i += 1
        r = self.clcache[key] = (cl, cleanup)
    return r


def resume(self, v):
    e = self.inflight.get(v[0])
    if e is None:
        raise Unresolved('resume')
    return e


def switch_fork(self, v, cases, df, w, R):
    """undecided switch: fork on the first undecided case"""
    for cv, cb in cases.items():
        c = D.eq(v, cv, w)
        d = c if c.__class__ is int else self.decide(c)
        if d is None:
            self.fk = (c, cb, -10)
            self.swrest = (v, cases, df, w)
            return -2
        if d:
            return cb
    return df


for f in (alloca, select, insert, land, resume, switch_fork):
    setattr(Machine, f.__name__, f)


# ---------------------------------------------------------------- C runtime
EXT = {}
RX = []


def ext(*names):
    def w(f):
        for n in names:
            EXT['@' + n] = f
        return f
    return w


def rx(pat):
    def w(f):
        RX.append((re.compile('@"?' + pat), f))
        return f
    return w


@ext('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def op_new(m, n, *a):
    n = need_int(n, 'allocation size')
    if n > 0xfffffff0:
        m.throw_std('St9bad_alloc')
    return m.new(n, 'heap block', 'heap')


@ext('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def op_new_nt(m, n, *a):
    n = need_int(n, 'allocation size')
    if n > 0xfffffff0:
        return 0
    return m.new(n, 'heap block', 'heap')


@ext('calloc')
def calloc(m, a, b):
    return m.new(need_int(a, 'size') * need_int(b, 'size'), 'heap block', 'heap', 0)


@ext('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def op_delete(m, p, *a):
    if p.__class__ is not int:
        return
    if p == 0:
        return
    i = p >> 32
    o = m.objs.get(i)
    if o is None or p & 0xffffffff or o.kind != 'heap':
        m.die('bad-free', 'delete of a pointer that was not allocated')
    if not o.alive:
        m.die('double-free', 'second delete of %s' % o.name)
    o = m.wobj(i)
    o.alive = False
    o.cells = {}


@ext('memcpy', 'memmove')
def memcpy_(m, d, s, n):
    m.memcpy(d, s, n)
    return d


@ext('memset')
def memset_(m, d, v, n):
    m.memset(d, v if v.__class__ is int else D.trunc(v, 32, 8), n)
    return d


@ext('memcmp', 'bcmp')
def memcmp_(m, a, b, n):
    n = need_int(n, 'memcmp length')
    x, y = m.read_bytes(a, n), m.read_bytes(b, n)
    return cmpbytes(m, x, y)


def cmpbytes(m, x, y):
    diff = []
    for p, q in zip(x, y):
        if p.__class__ is int and q.__class__ is int:
            if p == q:
                continue
            if not diff:
                return 1 if p > q else 0xffffffff
            diff.append((p, q))
            break
        if D.same(p, q, 8):
            continue
        diff.append((p, q))
    if not diff:
        return 0
    # abstract result: zero iff all the compared bytes agree
    alleq = 1
    for p, q in diff:
        alleq = D.and_(alleq, D.eq(p, q, 8), 1)
        if alleq.__class__ is int and alleq == 0:
            break
    sign = mk_undef(31, why='sign of a comparison of unknown bytes')
    r = D.zext(sign, 31, 32)
    r = D.mk('cmpres', 32, tuple(p for p, q in diff) + tuple(q for p, q in diff))
    return D.ite(alleq, 0, r, 32)


@ext('strlen')
def strlen_(m, a):
    n = 0
    while True:
        b = m.load(a + n, 1)
        if b.__class__ is not int:
            raise Unresolved('strlen of unknown bytes')
        if b == 0:
            return n
        n += 1


@ext('strncpy')
def strncpy_(m, d, a, n):
    n = need_int(n, 'strncpy length')
    ended = False
    for k in range(n):
        b = 0 if ended else m.load(a + k, 1)
        if b.__class__ is not int:
            if D.same(D.eq(b, 0, 8), 0, 1):
                pass
            else:
                raise Unresolved('strncpy of unknown bytes')
        elif b == 0:
            ended = True
        m.store(d + k, 1, b)
    return d


@ext('memchr')
def memchr_(m, a, c, n):
    n = need_int(n, 'memchr length')
    for k in range(n):
        b = m.load(a + k, 1)
        e = D.eq(b, D.trunc(c, 32, 8), 8)
        if e.__class__ is not int:
            raise Unresolved('memchr over unknown bytes')
        if e:
            return a + k
    return 0


@ext('strcmp')
def strcmp_(m, a, b):
    x, y = m.cstr(a), m.cstr(b)
    return 0 if x == y else (1 if x > y else 0xffffffff)


@ext('frexp')
def frexp(m, x, p):
    m.store(p, 4, D.fptosi(D.fcall('frexp_e', (x,)), 64, 32))
    return D.fcall('frexp_m', (x,))


@ext('ilogb')
def ilogb(m, x):
    return D.fptosi(D.fcall('ilogb_f', (x,)), 64, 32)


@ext('logb')
def logb(m, x):
    return D.fcall('ilogb_f', (x,))


@ext('pow', 'ldexp', 'floor', 'ceil', 'trunc', 'fabs', 'exp2', 'log', 'log2', 'log10', 'exp', 'sqrt', 'round',
     'copysign', 'fmod')
def mathfn(m, *a):
    raise Unresolved('math')


for _n in ('pow', 'ldexp', 'floor', 'ceil', 'trunc', 'fabs', 'exp2', 'log', 'log2', 'log10', 'exp', 'sqrt', 'round',
           'copysign', 'fmod', 'nearbyint', 'rint', 'scalbn'):
    EXT['@' + _n] = (lambda n: lambda m, *a: D.fcall(n if n != 'scalbn' else 'ldexp', a))(_n)


for _n, _a in (('scalbln', 'ldexp'), ('fmin', 'fmin'), ('fmax', 'fmax'), ('hypot', 'hypot'), ('cbrt', 'cbrt')):
    EXT['@' + _n] = (lambda n: lambda m, *a: D.fcall(n, a))(_a)
for _n in ('pow', 'ldexp', 'floor', 'ceil', 'trunc', 'fabs', 'exp2', 'round', 'copysign', 'fmod', 'nearbyint', 'rint', 'sqrt', 'log2',
           'scalbn', 'fmin', 'fmax'):
    EXT['@' + _n + 'f'] = (lambda n: lambda m, *a: D.fcall(n if n != 'scalbn' else 'ldexp', a, 32))(_n)
for _n, _w in (('lround', 64), ('llround', 64), ('lrint', 64), ('llrint', 64)):
    EXT['@' + _n] = (lambda n, w: lambda m, x: D.fptosi(D.fcall('round' if 'round' in n else 'rint', (x,)), 64, w))(_n, _w)


@ext('modf')
def modf_(m, x, p):
    t = D.fcall('trunc', (x,))
    m.store(p, 8, t)
    return D.fbin('fsub', x, t, 64)


@ext('div')
def div_(m, a, b):
    a, b = D.sgn(need_int(a, 'dividend'), 32), D.sgn(need_int(b, 'divisor'), 32)
    q = int(a / b)
    return (q & 0xffffffff) | ((a - q * b) & 0xffffffff) << 32


@ext('strcpy')
def strcpy_(m, d, a):
    m.write_bytes(d, list(m.cstr(a)) + [0])
    return d


@ext('strcat')
def strcat_(m, d, a):
    m.write_bytes(d + len(m.cstr(d)), list(m.cstr(a)) + [0])
    return d


@ext('strncmp')
def strncmp_(m, a, b, n):
    n = need_int(n, 'strncmp length')
    for k in range(n):
        x, y = m.load(a + k, 1), m.load(b + k, 1)
        if x.__class__ is not int or y.__class__ is not int:
            if x.__class__ is int and x or y.__class__ is int and y:
                # no terminator on the known side so far: as memcmp for what remains, up to it
                r = n
                for j in range(k, n):
                    u, v = m.load(a + j, 1), m.load(b + j, 1)
                    if u.__class__ is int and u == 0 or v.__class__ is int and v == 0:
                        r = j + 1
                        break
                    if u.__class__ is not int and v.__class__ is not int:
                        raise Unresolved('strncmp of unknown bytes')
                return EXT['@memcmp'](m, a + k, b + k, r - k)
            raise Unresolved('strncmp of unknown bytes')
        if x != y:
            return 1 if x > y else 0xffffffff
        if x == 0:
            return 0
    return 0


@ext('strchr', 'strrchr')
def strchr_(m, a, c):
    s = m.cstr(a) + b'\0'
    k = s.find(bytes([need_int(c, 'character') & 255]))
    return a + k if k >= 0 else 0


@ext('strnlen')
def strnlen_(m, a, n):
    n = need_int(n, 'length')
    for k in range(n):
        b = m.load(a + k, 1)
        if b.__class__ is not int:
            raise Unresolved('strnlen of unknown bytes')
        if b == 0:
            return k
    return n


@ext('__errno_location')
def errno_(m):
    v = m.side.get(('errno',))
    if v is None:
        m.side[('errno',)] = v = (m.new(8, 'errno', 'global', 0),)
    return v[0]


def _strto(m, a, e, base, signed, w):
    t = m.cstr(a).decode('latin-1')
    x = re.match(r'\s*([+-]?)(0[xX])?([0-9a-zA-Z]*)', t)
    base = need_int(base, 'base')
    if base == 0:
        base = 16 if x.group(2) else 8 if t.strip().startswith('0') else 10
    dig = ''
    for c in x.group(3):
        if int(c, 36) >= base:
            break
        dig += c
    if e:
        m.store(e, 8, a + (x.start(3) + len(dig) if dig else 0))
    v = int(dig, base) if dig else 0
    if x.group(1) == '-':
        v = -v
    return v & D.mask(w)


EXT['@strtol'] = EXT['@strtoll'] = EXT['@strtoul'] = EXT['@strtoull'] = \
    EXT['@__isoc23_strtol'] = EXT['@__isoc23_strtoul'] = EXT['@__isoc23_strtoll'] = EXT['@__isoc23_strtoull'] = \
    lambda m, a, e, b: _strto(m, a, e, b, True, 64)
EXT['@atoi'] = lambda m, a: _strto(m, a, 0, 10, True, 32)
EXT['@atol'] = EXT['@atoll'] = lambda m, a: _strto(m, a, 0, 10, True, 64)


def _ctype(name, pred):
    def f(m, c):
        if c.__class__ is not int:
            raise Unresolved('character class of an unknown character')
        return 1 if c < 256 and pred(chr(c)) else 0
    EXT['@' + name] = f


for _n, _p in (('isdigit', lambda c: '0' <= c <= '9'), ('isspace', lambda c: c in ' \t\n\v\f\r'), ('isalpha', lambda c: c.isascii() and c.isalpha()),
               ('isalnum', lambda c: c.isascii() and c.isalnum()), ('isupper', lambda c: 'A' <= c <= 'Z'), ('islower', lambda c: 'a' <= c <= 'z'),
               ('isprint', lambda c: ' ' <= c <= '~'), ('isxdigit', lambda c: c in '0123456789abcdefABCDEF'),
               ('ispunct', lambda c: '!' <= c <= '~' and not c.isalnum()), ('iscntrl', lambda c: c < ' ' or c == '\x7f')):
    _ctype(_n, _p)
EXT['@toupper'] = lambda m, c: need_int(c, 'character') - (32 if 97 <= c <= 122 else 0)
EXT['@tolower'] = lambda m, c: need_int(c, 'character') + (32 if 65 <= c <= 90 else 0)


@ext('snprintf', 'sprintf')
def snprintf_(m, d, *a):
    raise Unresolved('printf')


def _printf(m, f, args):
    out, k, args = b'', 0, list(args)
    for x in re.finditer(rb'%(%|([-0 +#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j)?([diuxXcs]))|([^%]+)|(%)', f):
        if x.group(7):
            out += x.group(7)
        elif x.group(8) or (x.group(1) != b'%' and not args):
            raise Unresolved('printf format')
        elif x.group(1) == b'%':
            out += b'%'
        else:
            v = args.pop(0)
            c = x.group(6)
            if c == b's':
                t = m.cstr(v)
                if x.group(4):
                    t = t[:int(x.group(4))]
            else:
                v = need_int(v, 'printf argument')
                w = 64 if x.group(5) in (b'l', b'll', b'z', b'j') else 32
                v &= D.mask(w)
                if c == b'c':
                    t = bytes([v & 255])
                else:
                    t = {b'd': lambda: str(D.sgn(v, w)), b'i': lambda: str(D.sgn(v, w)), b'u': lambda: str(v), b'x': lambda: '%x' % v,
                         b'X': lambda: '%X' % v}[c]().encode()
                    if x.group(4):
                        t = t.rjust(int(x.group(4)), b'0')
            if x.group(3):
                n, fl = int(x.group(3)), x.group(2)
                if b'-' in fl:
                    t = t.ljust(n)
                elif b'0' in fl and t[:1] == b'-':
                    t = b'-' + t[1:].rjust(n - 1, b'0')
                else:
                    t = t.rjust(n, b'0' if b'0' in fl else b' ')
            out += t
    return out


EXT['@sprintf'] = lambda m, d, f, *a: (lambda t: (m.write_bytes(d, list(t) + [0]), len(t))[1])(_printf(m, m.cstr(f), a))


def _snprintf(m, d, n, f, *a):
    t = _printf(m, m.cstr(f), a)
    n = need_int(n, 'snprintf size')
    if n:
        m.write_bytes(d, list(t[:n - 1]) + [0])
    return len(t)


EXT['@snprintf'] = _snprintf
for _n in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_destroy', 'pthread_mutex_init'):
    EXT['@' + _n] = lambda m, *a: 0


# ---------------------------------------------------------------- std::list nodes: next at 0, prev at 8
@ext('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def list_hook(m, n, pos):
    p = m.load(pos + 8, 8)
    m.store(n, 8, pos)
    m.store(n + 8, 8, p)
    m.store(p, 8, n)
    m.store(pos + 8, 8, n)


@ext('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def list_unhook(m, n):
    a, b = m.load(n, 8), m.load(n + 8, 8)
    m.store(b, 8, a)
    m.store(a + 8, 8, b)


@ext('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def list_transfer(m, this, first, last):
    if this == last:
        return
    lp, fp, tp = m.load(last + 8, 8), m.load(first + 8, 8), m.load(this + 8, 8)
    m.store(lp, 8, this)
    m.store(fp, 8, last)
    m.store(tp, 8, first)
    m.store(this + 8, 8, lp)
    m.store(last + 8, 8, fp)
    m.store(first + 8, 8, tp)


@ext('_ZNSt8__detail15_List_node_base10_M_reverseEv')
def list_reverse(m, this):
    n = this
    while True:
        a, b = m.load(n, 8), m.load(n + 8, 8)
        m.store(n, 8, b)
        m.store(n + 8, 8, a)
        n = a
        if n == this:
            return


@ext('_ZNSt8__detail15_List_node_base4swapERS0_S1_')
def list_swap(m, x, y):
    def chain(h):
        out, n = [], m.load(h, 8)
        while n != h:
            out.append(n)
            n = m.load(n, 8)
        return out

    def link(h, ns):
        ring = [h] + ns
        for k, n in enumerate(ring):
            m.store(n, 8, ring[(k + 1) % len(ring)])
            m.store(n + 8, 8, ring[k - 1])
    a, b = chain(x), chain(y)
    link(x, b)
    link(y, a)


@ext('_ZNSt3_V216generic_categoryEv', '_ZNSt3_V215system_categoryEv', '_ZSt17iostream_categoryv')
def err_category(m):
    v = m.side.get(('errcat',))
    if v is None:
        m.side[('errcat',)] = v = (m.new(64, 'error category', 'global', 0),)
    return v[0]


@rx(r'_ZNSt(12system_error|8ios_base7failureB5cxx11)[CD][12]E')
def err_nop(m, *a):
    pass


@ext('__assert_fail')
def assert_fail(m, *a):
    m.die('assert', 'a debug assertion fails')


@ext('abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit')
def terminate(m, *a):
    m.die('terminate', 'std::terminate is reached')


@ext('__cxa_pure_virtual')
def purev(m):
    m.die('pure-virtual', 'pure virtual call')


@ext('__cxa_atexit', '__cxa_thread_atexit')
def atexit(m, *a):
    return 0


@ext('__cxa_guard_acquire')
def guard_acquire(m, g):
    v = m.load(g, 1)
    return 0 if v == 1 else 1


@ext('__cxa_guard_release')
def guard_release(m, g):
    m.store(g, 1, 1)


@ext('__cxa_guard_abort')
def guard_abort(m, g):
    pass


@ext('__cxa_allocate_exception')
def alloc_exc(m, n):
    return m.new(n, 'exception object', 'heap')


@ext('__cxa_free_exception')
def free_exc(m, p):
    pass


@ext('__cxa_throw')
def throw(m, p, ti, dtor):
    e = IRThrow(p, ti, m.tname(ti))
    e.where = m.where()
    raise e


@ext('__cxa_begin_catch')
def begin_catch(m, p):
    e = m.inflight.get(p)
    m.caught.append(e)
    if e is not None:
        m.catches.append((e.tname, m.where()))
    return p


@ext('__cxa_get_exception_ptr')
def get_exc_ptr(m, p):
    return p


@ext('__cxa_end_catch')
def end_catch(m):
    if m.caught:
        m.caught.pop()


@ext('__cxa_rethrow')
def rethrow(m):
    if not m.caught:
        m.die('terminate', 'rethrow without an exception')
    raise m.caught.pop()


@ext('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt11logic_errorD2Ev',
     '_ZNSt13runtime_errorD1Ev', '_ZNSt11logic_errorD1Ev')
def exc_dtor(m, *a):
    pass


@rx(r'_ZNSt(13runtime_error|11logic_error|16invalid_argument|12out_of_range|12length_error|12domain_error|11range_error|14overflow_error)C[12]E')
def exc_ctor(m, *a):
    pass


@rx(r'_ZNKSt(9exception|13runtime_error|11logic_error)4whatEv')
def exc_what(m, *a):
    p = m.new(4, 'message', 'heap', 0)
    return p


for _n, _t in (('_ZSt17__throw_bad_allocv', 'St9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', 'St20bad_array_new_length'),
               ('_ZSt25__throw_bad_function_callv', 'St17bad_function_call'), ('_ZSt20__throw_length_errorPKc', 'St12length_error'),
               ('_ZSt19__throw_logic_errorPKc', 'St11logic_error'), ('_ZSt24__throw_out_of_range_fmtPKcz', 'St12out_of_range'),
               ('_ZSt20__throw_out_of_rangePKc', 'St12out_of_range'), ('_ZSt22__throw_overflow_errorPKc', 'St14overflow_error'),
               ('_ZSt24__throw_invalid_argumentPKc', 'St16invalid_argument'), ('_ZSt16__throw_bad_castv', 'St8bad_cast'),
               ('_ZSt21__throw_runtime_errorPKc', 'St13runtime_error')):
    EXT['@' + _n] = (lambda t: lambda m, *a: m.throw_std(t))(_t)


@ext('_ZSt11_Hash_bytesPKvmm')
def hash_bytes(m, p, n, seed):
    bs = m.read_bytes(p, need_int(n, 'length'))
    h = 1469598103934665603
    for b in bs:
        if b.__class__ is not int:
            return D.mk('hash', 64, tuple(bs))
        h = ((h ^ b) * 1099511628211) & M64
    return h


@ext('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def need_rehash(m, *a):
    return (0, 0)


@ext('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def next_bkt(m, this, n):
    return 1


# red-black tree support: search-tree semantics without rebalancing
def _L(m, p):
    return m.load(p + 16, 8)


def _Rr(m, p):
    return m.load(p + 24, 8)


def _Pp(m, p):
    return m.load(p + 8, 8)


@ext('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def rb_insert(m, left, x, p, h):
    need_int(left, 'tree position')
    if p.__class__ is not int:
        raise Unresolved('tree position')
    m.store(x, 4, 1)
    m.store(x + 8, 8, p)
    m.store(x + 16, 8, 0)
    m.store(x + 24, 8, 0)
    if left:
        m.store(p + 16, 8, x)
        if p == h:
            m.store(h + 8, 8, x)
            m.store(h + 24, 8, x)
        elif p == _L(m, h):
            m.store(h + 16, 8, x)
    else:
        m.store(p + 24, 8, x)
        if p == _Rr(m, h):
            m.store(h + 24, 8, x)
    # rebalance occasionally: rebuild when degenerate is not needed for soundness


@ext('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def rb_inc(m, x):
    need_int(x, 'iterator')
    r = _Rr(m, x)
    if r != 0:
        x = r
        while True:
            l = _L(m, x)
            if l == 0:
                return x
            x = l
    y = _Pp(m, x)
    while x == _Rr(m, y):
        x = y
        y = _Pp(m, y)
    if _Rr(m, x) != y:
        x = y
    return x


@ext('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def rb_dec(m, x):
    need_int(x, 'iterator')
    if m.load(x, 4) == 0 and _Pp(m, _Pp(m, x)) == x:
        return _Rr(m, x)
    l = _L(m, x)
    if l != 0:
        y = l
        while True:
            r = _Rr(m, y)
            if r == 0:
                return y
            y = r
    y = _Pp(m, x)
    while x == _L(m, y):
        x = y
        y = _Pp(m, y)
    return y


@ext('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def rb_erase(m, z, h):
    nodes = []
    n = _L(m, h)
    while n != h:
        nodes.append(n)
        n = rb_inc(m, n)
    nodes.remove(z)

    def build(lo, hi, parent):
        if lo >= hi:
            return 0
        k = (lo + hi) // 2
        x = nodes[k]
        m.store(x, 4, 1)
        m.store(x + 8, 8, parent)
        m.store(x + 16, 8, build(lo, k, x))
        m.store(x + 24, 8, build(k + 1, hi, x))
        return x
    m.store(h + 8, 8, build(0, len(nodes), h))
    m.store(h + 16, 8, nodes[0] if nodes else h)
    m.store(h + 24, 8, nodes[-1] if nodes else h)
    return z


@ext('__dynamic_cast')
def dyncast(m, p, src, dst, hint):
    vt = m.load(p, 8)
    ti = m.load(vt - 8, 8)
    off = m.load(vt - 16, 8)
    names = m.bases(ti)
    if m.tname(dst) in names:
        return (p + off) & M64
    return 0


@ext('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm')
def replace_cold(m, this, p, len1, s, len2, how_much):
    need_int(len2, 'length')
    src = m.read_bytes(s, len2)
    tail = m.read_bytes(p + len1, how_much) if how_much else []
    m.write_bytes(p, src + tail)


# ---------------------------------------------------------------- intrinsics
def i_mem(m, name, d, s, n, *a):
    if name.startswith('@llvm.memset'):
        m.memset(d, s, n)
    else:
        m.memcpy(d, s, n)


def i_none(m, name, *a):
    return None


def i_trap(m, name, *a):
    m.die('trap', 'a trap instruction is reached')


def _w(name):
    return int(re.search(r'\.i(\d+)', name).group(1))


def i_bswap(m, name, v):
    w = _w(name)
    b = D.to_bits(v, w)
    out = ()
    for k in range(w // 8 - 1, -1, -1):
        out += b[8 * k:8 * k + 8]
    return D.mk_bits(out)


def i_minmax(m, name, a, b):
    w = _w(name)
    k = name.split('.')[1]
    c = {'umin': lambda: D.ult(a, b, w), 'umax': lambda: D.ult(b, a, w),
         'smin': lambda: D.slt(a, b, w), 'smax': lambda: D.slt(b, a, w)}[k]()
    return D.ite(c, a, b, w)


def i_fsh(m, name, a, b, c):
    w = _w(name)
    need_int(c, 'funnel shift amount')
    c %= w
    bits = D.to_bits(b, w) + D.to_bits(a, w)
    if name.startswith('@llvm.fshl'):
        return D.mk_bits(bits[w - c:2 * w - c])
    return D.mk_bits(bits[c:c + w])


def i_ovf(m, name, a, b):
    w = _w(name)
    op = {'add': D.add, 'sub': D.sub, 'mul': D.mul}[name.split('.')[1][1:]]
    r = op(a, b, w)
    if a.__class__ is int and b.__class__ is int:
        s = name.split('.')[1][0] == 's'
        x, y = (D.sgn(a, w), D.sgn(b, w)) if s else (a, b)
        t = {'add': x + y, 'sub': x - y, 'mul': x * y}[name.split('.')[1][1:]]
        rr = D.sgn(r, w) if s else r
        return (r, 1 if t != rr else 0)
    if 'umul' in name and b.__class__ is int:
        ov = D.ult((D.mask(w) // b) if b else D.mask(w), a, w)
        return (r, ov)
    return (r, mk_undef(1, why='overflow flag'))


def i_f1(m, name, *a):
    n = name.split('.')[1]
    return D.fcall(n, a, 64 if name.endswith('f64') else 32)


def _fmm(big):
    def f(m, a, b, w=64):
        if a.__class__ is float and b.__class__ is float:
            if a != a or b != b:
                return b if a != a else a
            return max(a, b) if big else min(a, b)
        if a.__class__ is float:
            a, b = b, a
        if b.__class__ is float and b == b or b.__class__ is Term and b.op in ('sitofp', 'uitofp'):
            return D.ite(D.fcmp('ogt' if big else 'olt', a, b, w), a, b, w, True)
        return D.fcall('fmax' if big else 'fmin', (a, b), w)
    return f


def i_fmm(m, name, a, b):
    return _fmm('max' in name)(m, a, b, 64 if name.endswith('f64') else 32)


EXT['@fmax'], EXT['@fmin'] = _fmm(True), _fmm(False)


def i_ctpop(m, name, v, *a):
    w = _w(name)
    if v.__class__ is int:
        k = name.split('.')[1]
        if k == 'ctpop':
            return bin(v).count('1')
        if k == 'ctlz':
            return w - v.bit_length()
        if k == 'cttz':
            return (v & -v).bit_length() - 1 if v else w
    raise Unresolved('bit count of an unknown value')


def i_fpclass(m, name, v, k):
    w = 64 if name.endswith('f64') else 32
    k = need_int(k, 'class mask') & 0x3ff
    if v.__class__ is float:
        neg = math.copysign(1, v) < 0
        tiny = 2.0 ** (-1022 if w == 64 else -126)
        c = 3 if v != v else 0x200 >> (7 * neg) if math.isinf(v) else 0x40 >> neg if v == 0 else \
            (0x10 if neg else 0x80) if abs(v) < tiny else (8 if neg else 0x100)
        return 1 if c & k else 0
    inf = float('inf')
    if v.__class__ is Term and v.op in ('sitofp', 'uitofp'):
        return {3: 0, 0x204: 0, 0x1f8: 1}.get(k, mk_undef(1, why='class'))
    if k == 3:
        return D.fcmp('uno', v, 0.0, w)
    if k == 0x204:
        return D.fcmp('oeq', D.fcall('fabs', (v,), w), inf, w)
    if k == 0x1f8:
        return D.fcmp('olt', D.fcall('fabs', (v,), w), inf, w)
    raise Unresolved('floating-point class of an unknown value')


def i_abs(m, name, v, *a):
    w = _w(name)
    return D.ite(D.slt(v, 0, w), D.sub(0, v, w), v, w)


def i_typeid(m, name, p):
    return m.typeid(p)


def i_expect(m, name, v, *a):
    return v


def i_constant(m, name, *a):
    return 0


def i_sat(m, name, a, b):
    w = _w(name)
    if name.startswith('@llvm.usub'):
        return D.ite(D.ult(a, b, w), 0, D.sub(a, b, w), w)
    if name.startswith('@llvm.uadd'):
        r = D.add(a, b, w)
        return D.ite(D.ult(r, a, w), D.mask(w), r, w)
    raise Unresolved(name)


INTRIN = [('memcpy', i_mem), ('memmove', i_mem), ('memset', i_mem), ('assume', i_none), ('lifetime', i_none),
          ('dbg', i_none), ('experimental', i_none), ('trap', i_trap), ('bswap', i_bswap), ('umin', i_minmax),
          ('umax', i_minmax), ('smin', i_minmax), ('smax', i_minmax), ('fshl', i_fsh), ('fshr', i_fsh),
          ('uadd.with', i_ovf), ('usub.with', i_ovf), ('umul.with', i_ovf), ('sadd.with', i_ovf),
          ('ssub.with', i_ovf), ('smul.with', i_ovf), ('fabs', i_f1), ('pow', i_f1), ('floor', i_f1), ('ceil', i_f1),
          ('trunc', i_f1), ('rint', i_f1), ('nearbyint', i_f1), ('round', i_f1), ('copysign', i_f1), ('sqrt', i_f1),
          ('exp2', i_f1), ('ldexp', i_f1), ('fma', i_f1), ('fmuladd', i_f1), ('log', i_f1), ('minnum', i_fmm), ('maxnum', i_fmm),
          ('ctpop', i_ctpop), ('ctlz', i_ctpop), ('cttz', i_ctpop), ('abs', i_abs), ('eh.typeid.for', i_typeid),
          ('is.fpclass', i_fpclass), ('expect', i_expect), ('is.constant', i_constant), ('objectsize', lambda m, n, *a: M64), ('usub.sat', i_sat),
          ('uadd.sat', i_sat), ('stacksave', lambda m, n, *a: 0), ('stackrestore', i_none), ('invariant', i_none),
          ('launder', i_expect), ('strip', i_expect), ('threadlocal', i_expect)]


# ---------------------------------------------------------------- ostringstream, formatted output
def _oss(m, s):
    v = m.side.get(('oss', s))
    return v[0] if v else None


def _oss_add(m, s, b):
    """append bytes (or terms) to a string stream, or write them to a file stream; None: unknown text"""
    w = m.side.get(('ossfmt', s), (0, 32, 10))
    if b is not None:
        b = list(b)
        if w[0] > len(b):
            b = [w[1]] * (w[0] - len(b)) + b
        m.side[('ossfmt', s)] = (0,) + w[1:]
    if ('alias', s) in m.side:
        if b is None:
            raise Unresolved('formatted output of an unknown value to a file')
        fb, st = get(m, s)
        m.filelog.append(('w', st[0], st[1], len(b), m.where()))
        if st[3] or not st[0] or not (st[2] & OUT):
            set_state(m, fb, st, BADBIT if not st[3] else 0)
            return s
        write_at(m, s, fb, st, b)
        return s
    v = _oss(m, s)
    m.side[('oss', s)] = (None if v is None or b is None else v + tuple(b),)
    return s


def _text_at(m, p, n):
    if p.__class__ is not int or n.__class__ is not int:
        return None
    return [m.load(p + i, 1) for i in range(n)]


@rx(r'_ZNSt7__cxx11(19basic_ostringstream|18basic_stringstream)I.*C[12]E')
def oss(m, s, *a):
    m.side[('oss', s)] = ((),)
    m.side[('ossfmt', s)] = (0, 32, 10)


@rx(r'_ZNSt7__cxx11(19basic_ostringstream|18basic_stringstream)I.*D[12]E')
def oss2(m, *a):
    pass


@rx(r'_ZNKR?S?t?.*basic_o?stringstreamI.*3strEv')
def oss_str(m, ret, s, *a):
    v = _oss(m, s)
    if v is None:
        k = m.side.get(('ossn',), (0,))[0]
        m.side[('ossn',)] = (k + 1,)
        v = [D.mk_input('text%d[%d]' % (k, i), 8) for i in range(12)]
    m.write_string(ret, b'\1' * len(v))
    d = m.load(ret, 8)
    for i, x in enumerate(v):
        m.store(d + i, 1, x)


@rx(r'_ZStlsI.*(basic_ostream|RSt13basic_ostream).*RKNSt7__cxx1112basic_string')
def oss_put(m, s, p, *a):
    return _oss_add(m, s, _text_at(m, m.load(p, 8), m.load(p + 8, 8)))


@rx(r'_ZStlsI.*RSt13basic_ostream.*St17basic_string_view')
def oss_view(m, s, n, p, *a):
    return _oss_add(m, s, _text_at(m, p, n))


@rx(r'_ZSt16__ostream_insertI')
def oss_insert(m, s, p, n, *a):
    return _oss_add(m, s, _text_at(m, p, n))


@rx(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES\d_PK[ah]?c?$')
def oss_cstr(m, s, p, *a):
    r = []
    while p.__class__ is int and len(r) < 4096:
        c = m.load(p + len(r), 1)
        if c.__class__ is not int:
            return _oss_add(m, s, None)
        if c == 0:
            return _oss_add(m, s, r)
        r.append(c)
    return _oss_add(m, s, None)


@rx(r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES\d_[ach]$')
def oss_char(m, s, c, *a):
    return _oss_add(m, s, [c])


def _fmt(m, s, **k):
    w = dict(zip('wfb', m.side.get(('ossfmt', s), (0, 32, 10))))
    w.update(k)
    m.side[('ossfmt', s)] = (w['w'], w['f'], w['b'])
    return s


@rx(r'_ZStlsI.*St5_Setw$')
def oss_setw(m, s, n, *a):
    return _fmt(m, s, w=need_int(n, 'width'))


@rx(r'_ZStlsI.*St8_SetfillI')
def oss_setfill(m, s, c, *a):
    return _fmt(m, s, f=need_int(c, 'fill') & 255)


@rx(r'_ZStlsI.*(basic_ostream|RSt13basic_ostream)')
def oss_other(m, s, *a):
    return _oss_add(m, s, None)


def _num(m, s, v, w, signed):
    b = m.side.get(('ossfmt', s), (0, 32, 10))[2]
    if v.__class__ is not int or b not in (10, 16):
        return _oss_add(m, s, None)
    v &= D.mask(w)
    t = '%x' % v if b == 16 else str(D.sgn(v, w) if signed else v)
    return _oss_add(m, s, t.encode())


@rx(r'_ZNSolsE[tjmyilxsb]$')
def oss_num(m, s, v, *a):
    raise Unresolved('number')


for _c, _w2, _sg in (('t', 16, False), ('j', 32, False), ('m', 64, False), ('y', 64, False), ('i', 32, True), ('l', 64, True),
                     ('x', 64, True), ('s', 16, True), ('b', 1, False)):
    EXT['@_ZNSolsE' + _c] = (lambda w, sg: lambda m, s, v, *a: _num(m, s, v, w, sg))(_w2, _sg)


@rx(r'_ZNSolsEPF')
def oss_manip(m, s, f, *a):
    nm = m.idg.get(f >> 32, '') if f.__class__ is int else ''
    if '_ZSt3hex' in nm:
        return _fmt(m, s, b=16)
    if '_ZSt3dec' in nm:
        return _fmt(m, s, b=10)
    if '_ZSt4endl' in nm:
        return _oss_add(m, s, b'\n')
    if '_ZSt5flush' in nm:
        return s
    return _fmt(m, s, b=0)


@rx(r'_ZNSolsE')
def oss_num2(m, s, *a):
    return _oss_add(m, s, None)


# ---------------------------------------------------------------- file streams
IN, OUT, TRUNC, APP, ATE, BINARY = 8, 16, 32, 1, 2, 4
BADBIT, EOFBIT, FAILBIT = 1, 2, 4
BUF_OFF = {'basic_istringstream': 16, 'basic_fstream': 24, 'basic_ifstream': 16, 'basic_ofstream': 8}
IOS_OFF = {'basic_istringstream': 120, 'basic_fstream': 264, 'basic_ifstream': 256, 'basic_ofstream': 248}
# stream record: (file object id, position, mode, state, exception mask, gcount)


def vtab(m, ios_off):
    key = ('vtab', ios_off)
    v = m.side.get(key)
    if v is None:
        a = m.new(64, 'stream vtable', 'global', 0)
        m.store(a + 8, 8, ios_off & M64)
        m.store(a + 32, 8, m.gaddr('@__sva_stream_dtor'))
        m.store(a + 40, 8, m.gaddr('@__sva_stream_delete'))
        m.side[key] = v = (a,)
    return v[0] + 32


def stream_setup(m, this, kind):
    io = IOS_OFF[kind]
    m.store(this, 8, vtab(m, io))
    if kind == 'basic_fstream':
        m.store(this + 16, 8, vtab(m, io - 16))
        m.side[('alias', this + 16)] = (this,)
    m.side[('alias', this + io)] = (this,)
    m.side[('alias', this)] = (this,)
    m.side[('alias', this + BUF_OFF[kind])] = (this,)
    m.side[('buf', this)] = (this + BUF_OFF[kind],)
    m.side[('s', this)] = (0, 0, 0, 0, 0, 0)


def base(m, a):
    if a.__class__ is not int:
        raise Unresolved('stream address')
    v = m.side.get(('alias', a))
    if v is None:
        raise Unresolved('unknown stream object')
    return v[0]


def get(m, a):
    b = base(m, a)
    s = m.side.get(('s', b))
    if s is None or any(x is None for x in s):
        raise Unresolved('stream state')
    return b, list(s)


def put(m, b, s):
    m.side[('s', b)] = tuple(s)


def set_state(m, b, s, bits):
    s[3] |= bits
    put(m, b, s)
    if s[3] & s[4]:
        e = 'NSt8ios_base7failureB5cxx11E'
        p = m.new(32, 'exception object', 'heap', 0)
        x = IRThrow(p, e, e)
        x.where = m.where()
        raise x


def file_obj(m, name):
    return m.side.get(('file', name))


def make_file(m, name, size, is_input):
    def fill(off, name=name):
        return D.mk_input('%s[%d]' % (name, off), 8)
    i = m.nextid
    a = m.new(1 << 31, 'file ' + name, 'file', fill if is_input else 0)
    m.side[('file', name)] = (i, size)
    return i


def file_size(m, fid):
    for k, v in m.side.items():
        if k.__class__ is tuple and k[0] == 'file' and v[0] == fid:
            return k, v[1]
    raise Unresolved('file')


def do_open(m, this, path, mode):
    b, s = get(m, this)
    name = path
    mode = need_int(mode, 'open mode')
    m.opens.append((name, mode, m.where()))
    if s[0]:
        return set_state(m, b, s, FAILBIT)
    f = file_obj(m, name)
    creat = (mode & OUT) and (not (mode & IN) or mode & TRUNC)
    if f is None:
        if not creat and not mode & APP:
            return set_state(m, b, s, FAILBIT)
        make_file(m, name, 0, False)
        f = file_obj(m, name)
    elif creat and not mode & APP:
        i = make_file(m, name, 0, False)
        f = file_obj(m, name)
    s[0] = f[0]
    s[1] = f[1] if mode & (ATE | APP) else 0
    s[2] = mode
    s[3] = 0
    put(m, b, s)


@rx(r'_ZNSt1[34]basic_(f|if|of)streamIcSt11char_traitsIcEEC[12]Ev')
def fs_ctor(m, this):
    raise Unresolved


def _kind(name):
    return re.search(r'basic_[io]?fstream', name).group(0)


def fs_dispatch(m, name):
    return None


def add_streams(mod, reg):
    """register models for every stream member the module mentions"""
    names = list(mod.decls) + list(mod.fn_text)
    for n in names:
        q = n.strip('@"')
        mm = re.match(r'_ZNSt1[34](basic_[io]?fstream)IcSt11char_traitsIcEE(.*)$', q)
        if mm:
            kind, rest = mm.groups()
            if rest in ('C1Ev', 'C2Ev'):
                reg[n] = (lambda k: lambda m, this: stream_setup(m, this, k))(kind)
            elif re.match(r'C[12]ERKNSt7__cxx1112basic_string', rest) or re.match(r'C[12]ERKNS', rest):
                reg[n] = (lambda k: lambda m, this, s, mode=None: (stream_setup(m, this, k), do_open(m, this, m.pystring(s), dm(k, mode)))[0])(kind)
            elif re.match(r'C[12]EPKc', rest):
                reg[n] = (lambda k: lambda m, this, s, mode=None: (stream_setup(m, this, k), do_open(m, this, m.cstr(s).decode('latin-1'), dm(k, mode)))[0])(kind)
            elif re.match(r'C[12]EOS', rest):
                reg[n] = (lambda k: lambda m, this, o: fs_move(m, this, o, k))(kind)
            elif rest.startswith('aSEOS'):
                reg[n] = (lambda k: lambda m, this, o: fs_moveassign(m, this, o, k))(kind)
            elif re.match(r'4openERKNSt7__cxx1112', rest):
                reg[n] = (lambda k: lambda m, this, s, mode=None: do_open(m, this, m.pystring(s), dm(k, mode)))(kind)
            elif rest.startswith('4openEPKc'):
                reg[n] = (lambda k: lambda m, this, s, mode=None: do_open(m, this, m.cstr(s).decode('latin-1'), dm(k, mode)))(kind)
            elif re.match(r'D[012]Ev', rest):
                reg[n] = fs_close_dtor
            elif rest == '5closeEv':
                reg[n] = fs_close
            elif rest == '7is_openEv':
                reg[n] = lambda m, this: 1 if get(m, this)[1][0] else 0
            elif rest == '5rdbufEv':
                reg[n] = fs_rdbuf
            elif rest == '4swapERS2_':
                reg[n] = fs_swap
            continue
        if re.match(r'_ZNKSt1[34]basic_[io]?fstreamIcSt11char_traitsIcEE7is_openEv', q):
            reg[n] = lambda m, this: 1 if get(m, this)[1][0] else 0
            continue
        if re.match(r'_ZNKSt1[34]basic_[io]?fstreamIcSt11char_traitsIcEE5rdbufEv', q):
            reg[n] = fs_rdbuf
            continue
        mm = re.match(r'_ZNK?St1[35]basic_(?:streambuf|filebuf)IcSt11char_traitsIcEE(.*)$', q)
        if mm:
            f = BUFFN.get(mm.group(1))
            if f:
                reg[n] = f
            continue
        if q in ('_ZNSi4readEPcl', '_ZNSi8readsomeEPcl'):
            reg[n] = fs_read
        elif q == '_ZNSi3getEv':
            reg[n] = fs_get
        elif q == '_ZNSi3getERc':
            reg[n] = fs_getc
        elif q == '_ZNSi4peekEv':
            reg[n] = fs_peek
        elif q in ('_ZNSi5ungetEv', '_ZNSi7putbackEc'):
            reg[n] = fs_unget
        elif q == '_ZNSi4syncEv':
            reg[n] = lambda m, this: 0
        elif q == '_ZNSi6ignoreEl' or q == '_ZNSi6ignoreEli' or q == '_ZNSi6ignoreEv':
            reg[n] = fs_ignore
        elif q == '_ZNKSi6gcountEv':
            reg[n] = lambda m, this: get(m, this)[1][5]
        elif q in ('_ZNSi5seekgElSt12_Ios_Seekdir', '_ZNSo5seekpElSt12_Ios_Seekdir'):
            reg[n] = fs_seekoff
        elif q in ('_ZNSi5seekgESt4fposI11__mbstate_tE', '_ZNSo5seekpESt4fposI11__mbstate_tE'):
            reg[n] = fs_seekpos
        elif q in ('_ZNSi5tellgEv', '_ZNSo5tellpEv'):
            reg[n] = fs_tell
        elif q == '_ZNSo5writeEPKcl':
            reg[n] = fs_write
        elif q == '_ZNSo3putEc':
            reg[n] = fs_put
        elif q == '_ZNSo5flushEv':
            reg[n] = lambda m, this: this
        else:
            mm = re.match(r'_ZNK?St9basic_iosIcSt11char_traitsIcEE(.*)$', q)
            if mm:
                r = mm.group(1)
                if r == '5rdbufEv':
                    reg[n] = fs_rdbuf
                elif r == '10exceptionsESt12_Ios_Iostate':
                    reg[n] = ios_exceptions
                elif r == '10exceptionsEv':
                    reg[n] = lambda m, this: get(m, this)[1][4]
                elif r == '5clearESt12_Ios_Iostate':
                    reg[n] = ios_clear
                elif r == '8setstateESt12_Ios_Iostate':
                    reg[n] = lambda m, this, st: set_state(m, *get(m, this), st)
                elif r == '4goodEv':
                    reg[n] = lambda m, this: 1 if get(m, this)[1][3] == 0 else 0
                elif r == '3eofEv':
                    reg[n] = lambda m, this: 1 if get(m, this)[1][3] & EOFBIT else 0
                elif r == '4failEv':
                    reg[n] = lambda m, this: 1 if get(m, this)[1][3] & (FAILBIT | BADBIT) else 0
                elif r == '3badEv':
                    reg[n] = lambda m, this: 1 if get(m, this)[1][3] & BADBIT else 0
                elif r == '7rdstateEv':
                    reg[n] = lambda m, this: get(m, this)[1][3]
                elif r == 'cvbEv':
                    reg[n] = lambda m, this: 0 if get(m, this)[1][3] & (FAILBIT | BADBIT) else 1
                elif r == 'ntEv':
                    reg[n] = lambda m, this: 1 if get(m, this)[1][3] & (FAILBIT | BADBIT) else 0


@rx(r'_ZNSt7__cxx1119basic_istringstreamI.*C[12]ERKNS_12basic_string')
def iss(m, this, str_, *a):
    stream_setup(m, this, 'basic_istringstream')
    p, n = m.load(str_, 8), need_int(m.load(str_ + 8, 8), 'length')
    bs = m.read_bytes(p, n) if n else []
    k = m.side.get(('issn',), (0,))[0]
    m.side[('issn',)] = (k + 1,)
    name = 'string stream %d' % k
    fid = make_file(m, name, n, False)
    fo = m.wobj(fid)
    for i, v in enumerate(bs):
        fo.cells[i] = (1, v)
    put(m, this, [fid, 0, IN, 0, 0, 0])


@rx(r'_ZNSt7__cxx1119basic_istringstreamI.*D[12]E')
def iss2(m, *a):
    pass


def fs_rdbuf(m, this):
    v = m.side.get(('buf', base(m, this)))
    if v is None:
        raise Unresolved('stream buffer')
    return v[0]


def buf_getn(m, this, d, n):
    b, s = get(m, this)
    n = need_int(n, 'read length')
    if not s[0] or not s[2] & IN:
        return 0
    keep = (s[3], s[4], s[5])
    s[3] = s[4] = 0
    put(m, b, s)
    fs_read(m, this, d, n)
    b, s = get(m, this)
    got = s[5]
    s[3], s[4], s[5] = keep
    put(m, b, s)
    return got


def buf_peek(m, this, step=0, before=0):
    b, s = get(m, this)
    if before:
        s[1] = D.add(s[1], 1, 64)
        put(m, b, s)
    pos = s[1]
    tmp = m.new(1, 'char', 'heap')
    r = D.zext(m.load(tmp, 1), 8, 32) if buf_getn(m, this, tmp, 1) else 0xffffffff
    if not step:
        b, s = get(m, this)
        s[1] = pos
        put(m, b, s)
    return r


def buf_putn(m, this, p, n):
    b, s = get(m, this)
    n = need_int(n, 'write length')
    if not s[0] or not s[2] & OUT:
        return 0
    m.filelog.append(('w', s[0], s[1], n, m.where()))
    write_at(m, this, b, s, m.read_bytes(p, n) if n else [])
    return n


def buf_putc(m, this, c):
    b, s = get(m, this)
    if not s[0] or not s[2] & OUT:
        return 0xffffffff
    m.filelog.append(('w', s[0], s[1], 1, m.where()))
    write_at(m, this, b, s, [c])
    return D.zext(c, 8, 32)


def buf_seek(m, this, off, way=0, which=0):
    b, s = get(m, this)
    keep = (s[3], s[4])
    s[3] = s[4] = 0
    put(m, b, s)
    if not s[0]:
        return (M64, 0)
    fs_seekoff(m, this, off, way)
    b, s = get(m, this)
    bad = s[3]
    s[3], s[4] = keep
    put(m, b, s)
    return (M64, 0) if bad else (s[1], 0)


BUFFN = {'5sgetnEPcl': buf_getn, '6sbumpcEv': lambda m, t: buf_peek(m, t, 1), '5sgetcEv': buf_peek, '6snextcEv': lambda m, t: buf_peek(m, t, 0, 1),
         '6stosscEv': lambda m, t: buf_peek(m, t, 1) and None, '5sputnEPKcl': buf_putn, '5sputcEc': buf_putc,
         '10pubseekoffElSt12_Ios_SeekdirSt13_Ios_Openmode': buf_seek,
         '10pubseekposESt4fposI11__mbstate_tESt13_Ios_Openmode': lambda m, t, off, st=0, which=0: buf_seek(m, t, off),
         '7pubsyncEv': lambda m, t: 0, '4gptrEv': lambda m, t: 0, '5egptrEv': lambda m, t: 0, '5ebackEv': lambda m, t: 0,
         '7is_openEv': lambda m, t: 1 if get(m, t)[1][0] else 0}


def fs_getc(m, this, p):
    r = fs_get(m, this)
    if get(m, this)[1][5]:
        m.store(p, 1, D.trunc(r, 32, 8))
    return this


def fs_peek(m, this):
    b, s = get(m, this)
    s[5] = 0
    put(m, b, s)
    if s[3]:
        set_state(m, b, s, FAILBIT)
        return 0xffffffff
    r = buf_peek(m, this)
    if r == 0xffffffff:
        b, s = get(m, this)
        set_state(m, b, s, EOFBIT)
    return r


def fs_unget(m, this, c=None):
    b, s = get(m, this)
    s[3] &= ~EOFBIT
    s[5] = 0
    if s[3] or not s[0] or s[1] == 0:
        set_state(m, b, s, BADBIT if not s[3] else FAILBIT)
        return this
    s[1] = D.sub(s[1], 1, 64)
    put(m, b, s)
    return this


@ext('__sva_stream_delete')
def stream_delete(m, this):
    fs_close(m, this)
    EXT['@_ZdlPv'](m, base(m, this))


def dm(kind, mode):
    if mode is None:
        mode = IN | OUT
    if mode.__class__ is int:
        if kind == 'basic_ifstream':
            mode |= IN
        elif kind == 'basic_ofstream':
            mode |= OUT
    return mode


def fs_move(m, this, o, kind):
    stream_setup(m, this, kind)
    b, s = get(m, o)
    put(m, this, s)
    m.side[('s', b)] = (0, 0, 0, 0, 0, 0)


def fs_moveassign(m, this, o, kind):
    b, s = get(m, o)
    t = base(m, this)
    put(m, t, s)
    m.side[('s', b)] = (0, 0, 0, 0, 0, 0)
    return this


def fs_swap(m, this, o):
    b, s = get(m, o)
    b2, s2 = get(m, this)
    put(m, b2, s)
    put(m, b, s2)


def fs_close(m, this):
    b, s = get(m, this)
    s[0] = 0
    put(m, b, s)


@ext('__sva_stream_dtor')
def fs_close_dtor(m, this):
    fs_close(m, this)


def fs_read(m, this, buf, n):
    b, s = get(m, this)
    n = need_int(n, 'read length')
    if n >> 63:
        m.die('bad-length', 'read of a negative number of bytes')
    m.filelog.append(('r', s[0], s[1], n, m.where()))
    if s[3] or not s[0] or not (s[2] & IN):
        s[5] = 0
        set_state(m, b, s, FAILBIT)
        return this
    key, size = file_size(m, s[0])
    pos = s[1]
    if pos.__class__ is int:
        fo = m.objs[s[0]]
        got = n
        if size.__class__ is int and pos + n > size:
            got = max(0, size - pos)
        bs = [m.byte(fo, pos + k) for k in range(got)]
        m.write_bytes(buf, bs) if bs else None
        s[1] = pos + got
        s[5] = got
        put(m, b, s)
        if got < n:
            set_state(m, b, s, EOFBIT | FAILBIT)
    else:
        bs = [sym_byte(m, s[0], D.add(pos, k, 64)) for k in range(n)]
        m.write_bytes(buf, bs)
        s[1] = D.add(pos, n, 64)
        s[5] = n
        put(m, b, s)
    return this


def sym_byte(m, fid, pos):
    if pos.__class__ is int:
        return m.byte(m.objs[fid], pos)
    name = m.objs[fid].name[5:]
    return D.mk_input('%s[%s]' % (name, D.show(pos)), 8)


def fs_get(m, this):
    b, s = get(m, this)
    tmp = m.new(1, 'char', 'heap')
    fs_read(m, this, tmp, 1)
    b, s = get(m, this)
    if s[5] == 0:
        return 0xffffffff
    return D.zext(m.load(tmp, 1), 8, 32)


def fs_ignore(m, this, n=1, delim=0xffffffff):
    b, s = get(m, this)
    n = need_int(n, 'ignore length')
    if s[3]:
        set_state(m, b, s, FAILBIT)
        return this
    key, size = file_size(m, s[0])
    m.filelog.append(('r', s[0], s[1], n, m.where()))
    if s[1].__class__ is int and size.__class__ is int and s[1] + n > size:
        s[1] = size
        set_state(m, b, s, EOFBIT)
        return this
    s[1] = D.add(s[1], n, 64)
    put(m, b, s)
    return this


def seek(m, this, b, s, pos):
    if s[3] & EOFBIT:
        s[3] &= ~EOFBIT
    if s[3] or not s[0]:
        set_state(m, b, s, FAILBIT)
        return this
    if pos.__class__ is int and pos >> 63:
        put(m, b, s)
        m.event('bad-seek', 'seek to a negative file position (%d)' % D.sgn(pos, 64))
        set_state(m, b, s, FAILBIT)
        return this
    m.filelog.append(('s', s[0], pos, 0, m.where()))
    s[1] = pos
    put(m, b, s)
    return this


def fs_seekoff(m, this, off, way):
    b, s = get(m, this)
    way = need_int(way, 'seek direction')
    if way == 0:
        p = off
    elif way == 1:
        p = D.add(s[1], off, 64)
    else:
        p = D.add(file_size(m, s[0])[1] if s[0] else 0, off, 64)
    return seek(m, this, b, s, p)


def fs_seekpos(m, this, off, state=None):
    b, s = get(m, this)
    return seek(m, this, b, s, off)


def fs_tell(m, this):
    b, s = get(m, this)
    if s[3] & (FAILBIT | BADBIT) or not s[0]:
        return (M64, 0)
    return (s[1], 0)


def fs_write(m, this, buf, n):
    b, s = get(m, this)
    n = need_int(n, 'write length')
    if n >> 63:
        m.die('bad-length', 'write of a negative number of bytes')
    m.filelog.append(('w', s[0], s[1], n, m.where()))
    if s[3] or not s[0] or not (s[2] & OUT):
        set_state(m, b, s, BADBIT if not s[3] else 0)
        return this
    bs = m.read_bytes(buf, n) if n else []
    return write_at(m, this, b, s, bs)


def write_at(m, this, b, s, bs):
    key, size = file_size(m, s[0])
    pos = size if s[2] & APP else s[1]
    if pos.__class__ is not int:
        raise Unresolved('write at an unknown file position')
    fo = m.wobj(s[0])
    for k, v in enumerate(bs):
        fo.cells[pos + k] = (1, v)
    m.fileloc[(s[0], pos)] = m.where()
    s[1] = pos + len(bs)
    put(m, b, s)
    if size.__class__ is int and s[1] > size:
        m.side[key] = (s[0], s[1])
    return this


def fs_put(m, this, c):
    b, s = get(m, this)
    if s[3] or not s[0] or not (s[2] & OUT):
        set_state(m, b, s, BADBIT)
        return this
    m.filelog.append(('w', s[0], s[1], 1, m.where()))
    return write_at(m, this, b, s, [c])


def ios_exceptions(m, this, mask):
    b, s = get(m, this)
    s[4] = need_int(mask, 'exception mask')
    put(m, b, s)
    m.masks.append((s[4], m.where()))
    set_state(m, b, s, 0)


def ios_clear(m, this, st=0):
    b, s = get(m, this)
    s[3] = need_int(st, 'state')
    put(m, b, s)
    set_state(m, b, s, 0)


# ---------------------------------------------------------------- observation interface
def lab(m, p):
    return m.cstr(p).decode('latin-1')


@ext('sv_file')
def sv_file(m, name, size):
    make_file(m, lab(m, name), size, True)


@ext('sv_pin')
def sv_pin(m, name, off, v):
    f = file_obj(m, lab(m, name))
    fo = m.wobj(f[0])
    fo.cells[off] = (1, D.trunc(v, 32, 8))


@ext('sv_filesize')
def sv_filesize(m, name):
    f = file_obj(m, lab(m, name))
    return f[1] if f else M64


@ext('sv_filebyte')
def sv_filebyte(m, name, off):
    f = file_obj(m, lab(m, name))
    if f is None:
        m.die('no-file', 'no such file')
    if off.__class__ is int and f[1].__class__ is int and off >= f[1]:
        return mk_undef(8, why='byte %d past the end of the file' % off)
    m.lastfb = (f[0], off)
    return sym_byte(m, f[0], off)


@ext('sv_exists')
def sv_exists(m, name):
    return 1 if file_obj(m, lab(m, name)) else 0


@ext('sv_u64', 'sv_i64')
def sv_u64(m, name):
    return D.mk_input(lab(m, name), 64)


@ext('sv_u32')
def sv_u32(m, name):
    return D.mk_input(lab(m, name), 32)


@ext('sv_u16')
def sv_u16(m, name):
    return D.mk_input(lab(m, name), 16)


@ext('sv_u8')
def sv_u8(m, name):
    return D.mk_input(lab(m, name), 8)


@ext('sv_f64')
def sv_f64(m, name):
    return D.mk_finput(lab(m, name), 64)


@ext('sv_param')
def sv_param(m, name, lo, hi):
    n = lab(m, name)
    lo, hi = D.sgn(lo, 32), D.sgn(hi, 32)
    if n not in m.params:
        raise NeedParam(n, lo, hi)
    return m.params[n] & 0xffffffff


def harvested(m, lo, hi, div):
    lo, hi, div = D.sgn(lo, 32), D.sgn(hi, 32), D.sgn(div, 32)
    out = set()
    for c in m.newconsts:
        out |= {c // div - 1, c // div, c // div + 1, c // div + 2} if div == 1 else {c // div, c // div + 1}
    out = sorted(v for v in out if lo <= v <= hi)
    if len(out) > 28:           # spread over the range
        out = [out[i * (len(out) - 1) // 27] for i in range(28)]
    return out


@ext('sv_boundaries')
def sv_boundaries(m, lo, hi, div):
    return len(harvested(m, lo, hi, div))


@ext('sv_boundary')
def sv_boundary(m, lo, hi, div, k):
    return harvested(m, lo, hi, div)[D.sgn(k, 32)] & 0xffffffff


class NeedParam(Exception):
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi


@ext('sv_eq')
def sv_eq(m, label, got, want):
    m.obl.append(check(m, lab(m, label), got, want, 64))


@ext('sv_eqd')
def sv_eqd(m, label, got, want):
    m.obl.append(check(m, lab(m, label), got, want, 64))


def blame(m):
    """the repository site that wrote the file byte last inspected, else the last repository function entered"""
    fb = getattr(m, 'lastfb', None)
    if fb is not None:
        for k, f, pos, n, w in reversed(m.filelog):
            if k == 'w' and f == fb[0] and pos.__class__ is int and n.__class__ is int and pos <= fb[1] < pos + n:
                return w
    return getattr(m, 'lastfn', None)


def check(m, label, got, want, w, where=None):
    facts = list(m.facts.values())
    r, wit = D.compare(got, want, w, facts, n=m.nwit, seed=m.seed)
    if r == 'differ' and facts and not wit:
        # both constant: is this point reachable?
        if D.satisfiable_witness(facts) is None:
            r = 'open'
    return dict(label=label, result=r, witness=wit, got=D.show(got), want=D.show(want),
                where=(m.value_site(got) or blame(m) if r == 'differ' else None))


@ext('sv_true')
def sv_true(m, label, v):
    v = v if v.__class__ is int else D.trunc(v, 32, 1) if v.w == 32 else v
    m.obl.append(check(m, lab(m, label), v, 1, 1))


@ext('sv_fail')
def sv_fail(m, label):
    facts = list(m.facts.values())
    if facts and D.satisfiable_witness(facts) is None:
        return
    m.obl.append(dict(label=lab(m, label), result='differ', witness=None, got='reached', want='not reachable', where=None))


@ext('sv_ok')
def sv_ok(m, label):
    m.obl.append(dict(label=lab(m, label), result='equal', witness=None, got='', want='', where=None))


@ext('sv_note')
def sv_note(m, label):
    m.notes.append(lab(m, label))


@ext('sv_lastpos')
def sv_lastpos(m, name):
    """last position any read/seek left the file at"""
    f = file_obj(m, lab(m, name))
    for k, v in m.side.items():
        if k.__class__ is tuple and k[0] == 's' and v and v[0] == f[0]:
            return v[1]
    return M64


@ext('sv_assume')
def sv_assume(m, v):
    v = v if v.__class__ is int else D.trunc(v, 32, 1)
    if v.__class__ is int:
        if not v:
            raise PathDead('assumption')
        return
    b = D.to_bits(v, 1)[0]
    m.facts[b] = v


def install(m):
    m.ext = dict(EXT)
    add_streams(m.mod, m.ext)
    m.extrx = RX
    m.intrin = INTRIN
    m.inflight = {}
    m.clcache = {}
    m.catches = []
    m.opens = []
    m.filelog = []
    m.fileloc = {}
    m.masks = []
    m.notes = []
    m.lp = None
    m.nwit = 48
    m.seed = 1
    m.lastrepo = None

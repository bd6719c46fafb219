"""Abstract value domain of the analysis.

A scalar is one of
  int            a known machine word (unsigned, reduced modulo 2**width)
  float          a known floating point number
  Term           a hash-consed abstract value:
     'bits'      per-bit provenance: every bit is 0, 1, or a (possibly negated)
                 bit of an atom
     'lin'       a linear form  c + sum(k_i * bit_i)  modulo 2**width
     'in'/'fin'  an input of the analysed program (file byte, API argument)
     'undef'     the content of memory that was never written
     other       an uninterpreted operator applied to abstract values

'bits' and 'lin' are canonical for every mixture of byte swapping, shifting,
masking, sign extension, BCD recombination and offset arithmetic, so two
different spellings of the same decoding compare equal.  For values that only
agree up to uninterpreted operators the comparison is three-valued, see
compare().
"""
import math
import random
import struct

_FULL = {}


def mask(w):
    m = _FULL.get(w)
    if m is None:
        m = _FULL[w] = (1 << w) - 1
    return m


class Term:
    __slots__ = ('op', 'w', 'args', 'f', 'atom', 'uid')

    def __repr__(self):
        return show(self)


_CONS = {}
ATOMS = []          # atom id -> Term
_uid = [0]


def mk(op, w, args, f=False):
    key = (op, w, args)
    t = _CONS.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.w = w
        t.args = args
        t.f = f
        t.atom = -1
        _uid[0] += 1
        t.uid = _uid[0]
        _CONS[key] = t
    return t


def atom_id(t):
    a = t.atom
    if a < 0:
        a = t.atom = len(ATOMS)
        ATOMS.append(t)
    return a


def bitcode(t, k, neg=0):
    return 2 + ((atom_id(t) * 64 + k) << 1) + neg


def code_atom(c):
    c = (c - 2) >> 1
    return ATOMS[c >> 6], c & 63


def mk_input(name, w):
    return mk('in', w, (name,))


def mk_finput(name, w=64):
    return mk('fin', w, (name,), True)


_undef_n = [0]


def mk_undef(w, f=False, why=''):
    _undef_n[0] += 1
    return mk('undef', w, (_undef_n[0], why), f)


# ------------------------------------------------------------------ bits
def to_bits(v, w):
    if v.__class__ is int:
        return tuple((v >> k) & 1 for k in range(w))
    if v.__class__ is float:
        return to_bits(f2i(v, w), w)
    if v.op == 'bits':
        return v.args
    if v.f:
        v = f2i(v, w)
        if v.op == 'bits':
            return v.args
    base = bitcode(v, 0)
    return tuple(base + (k << 1) for k in range(w))


def mk_bits(bits):
    w = len(bits)
    const = True
    for b in bits:
        if b > 1:
            const = False
            break
    if const:
        v = 0
        for k in range(w):
            if bits[k]:
                v |= 1 << k
        return v
    b0 = bits[0]
    if b0 > 1 and not (b0 & 1):
        t, k = code_atom(b0)
        if k == 0 and t.w == w:
            for k in range(1, w):
                if bits[k] != b0 + (k << 1):
                    break
            else:
                return t
    return mk('bits', w, tuple(bits))


# ------------------------------------------------------------------ lin
def to_lin(v, w):
    if v.__class__ is int:
        return v, {}
    if v.op == 'lin':
        return v.args[0], dict(v.args[1])
    c = 0
    d = {}
    for k, b in enumerate(to_bits(v, w)):
        if b == 0:
            continue
        if b == 1:
            c += 1 << k
        elif b & 1:
            c += 1 << k
            d[b ^ 1] = d.get(b ^ 1, 0) - (1 << k)
        else:
            d[b] = d.get(b, 0) + (1 << k)
    return c, d


def mk_lin(c, d, w):
    m = mask(w)
    c &= m
    e = {}
    for k, v in d.items():
        v &= m
        if v:
            e[k] = v
    if not e:
        return c
    # representable as plain bits?
    out = [0] * w
    ok = True
    for k in range(w):
        if (c >> k) & 1:
            out[k] = 1
    for code, v in e.items():
        p = v
        k = 0
        while p:
            if p & 1:
                if out[k]:
                    ok = False
                    break
                out[k] = code
            p >>= 1
            k += 1
        if not ok:
            break
    if ok:
        return mk_bits(tuple(out))
    # single negated bits
    out = [0] * w
    ok = True
    cc = c
    for code, v in e.items():
        if v & (v - 1) == 0:
            k = v.bit_length() - 1
            if k == w - 1 and (cc >> k) & 1:
                out[k] = code ^ 1
                cc &= ~(1 << k)
                continue
            if out[k] or (cc >> k) & 1:
                ok = False
                break
            out[k] = code
        else:
            n = (-v) & m
            k = n.bit_length() - 1
            if n & (n - 1) == 0 and (cc >> k) & 1 and not out[k]:
                out[k] = code ^ 1
                cc &= ~(1 << k)
            else:
                ok = False
                break
    if ok:
        for k in range(w):
            if (cc >> k) & 1:
                if out[k]:
                    ok = False
                    break
                out[k] = 1
        if ok:
            return mk_bits(tuple(out))
    return mk('lin', w, (c, tuple(sorted(e.items()))))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def add(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & mask(w)
    if a.__class__ is int:
        if a == 0:
            return b
    elif b.__class__ is int and b == 0:
        return a
    c1, d1 = to_lin(a, w)
    c2, d2 = to_lin(b, w)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mk_lin(c1 + c2, d1, w)


def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & mask(w)
    if b.__class__ is int and b == 0:
        return a
    if a is b:
        return 0
    c1, d1 = to_lin(a, w)
    c2, d2 = to_lin(b, w)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) - v
    return mk_lin(c1 - c2, d1, w)


def mulc(a, k, w):
    if a.__class__ is int:
        return (a * k) & mask(w)
    if k == 1:
        return a
    c, d = to_lin(a, w)
    return mk_lin(c * k, {x: v * k for x, v in d.items()}, w)


def _order(a, b):
    ka = (0, a) if a.__class__ is not Term else (1, a.uid)
    kb = (0, b) if b.__class__ is not Term else (1, b.uid)
    return (a, b) if ka <= kb else (b, a)


def mul(a, b, w):
    if b.__class__ is int:
        return mulc(a, b, w)
    if a.__class__ is int:
        return mulc(b, a, w)
    # one operand a single bit: distribute
    return mk('mul', w, _order(a, b))


def shl(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return mk_undef(w, why='shift amount out of range')
        if a.__class__ is int:
            return (a << b) & mask(w)
        if a.op == 'lin':
            return mulc(a, 1 << b, w)
        bits = to_bits(a, w)
        return mk_bits((0,) * b + bits[:w - b])
    return mk('shl', w, (a, b))


def lshr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return mk_undef(w, why='shift amount out of range')
        if a.__class__ is int:
            return a >> b
        bits = to_bits(a, w)
        return mk_bits(bits[b:] + (0,) * b)
    return mk('lshr', w, (a, b))


def ashr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return mk_undef(w, why='shift amount out of range')
        if a.__class__ is int:
            return (sgn(a, w) >> b) & mask(w)
        bits = to_bits(a, w)
        return mk_bits(bits[b:] + (bits[-1],) * b)
    return mk('ashr', w, (a, b))


def _bit_and(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    if x == y:
        return x
    if x == y ^ 1:
        return 0
    if x > y:
        x, y = y, x
    return bitcode(mk('band', 1, (x, y)), 0)


def _bit_or(x, y):
    return _bit_and(x ^ 1, y ^ 1) ^ 1


def _bit_xor(x, y):
    if x <= 1:
        return y ^ x
    if y <= 1:
        return x ^ y
    if x == y:
        return 0
    if x == y ^ 1:
        return 1
    n = (x & 1) ^ (y & 1)
    x &= ~1
    y &= ~1
    if x > y:
        x, y = y, x
    return bitcode(mk('bxor', 1, (x, y)), 0) ^ n


def and_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a & b
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.op == 'lin' and b & (b + 1) == 0:
            n = b.bit_length()
            return zext(trunc(a, w, n), n, w)
    return mk_bits(tuple(map(_bit_and, to_bits(a, w), to_bits(b, w))))


def or_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a | b
    if a.__class__ is int and a == 0:
        return b
    if b.__class__ is int and b == 0:
        return a
    return mk_bits(tuple(map(_bit_or, to_bits(a, w), to_bits(b, w))))


def xor(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a ^ b
    if a.__class__ is int and a == 0:
        return b
    if b.__class__ is int and b == 0:
        return a
    return mk_bits(tuple(map(_bit_xor, to_bits(a, w), to_bits(b, w))))


def bnot(c):
    if c.__class__ is int:
        return c ^ 1
    return mk_bits((to_bits(c, 1)[0] ^ 1,))


def trunc(a, w, n):
    if a.__class__ is int:
        return a & mask(n)
    if a.op == 'lin':
        return mk_lin(a.args[0], dict(a.args[1]), n)
    return mk_bits(to_bits(a, w)[:n])


def _lin_range(a, w):
    """range of the exact integer value with signed coefficients"""
    c = sgn(a.args[0], w)
    lo = hi = c
    for _, v in a.args[1]:
        v = sgn(v, w)
        if v < 0:
            lo += v
        else:
            hi += v
    return lo, hi


def _ulin_range(a, w):
    lo, hi = _lin_range(a, w)
    if lo >= 0 and hi <= mask(w):
        return lo, hi, True
    # unsigned coefficients
    hi = a.args[0] + sum(v for _, v in a.args[1])
    if hi <= mask(w):
        return a.args[0], hi, False
    return None


def urange(a, w):
    if a.__class__ is int:
        return a, a
    if a.op == 'bits':
        lo = hi = 0
        for k, b in enumerate(a.args):
            if b == 1:
                lo |= 1 << k
                hi |= 1 << k
            elif b:
                hi |= 1 << k
        return lo, hi
    if a.op == 'lin':
        r = _ulin_range(a, w)
        if r:
            return r[0], r[1]
        return 0, mask(w)
    if a.op == 'urem' and a.args[1].__class__ is int and a.args[1]:
        return 0, a.args[1] - 1
    if a.op == 'udiv' and a.args[1].__class__ is int and a.args[1]:
        lo, hi = urange(a.args[0], w)
        return lo // a.args[1], hi // a.args[1]
    if a.op == 'ite':
        l1, h1 = urange(a.args[1], w)
        l2, h2 = urange(a.args[2], w)
        return min(l1, l2), max(h1, h2)
    if a.op == 'tab':
        return min(a.args[1]), max(a.args[1])
    return 0, mask(w)


def srange(a, w):
    if a.__class__ is int:
        s = sgn(a, w)
        return s, s
    if a.op == 'lin':
        lo, hi = _lin_range(a, w)
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return lo, hi
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    if a.op == 'bits':
        top = a.args[-1]
        if top == 0:
            return urange(a, w)
        if top == 1:
            lo, hi = urange(a, w)
            return sgn(lo, w), sgn(hi, w)
        n = w
        while n > 1 and a.args[n - 2] == top:
            n -= 1
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    if a.op == 'ite':
        l1, h1 = srange(a.args[1], w)
        l2, h2 = srange(a.args[2], w)
        return min(l1, l2), max(h1, h2)
    if a.op == 'srem' and a.args[1].__class__ is int and a.args[1]:
        m = abs(sgn(a.args[1], w)) - 1
        return -m, m
    lo, hi = urange(a, w)
    if hi < 1 << (w - 1):
        return lo, hi
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def zext(a, w, n):
    if a.__class__ is int:
        return a
    if a.op == 'lin':
        r = _ulin_range(a, w)
        if r:
            if r[2]:
                return mk_lin(sgn(a.args[0], w), {k: sgn(v, w) for k, v in a.args[1]}, n)
            return mk_lin(a.args[0], dict(a.args[1]), n)
    return mk_bits(to_bits(a, w) + (0,) * (n - w))


def sext(a, w, n):
    if a.__class__ is int:
        return sgn(a, w) & mask(n)
    if a.op == 'lin':
        lo, hi = _lin_range(a, w)
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            return mk_lin(sgn(a.args[0], w), {k: sgn(v, w) for k, v in a.args[1]}, n)
        r = _ulin_range(a, w)
        if r and r[1] < (1 << (w - 1)):
            return mk_lin(a.args[0], dict(a.args[1]), n)
    b = to_bits(a, w)
    return mk_bits(b + (b[-1],) * (n - w))


def udiv(a, b, w):
    if b.__class__ is int:
        if b == 0:
            return mk_undef(w, why='division by zero')
        if a.__class__ is int:
            return a // b
        if b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
        if urange(a, w)[1] < b:
            return 0
    return mk('udiv', w, (a, b))


def urem(a, b, w):
    if b.__class__ is int:
        if b == 0:
            return mk_undef(w, why='division by zero')
        if a.__class__ is int:
            return a % b
        if b == 1:
            return 0
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if urange(a, w)[1] < b:
            return a
    return mk('urem', w, (a, b))


def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            return mk_undef(w, why='division by zero')
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & mask(w)
    if b.__class__ is int and b and sgn(b, w) > 0:
        if srange(a, w)[0] >= 0:
            return udiv(a, b, w)
    return mk('sdiv', w, (a, b))


def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if b == 0:
            return mk_undef(w, why='division by zero')
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if b.__class__ is int and b and sgn(b, w) > 0:
        if srange(a, w)[0] >= 0:
            return urem(a, b, w)
    return mk('srem', w, (a, b))


def _cmp1(op, a, b, w):
    return mk_bits((bitcode(mk(op, 1, (a, b, w)), 0),))


def eq(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if a == b else 0
    if a is b:
        return 1
    d = sub(a, b, w)
    if d.__class__ is int:
        return 1 if d == 0 else 0
    ra, rb = urange(a, w), urange(b, w)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return 0
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int and (a.op == 'bits' or a.op not in ('lin',)):
        bits = to_bits(a, w)
        need = {}
        for k in range(w):
            x = bits[k]
            y = (b >> k) & 1
            if x <= 1:
                if x != y:
                    return 0
            else:
                # x == y  means atom bit (x&~1) == y ^ neg
                base = x & ~1
                val = y ^ (x & 1)
                if need.get(base, val) != val:
                    return 0
                need[base] = val
        if len(need) == 1:
            (base, val), = need.items()
            return mk_bits((base if val else base ^ 1,))
        if a.op == 'ite':
            c, x, y = a.args
            ex, ey = eq(x, b, w), eq(y, b, w)
            if ex.__class__ is int and ey.__class__ is int:
                if ex == ey:
                    return ex
                return c if ex else bnot(c)
        if a.op == 'bits':
            # only the unknown bits matter, whatever width they were widened to
            ks = sorted(need)
            return _cmp1('eq', mk_bits(tuple(ks)), sum(need[k] << i for i, k in enumerate(ks)), len(ks))
    if b.__class__ is int:
        return _cmp1('eq', a, b, w)
    a, b = _order(a, b)
    return _cmp1('eq', a, b, w)


def ult(a, b, w):
    ra, rb = urange(a, w), urange(b, w)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if a.__class__ is int:
        return bnot(ult(b, a + 1, w))          # c < b  is  not (b < c + 1); c + 1 <= max of b, no wrap
    if b.__class__ is int:
        # a < 2**k: the upper bits are zero
        if b == 1 or b & (b - 1) == 0 and a.op == 'bits':
            k = b.bit_length() - 1
            return eq(lshr(a, k, w) if k else a, 0, w)
        if a.op == 'bits':
            n = w
            while n > 1 and a.args[n - 1] == 0:
                n -= 1
            if n < w and b < 1 << n:
                return _cmp1('ult', mk_bits(a.args[:n]), b, n)
    return _cmp1('ult', a, b, w)


def slt(a, b, w):
    ra, rb = srange(a, w), srange(b, w)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if b.__class__ is int and b == 0 and a.op != 'lin':
        return mk_bits((to_bits(a, w)[-1],))
    if a.__class__ is int and sgn(a, w) == -1 and b.op != 'lin':
        return mk_bits((to_bits(b, w)[-1] ^ 1,))
    if ra[0] >= 0 and rb[0] >= 0:
        return ult(a, b, w)
    if a.__class__ is int:
        return bnot(slt(b, (a + 1) & mask(w), w))
    return _cmp1('slt', a, b, w)


def icmp(pred, a, b, w):
    if pred == 'eq':
        return eq(a, b, w)
    if pred == 'ne':
        return bnot(eq(a, b, w))
    if pred == 'ult':
        return ult(a, b, w)
    if pred == 'ugt':
        return ult(b, a, w)
    if pred == 'uge':
        return bnot(ult(a, b, w))
    if pred == 'ule':
        return bnot(ult(b, a, w))
    if pred == 'slt':
        return slt(a, b, w)
    if pred == 'sgt':
        return slt(b, a, w)
    if pred == 'sge':
        return bnot(slt(a, b, w))
    if pred == 'sle':
        return bnot(slt(b, a, w))
    raise KeyError(pred)


def same_const(a, b):
    return a is b or (a.__class__ is b.__class__ and a.__class__ is not Term and a == b and
                      (a.__class__ is not float or math.copysign(1, a) == math.copysign(1, b)))


def ite(c, a, b, w, isf=False):
    if c.__class__ is int:
        return a if c else b
    if same_const(a, b):
        return a
    if isf:
        cc = to_bits(c, 1)[0]
        if cc & 1 and cc > 1:
            c, a, b = mk_bits((cc ^ 1,)), b, a
        if a.__class__ is Term and a.op == 'fite' and a.args[0] is c:
            a = a.args[1]
        if b.__class__ is Term and b.op == 'fite' and b.args[0] is c:
            b = b.args[2]
        if same_const(a, b):
            return a
        return mk('fite', w, (c, a, b), True)
    if a.__class__ is Term and a.f:
        a = f2i(a, w)
    if b.__class__ is Term and b.f:
        b = f2i(b, w)
    cc = to_bits(c, 1)[0]
    out = []
    ok = True
    ba, bb = to_bits(a, w), to_bits(b, w)
    for x, y in zip(ba, bb):
        if x == y:
            out.append(x)
        elif x == 1 and y == 0:
            out.append(cc)
        elif x == 0 and y == 1:
            out.append(cc ^ 1)
        elif x == cc and y == 0 or y == cc and x == 1:
            out.append(cc)
        elif x == 1 and y > 1 and y == cc:
            out.append(cc)
        elif y == 0 and x == cc:
            out.append(cc)
        elif x == 0 and y == cc ^ 1:
            out.append(cc ^ 1)
        elif x == cc ^ 1 and y == 1:
            out.append(cc ^ 1)
        elif x == 0 and y == cc:
            out.append(0)
        elif x == 1 and y == cc ^ 1:
            out.append(1)
        elif x == cc ^ 1 and y == 0:
            out.append(0)
        elif x == cc and y == 1:
            out.append(1)
        elif w == 1:
            # (c and x) or (not c and y)
            out.append(_bit_or(_bit_and(cc, x), _bit_and(cc ^ 1, y)))
        else:
            ok = False
            break
    if ok:
        return mk_bits(tuple(out))
    if cc & 1:
        c, a, b = mk_bits((cc ^ 1,)), b, a
    if a.__class__ is Term and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.__class__ is Term and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if same_const(a, b):
        return a
    return mk('ite', w, (c, a, b))


# ------------------------------------------------------------------ floats
def f2i(v, w):
    if v.__class__ is float:
        if w == 32:
            try:
                return struct.unpack('<I', struct.pack('<f', v))[0]
            except OverflowError:
                return struct.unpack('<I', struct.pack('<f', math.copysign(math.inf, v)))[0]
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    if v.__class__ is int:
        return v
    if v.op == 'i2f':
        return v.args[0]
    return mk('f2i', w, (v,))


def i2f(v, w):
    if v.__class__ is int:
        if w == 32:
            return struct.unpack('<f', struct.pack('<I', v))[0]
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    if v.__class__ is float:
        return v
    if v.f:
        return v
    if v.op == 'f2i':
        return v.args[0]
    if v.op == 'ite' and any(x.__class__ is Term and x.op == 'f2i' for x in v.args[1:]):
        return ite(v.args[0], i2f(v.args[1], w), i2f(v.args[2], w), w, True)
    return mk('i2f', w, (v,), True)


def rnd(v, w):
    if w == 32:
        try:
            return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    return v


def _fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def _fmul(a, b):
    return a * b


def fconst(op, a, b):
    if op == 'fadd':
        return a + b
    if op == 'fsub':
        return a - b
    if op == 'fmul':
        return a * b
    if op == 'fdiv':
        return _fdiv(a, b)
    if op == 'frem':
        if b == 0 or math.isinf(a):
            return math.nan
        return math.fmod(a, b)
    raise KeyError(op)


def fbin(op, a, b, w):
    if a.__class__ is float and b.__class__ is float:
        return rnd(fconst(op, a, b), w)
    if op in ('fadd', 'fmul'):
        ka = (0, 0) if a.__class__ is float else (1, a.uid)
        kb = (0, 0) if b.__class__ is float else (1, b.uid)
        if kb < ka:
            a, b = b, a
    # an operation on a choice is the choice of the operations
    for x, y, left in ((a, b, True), (b, a, False)):
        if x.__class__ is Term and x.op == 'fite' and (y.__class__ is float or x.args[1].__class__ is float and x.args[2].__class__ is float):
            p, q = (((x.args[1], y), (x.args[2], y)) if left else ((y, x.args[1]), (y, x.args[2])))
            return ite(x.args[0], fbin(op, p[0], p[1], w), fbin(op, q[0], q[1], w), w, True)
    if op == 'fadd' and a.__class__ is float and a == 0 and w == 64:
        r = frange(b)
        if r is not None and r[0] >= 0:
            return b                   # b is not a negative zero
    if op in ('fadd', 'fsub') and w == 64:
        r = _fsum(op, a, b)
        if r is not None:
            return r
    # x * 2^k, x / 2^k in one spelling (exact scaling)
    if op == 'fdiv' and b.__class__ is float and b != 0 and math.isfinite(b) and math.frexp(b)[0] in (0.5, -0.5):
        return fbin('fmul', a, 1.0 / b, w)
    if op == 'fmul' and a.__class__ is float and a == 1.0:
        return b
    if op == 'fmul' and a.__class__ is float and w == 64 and is_p2(a):
        sc = scaled(b)
        if sc is not None:
            c = a * sc[0]
            if 2.0 ** -900 < abs(c) < 2.0 ** 900:
                return sc[1] if c == 1.0 else mk('fmul', w, (c, sc[1]), True)
    return mk(op, w, (a, b), True)


def _parts(t):
    """(power of two, integer term, width, lo, hi) of an exactly scaled integer, or None"""
    if t.__class__ is float:
        if t == 0 or not math.isfinite(t):
            return None
        n, d = t.as_integer_ratio()
        k = (n & -n).bit_length() - 1
        if abs(n) >> k >= 1 << 40:
            return None
        return (-(d.bit_length() - 1) + k, n >> k, 0, n >> k, n >> k)
    sc = scaled(t)
    if sc is None or sc[0] < 0:
        return None
    x, n = sc[1].args
    lo, hi = (srange if sc[1].op == 'sitofp' else urange)(x, n)
    return (math.frexp(sc[0])[1] - 1, (x, sc[1].op == 'sitofp'), n, lo, hi)


def _fsum(op, a, b):
    """sum or difference of two exactly scaled integers that is itself exact"""
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return None
    k = min(p[0], q[0])
    if max(p[0], q[0]) - k > 52 or not -900 < k < 900:
        return None
    sp, sq = p[0] - k, q[0] - k
    l1, h1, l2, h2 = p[3] << sp, p[4] << sp, q[3] << sq, q[4] << sq
    lo, hi = (l1 + l2, h1 + h2) if op == 'fadd' else (l1 - h2, h1 - l2)
    if max(abs(lo), abs(hi)) >= 1 << 53:
        return None
    w = 56

    def term(z, sh):
        if z[2] == 0:
            return (z[1] << sh) & mask(w)
        x, sg = z[1]
        x = (sext if sg else zext)(x, z[2], w) if z[2] < w else trunc(x, z[2], w) if z[2] > w else x
        return shl(x, sh, w) if sh else x
    x, y = term(p, sp), term(q, sq)
    t = add(x, y, w) if op == 'fadd' else sub(x, y, w)
    if t.__class__ is Term and lo >= 0 and srange(t, w)[0] < 0:
        return None                       # the sum is known to be non-negative, its form does not show it
    r = sitofp(t, w, 64)
    return fbin('fmul', math.ldexp(1.0, k), r, 64) if k else r


def is_p2(c):
    return c != 0 and math.isfinite(c) and abs(math.frexp(c)[0]) == 0.5


def scaled(t):
    """(c, x) when t is the exact product of a power of two and a converted integer"""
    if t.__class__ is not Term or t.w != 64:
        return None
    if t.op in ('sitofp', 'uitofp'):
        return (1.0, t) if t.args[1] <= 53 else None
    if t.op == 'fmul' and t.args[0].__class__ is float and is_p2(t.args[0]):
        x = t.args[1]
        if x.op in ('sitofp', 'uitofp') and x.args[1] <= 53:
            return t.args[0], x
    return None


def frange(t):
    if t.__class__ is float:
        return (t, t) if t == t else None
    sc = scaled(t)
    if sc is None:
        if t.op == 'fadd' and t.w == 64:
            x, y = frange(t.args[0]), frange(t.args[1])
            if x is not None and y is not None:
                return x[0] + y[0], x[1] + y[1]
        if t.op == 'fite' and t.w == 64:
            x, y = frange(t.args[1]), frange(t.args[2])
            if x is not None and y is not None:
                return min(x[0], y[0]), max(x[1], y[1])
        return None
    c, x = sc
    lo, hi = (srange if x.op == 'sitofp' else urange)(x.args[0], x.args[1])
    lo, hi = c * lo, c * hi
    return (lo, hi) if lo <= hi else (hi, lo)


def fneg(a, w):
    if a.__class__ is float:
        return -a
    if a.op == 'fneg':
        return a.args[0]
    sc = scaled(a)
    if sc is not None:
        return sc[1] if sc[0] == -1.0 else mk('fmul', w, (-sc[0], sc[1]), True)
    if a.op == 'fite':
        return ite(a.args[0], fneg(a.args[1], w), fneg(a.args[2], w), w, True)
    return mk('fneg', w, (a,), True)


def _low_zeros(b, n, fw):
    """number of zero bits below, when the rest of a word too wide for the format fits it"""
    if fw != 64 or n <= 53:
        return 0
    z = 0
    while z < n and b[z] == 0:
        z += 1
    return z if n - z <= 53 else 0


def sitofp(a, w, fw):
    if a.__class__ is int:
        return rnd(float(sgn(a, w)), fw)
    if srange(a, w)[0] >= 0:
        return uitofp(a, w, fw)
    # strip redundant sign extension so that different widths agree
    if a.op == 'bits':
        b = a.args
        n = w
        while n > 1 and b[n - 2] == b[n - 1]:
            n -= 1
        z = _low_zeros(b, n, fw)
        if z:
            return mk('fmul', fw, (math.ldexp(1.0, z), mk('sitofp', fw, (mk_bits(b[z:n]), n - z), True)), True)
        return mk('sitofp', fw, (mk_bits(b[:n]), n), True)
    if a.op == 'lin':
        lo, hi = srange(a, w)
        n = max(lo.bit_length() if lo >= 0 else (-lo - 1).bit_length(), hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1
        if n < w:
            return mk('sitofp', fw, (trunc(a, w, n), n), True)
    return mk('sitofp', fw, (a, w), True)


def uitofp(a, w, fw):
    if a.__class__ is int:
        return rnd(float(a), fw)
    if a.op == 'bits':
        b = a.args
        n = w
        while n > 1 and b[n - 1] == 0:
            n -= 1
        z = _low_zeros(b, n, fw)
        if z:
            return mk('fmul', fw, (math.ldexp(1.0, z), mk('uitofp', fw, (mk_bits(b[z:n]), n - z), True)), True)
        return mk('uitofp', fw, (mk_bits(b[:n]), n), True)
    return mk('uitofp', fw, (a, w), True)


def fptosi(a, fw, w):
    if a.__class__ is float:
        if not math.isfinite(a) or not (-(1 << (w - 1)) <= int(a) < (1 << (w - 1))):
            return mk_undef(w, why='float value out of range of the integer type')
        return int(a) & mask(w)
    if a.op in ('sitofp', 'uitofp') and a.args[1] <= (53 if fw == 64 else 24):
        x, xw = a.args
        if a.op == 'sitofp':
            if xw <= w:
                return sext(x, xw, w) if xw < w else x
        elif xw < w:
            return zext(x, xw, w)
    if a.op == 'fpext' and a.args[0].op in ('sitofp', 'uitofp'):
        return fptosi(a.args[0], 32, w)
    if a.op == 'fmul':
        r = _scaled_int(a, w, w - 1)
        if r is not None:
            return r
    return mk('fptosi', w, (a, fw))


def _scaled_int(a, w, room):
    sc = scaled(a)
    if sc is None or sc[0] < 0:
        return None
    k = int(math.log2(sc[0]))
    x, xw = sc[1].args
    if sc[1].op == 'sitofp':
        if k < 0 or xw + k > w or room == w:
            return None
        return shl(sext(x, xw, w) if xw < w else x, k, w)
    if k >= 0:
        if xw + k > room:
            return None
        return shl(zext(x, xw, w) if xw < w else x, k, w)
    if xw + k > room:
        return None
    if xw + k <= 0:
        return 0
    y = lshr(x, -k, xw)
    return zext(y, xw, w) if xw < w else trunc(y, xw, w) if xw > w else y


def fp_to_int(a, fw, w, conv):
    """conversion in a valuation: what the target computes when the value is out of range (the language leaves it undefined)"""
    if a.__class__ is float:
        v = int(a) if math.isfinite(a) else 1 << 70
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if conv is fptosi else (0, 1 << w)
        if not lo <= v < hi:
            # narrow types by way of a wider signed conversion, whose result out of range is its least value
            n = 32 if w < 32 or (w == 32 and conv is fptosi) else 64
            if not -(1 << (n - 1)) <= v < 1 << (n - 1):
                v = -(1 << (n - 1))
            return v & mask(w)
    return conv(a, fw, w)


def fptoui(a, fw, w):
    if a.__class__ is float:
        if not math.isfinite(a) or not (0 <= int(a) < (1 << w)):
            return mk_undef(w, why='float value out of range of the integer type')
        return int(a)
    if a.op == 'uitofp' and a.args[1] <= (53 if fw == 64 else 24):
        x, xw = a.args
        if xw <= w:
            return zext(x, xw, w) if xw < w else x
    if a.op == 'fmul':
        r = _scaled_int(a, w, w)
        if r is not None:
            return r
    return mk('fptoui', w, (a, fw))


def fpext(a, w, n):
    if a.__class__ is float:
        return a
    if a.op in ('sitofp', 'uitofp') and a.args[1] <= 24:
        return mk(a.op, n, a.args, True)
    return mk('fpext', n, (a,), True)


def fptrunc(a, w, n):
    if a.__class__ is float:
        return rnd(a, n)
    if a.op == 'fpext':
        return a.args[0]
    return mk('fptrunc', n, (a,), True)


_FC = {
    'oeq': lambda a, b: a == b, 'ogt': lambda a, b: a > b, 'oge': lambda a, b: a >= b,
    'olt': lambda a, b: a < b, 'ole': lambda a, b: a <= b, 'one': lambda a, b: a < b or a > b,
    'ord': lambda a, b: a == a and b == b, 'uno': lambda a, b: a != a or b != b,
    'ueq': lambda a, b: not (a < b or a > b), 'ugt': lambda a, b: not a <= b,
    'uge': lambda a, b: not a < b, 'ult': lambda a, b: not a >= b, 'ule': lambda a, b: not a > b,
    'une': lambda a, b: a != b, 'true': lambda a, b: True, 'false': lambda a, b: False,
}


def fcmp(pred, a, b, w):
    if a.__class__ is float and b.__class__ is float:
        return 1 if _FC[pred](a, b) else 0
    ra, rb = frange(a), frange(b)
    if ra is not None and rb is not None:
        p = pred[1:] if pred[0] in 'ou' and len(pred) == 3 else pred
        if p == 'lt' or p == 'ge':
            if ra[1] < rb[0]:
                return int(p == 'lt')
            if ra[0] >= rb[1]:
                return int(p == 'ge')
        elif p == 'gt' or p == 'le':
            if ra[0] > rb[1]:
                return int(p == 'gt')
            if ra[1] <= rb[0]:
                return int(p == 'le')
        elif p in ('eq', 'ne'):
            if ra[1] < rb[0] or ra[0] > rb[1]:
                return int(p == 'ne')
    if pred in ('oeq', 'one', 'une', 'ueq'):
        if a.__class__ is float or (b.__class__ is Term and a.uid > b.uid):
            a, b = b, a
    elif pred in _FSWAP:
        pred, a, b = _FSWAP[pred], b, a
    if pred in _FNEG:
        return bnot(fcmp(_FNEG[pred], a, b, w))
    r = _fcmp_int(pred, a, b)
    if r is not None:
        return r
    return mk_bits((bitcode(mk('fcmp', 1, (pred, a, b)), 0),))


_FSWAP = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}
_FNEG = {'une': 'oeq', 'ueq': 'one', 'uno': 'ord', 'ult': 'oge', 'ule': 'ogt'}


def _fcmp_int(pred, a, b):
    """a comparison of a scaled converted integer with a constant is one of integers"""
    x, k, left = (a, b, True) if b.__class__ is float else (b, a, False)
    if k.__class__ is not float or x.__class__ is not Term or not math.isfinite(k) or x.w != 64:
        return None
    if pred in ('oeq', 'one') and k == 0 and x.op == 'fadd':
        p, q = x.args
        rp, rq = frange(p), frange(q)
        if rp is not None and rq is not None and rp[0] >= 0 and rq[0] >= 0:
            z = and_(fcmp('oeq', p, 0.0, 64), fcmp('oeq', q, 0.0, 64), 1)
            return z if pred == 'oeq' else bnot(z)
        return None
    sc = scaled(x)
    if sc is None:
        return None
    c, t = sc
    q = k / c
    if not math.isfinite(q) or q * c != k:
        return None
    v, vw = t.args
    signed = t.op == 'sitofp'
    lo, hi = (srange if signed else urange)(v, vw)
    if pred in ('oeq', 'one'):
        if q != math.floor(q) or not lo <= q <= hi:
            return int(pred == 'one')
        e = eq(v, int(q) & mask(vw), vw)
        return e if pred == 'oeq' else bnot(e)
    if pred not in ('olt', 'ole'):
        return None
    less = left == (c > 0)            # t < q (or <=), otherwise t > q
    strict = pred == 'olt'
    if less:
        # t < n  with  n = ceil(q) or floor(q) + 1
        n = math.ceil(q) if strict else math.floor(q) + 1
        neg = False
    else:
        # t >= n is the negation of t < n
        n = math.floor(q) + 1 if strict else math.ceil(q)
        neg = True
    if n <= lo:
        r = 0
    elif n > hi:
        r = 1
    else:
        r = (slt if signed else ult)(v, n & mask(vw), vw)
    return bnot(r) if neg else r


def _fint(name, a):
    sc = scaled(a)
    if sc is None or sc[0] < 0:
        return None
    k = math.frexp(sc[0])[1] - 1
    if k >= 0:
        return a
    x, n = sc[1].args
    if name == 'ceil':
        return None                       # may be a negative zero
    if sc[1].op == 'uitofp':
        return uitofp(lshr(x, -k, n), n, 64) if -k < n else 0.0
    if name == 'floor':
        return sitofp(ashr(x, min(-k, n - 1), n), n, 64)
    return None


def fcall(name, args, w=64):
    if name == 'exp2':
        name, args = 'pow', (2.0, args[0])
    if all(x.__class__ is not Term for x in args):
        return fcall_c(name, args, w)
    if name == 'fabs' and w == 64:
        sc = scaled(args[0])
        if sc is not None and sc[1].op == 'uitofp':
            c = abs(sc[0])
            return sc[1] if c == 1.0 else mk('fmul', w, (c, sc[1]), True)
        if sc is not None and srange(*sc[1].args)[1] <= 0:
            x, n = sc[1].args
            y = sub(0, sext(x, n, n + 1), n + 1)
            if srange(y, n + 1)[0] >= 0:
                return fbin('fmul', abs(sc[0]), uitofp(y, n + 1, 64), 64)
    if name in ('round', 'nearbyint', 'rint') and w == 64:
        sc = scaled(args[0])
        if sc is not None and sc[0] == int(sc[0]):
            return args[0]
    if name in ('floor', 'ceil', 'trunc') and w == 64:
        r = _fint(name, args[0])
        if r is not None:
            return r
    if name == 'ldexp' and w == 64 and args[1].__class__ is int:
        k = sgn(args[1] & 0xffffffff, 32)
        if -900 < k < 900 and scaled(args[0]) is not None:
            return fbin('fmul', math.ldexp(1.0, k), args[0], w)
    if name in ('frexp_m', 'frexp_e'):
        sc = scaled(args[0])
        if sc is not None and sc[1].op == 'uitofp' and sc[1].args[0].__class__ is Term and sc[1].args[0].op == 'bits':
            bits = sc[1].args[0].args
            n = len(bits)
            while n and bits[n - 1] == 0:
                n -= 1
            if n and bits[n - 1] == 1:
                k = n + math.frexp(sc[0])[1] - 1
                if name == 'frexp_e':
                    return float(k)
                return fbin('fmul', math.ldexp(1.0, -k), args[0], w)
    if name == 'ilogb_f':
        e = fcall('frexp_e', args)
        if e.__class__ is float:
            return e - 1
    return mk('fcall', w, (name,) + tuple(args), True)


def fcall_c(name, args, w=64):
    try:
        if name == 'pow':
            r = math.pow(*args)
        elif name == 'ldexp':
            r = math.ldexp(args[0], sgn(args[1] & 0xffffffff, 32))
        elif name == 'fabs':
            r = abs(args[0])
        elif name == 'copysign':
            r = math.copysign(args[0], args[1])
        elif name == 'round':
            r = float(math.floor(abs(args[0]) + 0.5)) * math.copysign(1, args[0])
        elif name in ('nearbyint', 'rint'):
            r = float(round(args[0]))
        elif name == 'fma':
            r = args[0] * args[1] + args[2]
        elif name == 'exp2':
            r = 2.0 ** args[0]
        elif name == 'frexp_m':
            r = math.frexp(args[0])[0]
        elif name == 'frexp_e':
            r = float(math.frexp(args[0])[1])
        elif name == 'ilogb_f':
            r = float(math.frexp(args[0])[1] - 1)
        elif name == 'fmin':
            r = min(args[0], args[1])
        elif name == 'fmax':
            r = max(args[0], args[1])
        else:
            r = float(getattr(math, name)(*args))
    except (ValueError, OverflowError):
        r = math.nan if name not in ('pow', 'exp', 'exp2', 'ldexp') else math.inf
        if name == 'log' or name == 'log2' or name == 'log10':
            r = -math.inf if args[0] == 0 else math.nan
    return rnd(float(r), w)


# ------------------------------------------------------------------ table lookups
def table(idx, values, w):
    """values[idx], idx a Term"""
    return mk('tab', w, (idx, values))


# ------------------------------------------------------------------ evaluation
class Poison(Exception):
    pass


def support(t, acc=None, seen=None):
    """input atoms (and undef atoms) a value depends on"""
    if acc is None:
        acc = {}
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.__class__ is tuple:
            stack.extend(x)
            continue
        if x.__class__ is not Term or x.uid in seen:
            continue
        seen.add(x.uid)
        o = x.op
        if o in ('in', 'fin', 'undef'):
            acc[x.uid] = x
        if o == 'bits':
            for b in x.args:
                if b > 1:
                    stack.append(code_atom(b)[0])
        elif o == 'lin':
            for b, _ in x.args[1]:
                stack.append(code_atom(b)[0])
        elif o in ('band', 'bxor'):
            for b in x.args:
                stack.append(code_atom(b)[0])
        elif o == 'tab':
            stack.append(x.args[0])
        else:
            stack.extend(x.args)
    return acc


def evaluate(v, env, memo=None):
    """constant-fold v under an assignment of its input atoms"""
    if v.__class__ is not Term:
        return v
    if memo is None:
        memo = {}
    r = memo.get(v.uid)
    if r is not None:
        return r

    def bit(c):
        if c <= 1:
            return c
        t, k = code_atom(c)
        x = ev(t)
        if x.__class__ is float:
            x = f2i(x, t.w)
        return ((x >> k) & 1) ^ (c & 1)

    def ev(x):
        return evaluate(x, env, memo)

    o = v.op
    w = v.w
    a = v.args
    if o in ('in', 'fin', 'undef'):
        r = env(v)
    elif o == 'bits':
        r = 0
        for k, b in enumerate(a):
            if bit(b):
                r |= 1 << k
    elif o == 'lin':
        r = a[0]
        for c, k in a[1]:
            if bit(c):
                r += k
        r &= mask(w)
    elif o == 'band':
        r = bit(a[0]) & bit(a[1])
    elif o == 'bxor':
        r = bit(a[0]) ^ bit(a[1])
    elif o == 'ite' or o == 'fite':
        r = ev(a[1]) if ev(a[0]) else ev(a[2])
        if o == 'ite' and r.__class__ is float:
            r = f2i(r, w)
    elif o == 'tab':
        i = ev(a[0])
        if i >= len(a[1]):
            raise Poison('table index out of range')
        r = ev(a[1][i])
    elif o == 'mul':
        r = (ev(a[0]) * ev(a[1])) & mask(w)
    elif o in ('udiv', 'urem', 'sdiv', 'srem'):
        x, y = ev(a[0]), ev(a[1])
        if y == 0:
            raise Poison('division by zero')
        r = {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[o](x, y, w)
    elif o in ('shl', 'lshr', 'ashr'):
        x, y = ev(a[0]), ev(a[1])
        if y >= w:
            raise Poison('shift out of range')
        r = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[o](x, y, w)
    elif o == 'eq':
        r = 1 if ev(a[0]) == ev(a[1]) else 0
    elif o == 'ult':
        r = 1 if ev(a[0]) < ev(a[1]) else 0
    elif o == 'slt':
        r = 1 if sgn(ev(a[0]), a[2]) < sgn(ev(a[1]), a[2]) else 0
    elif o == 'fcmp':
        r = 1 if _FC[a[0]](ev(a[1]), ev(a[2])) else 0
    elif o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        r = rnd(fconst(o, ev(a[0]), ev(a[1])), w)
    elif o == 'fneg':
        r = -ev(a[0])
    elif o == 'sitofp':
        r = sitofp(ev(a[0]), a[1], w)
    elif o == 'uitofp':
        r = uitofp(ev(a[0]), a[1], w)
    elif o == 'fptosi':
        r = fp_to_int(ev(a[0]), a[1], w, fptosi)
        if r.__class__ is Term:
            raise Poison('float to int out of range')
    elif o == 'fptoui':
        r = fp_to_int(ev(a[0]), a[1], w, fptoui)
        if r.__class__ is Term:
            raise Poison('float to int out of range')
    elif o == 'fpext':
        r = ev(a[0])
    elif o == 'fptrunc':
        r = rnd(ev(a[0]), w)
    elif o == 'f2i':
        r = f2i(ev(a[0]), w)
    elif o == 'i2f':
        r = i2f(ev(a[0]), w)
    elif o == 'fcall':
        r = fcall_c(a[0], tuple(ev(x) for x in a[1:]), w)
    elif o == 'filebyte':
        r = env(v)
    else:
        r = env(v)
    memo[v.uid] = r
    return r


def subterms(v):
    seen = set()
    stack = [v]
    out = []
    while stack:
        x = stack.pop()
        if x.__class__ is tuple:
            stack.extend(x)
            continue
        if x.__class__ is not Term or x.uid in seen:
            continue
        seen.add(x.uid)
        out.append(x)
        o = x.op
        if o == 'bits':
            stack.extend(code_atom(b)[0] for b in x.args if b > 1)
        elif o == 'lin':
            stack.extend(code_atom(b)[0] for b, _ in x.args[1])
        elif o in ('band', 'bxor'):
            stack.extend(code_atom(b)[0] for b in x.args)
        elif o in ('in', 'fin', 'undef'):
            pass
        else:
            stack.extend(x.args)
    return out


_FVALS = [0.0, 1.0, -1.0, 2.5, -3.75, 100.0, -100.0, 1234.0, -1234.0, 32767.0, -32768.0,
          70000.0, -70000.0, 8388607.0, -8388608.0, 1e9, -1e9, 0.5, 1e-3, 7.0, 65535.0]


def _witness_seeds(terms, atoms):
    """assignments that make comparisons against constants hit their boundary"""
    out = []
    for t in terms:
        if t.op in ('eq', 'ult', 'slt'):
            x, y, w = t.args
            if x.__class__ is int:
                x, y = y, x
            if y.__class__ is not int or x.__class__ is not Term:
                continue
            for delta in (0, 1, -1):
                val = (y + delta) & mask(w)
                if x.op == 'lin':
                    continue
                asg = {}
                ok = True
                for k, b in enumerate(to_bits(x, w)):
                    want = (val >> k) & 1
                    if b <= 1:
                        if b != want:
                            ok = False
                            break
                        continue
                    at, i = code_atom(b)
                    if at.op != 'in':
                        ok = False
                        break
                    want ^= b & 1
                    d = asg.setdefault(at.uid, {})
                    if d.get(i, want) != want:
                        ok = False
                        break
                    d[i] = want
                if ok and asg:
                    out.append(asg)
        elif t.op == 'fcmp':
            p, x, y = t.args
            if x.__class__ is float:
                x, y = y, x
            if y.__class__ is float and x.__class__ is Term and x.op == 'fin':
                for v in (y, y + 1, y - 1, -y):
                    out.append({x.uid: float(v)})
    return out


def valuations(vals, n, seed):
    atoms = {}
    for v in vals:
        support(v, atoms)
    at = list(atoms.values())
    terms = []
    for v in vals:
        terms.extend(subterms(v))
    rng = random.Random(seed)
    corner = [lambda w: 0, lambda w: mask(w), lambda w: 1 << (w - 1), lambda w: mask(w) >> 1,
              lambda w: 1, lambda w: 0x5555555555555555 & mask(w)]
    out = []
    for c in corner:
        out.append({a.uid: (_FVALS[len(out) % len(_FVALS)] if a.f else c(a.w)) for a in at})
    if len(at) <= 24:
        for a in at:
            for k in range(0, a.w if not a.f else 0):
                e = {x.uid: (0.0 if x.f else 0) for x in at}
                e[a.uid] = 1 << k
                out.append(e)
    for i in range(n):
        e = {}
        for a in at:
            if a.f:
                e[a.uid] = rng.choice(_FVALS) if rng.random() < .7 else rng.uniform(-2e4, 2e4)
            else:
                e[a.uid] = rng.getrandbits(a.w)
        out.append(e)
    for asg in _witness_seeds(terms, at)[:64]:
        for rep in range(2):
            e = {}
            for a in at:
                if a.f:
                    e[a.uid] = asg.get(a.uid, rng.choice(_FVALS))
                else:
                    v = rng.getrandbits(a.w)
                    for k, b in asg.get(a.uid, {}).items():
                        v = (v & ~(1 << k)) | (b << k)
                    e[a.uid] = v
            out.append(e)
    return out


def plus(t):
    """the form in which a negated conversion is the conversion of the negated integer (the two zeros compare equal)"""
    sc = scaled(t)
    if sc is not None and sc[0] < 0:
        v, n = sc[1].args
        m = n + 1
        x = sitofp(sub(0, (sext if sc[1].op == 'sitofp' else zext)(v, n, m), m), m, 64)
        return x if sc[0] == -1.0 else mk('fmul', 64, (-sc[0], x), True)
    if t.op == 'fite':
        a, b = [plus(x) if x.__class__ is Term else x for x in t.args[1:]]
        return ite(t.args[0], a, b, t.w, True)
    return t


def same(a, b, w):
    """canonical equality"""
    if a is b:
        return True
    if a.__class__ is float or b.__class__ is float:
        if a.__class__ is float and b.__class__ is float:
            return a == b or (a != a and b != b)
        return False
    if a.__class__ is Term and b.__class__ is Term and a.f and b.f:
        return plus(a) is plus(b)
    if a.__class__ is int and b.__class__ is int:
        return a == b
    if (a.__class__ is Term and a.f) or (b.__class__ is Term and b.f):
        return False
    d = sub(a, b, w)
    return d.__class__ is int and d == 0


def compare(a, b, w, facts=(), n=48, seed=1):
    """'equal' (canonical forms agree) | ('differ', witness) | 'open'"""
    if same(a, b, w):
        return 'equal', None
    if a.__class__ is not Term and b.__class__ is not Term:
        return 'differ', {}
    facts = list(facts)
    tried = 0
    vals = [a, b] + facts
    atoms = {}
    for v in vals:
        support(v, atoms)
    total = sum(x.w for x in atoms.values()) if all(x.op == 'in' for x in atoms.values()) else 99
    if total <= 10:
        # few enough: the whole table
        at = list(atoms.values())
        every = []
        for k in range(1 << total):
            e = {}
            for x in at:
                e[x.uid] = k & mask(x.w)
                k >>= x.w
            every.append(e)
    else:
        every = None
    poison = False
    for e in every or valuations(vals, n, seed):
        def env(t, e=e):
            r = e.get(t.uid)
            if r is None:
                raise Poison('no value for %s' % (t.op,))
            return r
        memo = {}
        try:
            bad = False
            for f in facts:
                if not evaluate(f, env, memo):
                    bad = True
                    break
            if bad:
                continue
            x = evaluate(a, env, memo)
            y = evaluate(b, env, memo)
        except Poison:
            poison = True
            continue
        tried += 1
        if x.__class__ is float or y.__class__ is float:
            x = i2f(x, w)
            y = i2f(y, w)
            if x == y or (x != x and y != y):
                continue
            # different association of the same scaling may round differently
            if math.isfinite(x) and math.isfinite(y) and abs(x - y) <= 1e-9 * max(abs(x), abs(y)):
                continue
        elif x == y:
            continue
        wit = {}
        for t in support((a, b)).values():
            wit[show(t)] = e.get(t.uid)
        return 'differ', {'inputs': wit, 'found': x, 'required': y}
    if every and not poison:
        return 'equal', None
    return 'open', tried


def satisfiable_witness(conds, n=64, seed=1):
    """an assignment under which all 1-bit values hold, or None"""
    conds = [c for c in conds if c.__class__ is Term]
    if not conds:
        return {}
    for e in valuations(conds, n, seed):
        def env(t, e=e):
            r = e.get(t.uid)
            if r is None:
                raise Poison()
            return r
        memo = {}
        try:
            if all(evaluate(c, env, memo) for c in conds):
                return {show(t): e[t.uid] for t in support(tuple(conds)).values()}
        except Poison:
            continue
    return None


# ------------------------------------------------------------------ printing
def show(v, depth=0):
    if v.__class__ is not Term:
        return repr(v) if v.__class__ is not int else (str(v) if v < 4096 else hex(v))
    if depth > 4:
        return '...'
    o = v.op
    if o in ('in', 'fin'):
        return str(v.args[0])
    if o == 'undef':
        return 'UNINITIALISED(%s)' % (v.args[1] or '')
    if o == 'bits':
        segs = []
        k = 0
        n = len(v.args)
        while k < n:
            b = v.args[k]
            j = k + 1
            if b <= 1:
                while j < n and v.args[j] == b:
                    j += 1
                segs.append('%s*%d' % (b, j - k))
            else:
                if j < n and v.args[j] == b:
                    while j < n and v.args[j] == b:
                        j += 1
                    t, i = code_atom(b)
                    segs.append('%s%s[%d]*%d' % ('~' if b & 1 else '', show(t, depth + 1), i, j - k))
                else:
                    while j < n and v.args[j] == b + ((j - k) << 1):
                        j += 1
                    t, i = code_atom(b)
                    nm = show(t, depth + 1)
                    if j - k == t.w:
                        segs.append(('~' if b & 1 else '') + nm)
                    else:
                        segs.append('%s%s[%d..%d]' % ('~' if b & 1 else '', nm, i, i + j - k - 1))
            k = j
        return '{' + ' '.join(reversed(segs)) + '}'
    if o == 'lin':
        # group full fields
        parts = []
        c, d = v.args
        rest = dict(d)
        for code, k in d:
            if code not in rest:
                continue
            t, i = code_atom(code)
            base = code - (i << 1)
            if i == 0:
                kk = rest[code]
                run = 0
                while run < t.w and rest.get(base + (run << 1)) == (kk << run) & mask(v.w):
                    run += 1
                if run > 1:
                    for r in range(run):
                        del rest[base + (r << 1)]
                    parts.append('%d*%s%s' % (sgn(kk, v.w), show(t, depth + 1),
                                              '' if run == t.w else '[0..%d]' % (run - 1)))
                    continue
            parts.append('%d*%s[%d]' % (sgn(rest.pop(code), v.w), show(t, depth + 1), i))
            if len(parts) > 12:
                parts.append('...')
                break
        if c:
            parts.append(str(sgn(c, v.w)))
        return '(' + ' + '.join(parts) + ')'
    if o in ('band', 'bxor'):
        return '%s(%s,%s)' % (o, *[('~' if b & 1 else '') + '%s[%d]' % (show(code_atom(b)[0], depth + 1), code_atom(b)[1]) for b in v.args])
    if o == 'tab':
        return 'table%d[%s]' % (len(v.args[1]), show(v.args[0], depth + 1))
    return '%s(%s)' % (o, ', '.join(show(x, depth + 1) for x in v.args))

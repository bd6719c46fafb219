"""Reader for the textual LLVM IR of the linked program.

Parses types, globals, metadata needed for source locations, and (lazily, on
first use) function bodies.  Every basic block is translated to a small python
function over the register file; the abstract semantics live in machine.py.
"""
import re
import struct

TOK = re.compile(r'''
   c"(?:[^"])*"
 | [%@]"(?:[^"])*"
 | [%@][-\w.$]+
 | ![\w.]*
 | \#\d+
 | 0x[HKLMR]?[0-9A-Fa-f]+
 | -?\d+\.\d*(?:[eE][-+]?\d+)?
 | -?\d+
 | "(?:[^"])*"
 | \.\.\.
 | [A-Za-z_.][\w.]*
 | [\[\]{}()<>,=*:|]
''', re.X)

PTR = ('p',)
VOID = ('v',)


def tokenize(s):
    return TOK.findall(s)


class IRError(Exception):
    pass


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise IRError('expected %s got %s in %s' % (x, v, ' '.join(self.t[:60])))

    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
            r = PTR
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t == 'double':
            r = ('f', 64)
        elif t == 'float':
            r = ('f', 32)
        elif t == 'x86_fp80':
            r = ('f', 80)
        elif t == 'void':
            r = VOID
        elif t in ('label', 'metadata', 'token', 'opaque'):
            r = (t,)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('a', n, e)
        elif t == '{':
            r = ('s', self._fields('}'), False)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                f = self._fields('}')
                self.expect('>')
                r = ('s', f, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t[0] == '%':
            r = ('n', t)
        else:
            raise IRError('type? %r in %s' % (t, ' '.join(self.t[:60])))
        # function type suffix
        while self.peek() == '(' and r[0] in ('v', 'i', 'p', 'f', 's', 'n', 'a') and self._is_fnty():
            self.next()
            ps = []
            va = False
            while not self.eat(')'):
                if self.eat('...'):
                    va = True
                else:
                    ps.append(self.type())
                self.eat(',')
            r = ('fn', r, tuple(ps), va)
        return r

    def _is_fnty(self):
        # only in call instructions:  call T (T, ...) @f(
        d = 0
        j = self.i
        while j < len(self.t):
            x = self.t[j]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else None
                    return nx is not None and (nx[0] in '@%')
            j += 1
        return False

    def _fields(self, end):
        f = []
        while not self.eat(end):
            f.append(self.type())
            self.eat(',')
        return tuple(f)

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t == 'align':
                self.next()
                self.next()
                continue
            if t[0].isalpha() and t not in CONSTWORDS and not t.startswith('c"'):
                self.next()
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                continue
            if t[0] == '"':
                self.next()
                if self.eat('='):
                    self.next()
                continue
            return


CONSTWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr',
              'ptrtoint', 'inttoptr', 'bitcast', 'none', 'add', 'sub', 'trunc', 'asm', 'blockaddress',
              'dso_local_equivalent', 'no_cfi', 'addrspacecast', 'mul', 'xor', 'icmp', 'select', 'metadata'}


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode('latin-1', 'replace')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> line text
        self.fn_text = {}     # name -> (header, body lines)
        self.decls = {}
        self.md = {}
        self.aliases = {}
        self.ctors = None
        self._lay = {}
        self._size = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                nm = self._fname(ln)
                self.fn_text[nm] = (ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln:
                c = ln[0]
                if c == '%':
                    k = ln.index(' = type ')
                    self.types[ln[:k]] = ln[k + 8:]
                elif c == '@':
                    k = self._gname_end(ln)
                    nm = ln[:k]
                    if re.match(r' = (?:[\w()]+ )*alias ', ln[k:k + 80]):
                        self.aliases[nm] = ln[k + 3:]
                    else:
                        self.globals[nm] = ln[k + 3:]
                elif ln.startswith('declare '):
                    self.decls[self._fname(ln)] = ln
                elif c == '!' and len(ln) > 1 and ln[1].isdigit():
                    k = ln.index(' = ')
                    self.md[int(ln[1:k])] = ln[k + 3:]
            i += 1

    @staticmethod
    def _gname_end(ln):
        if ln[1] == '"':
            return ln.index('"', 2) + 1
        return ln.index(' ')

    @staticmethod
    def _fname(ln):
        k = ln.index('@')
        if ln[k + 1] == '"':
            return ln[k:ln.index('"', k + 2) + 1]
        return ln[k:ln.index('(', k)]

    # ---- type layout
    def resolve(self, t):
        while t[0] == 'n':
            d = self.types.get(t[1])
            if d is None:
                raise IRError('unknown type ' + t[1])
            if d.__class__ is str:
                d = P(self, tokenize(d)).type()
                self.types[t[1]] = d
            t = d
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            w = (t[1] + 7) // 8
            a = 1
            while a < w:
                a *= 2
            return min(a, 16)
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 's':
            if t[2]:
                return 1
            return max([self.align(f) for f in t[1]] or [1])
        raise IRError('align %r' % (t,))

    def size(self, t):
        s = self._size.get(t)
        if s is not None:
            return s
        r = self.resolve(t)
        k = r[0]
        if k == 'i':
            s = (r[1] + 7) // 8
            a = self.align(r)
            s = (s + a - 1) // a * a
        elif k == 'f':
            s = {32: 4, 64: 8, 80: 16}[r[1]]
        elif k == 'p':
            s = 8
        elif k == 'a' or k == 'vec':
            s = r[1] * self.size(r[2])
        elif k == 's':
            s = self.layout(r)[1]
        else:
            raise IRError('size %r' % (t,))
        self._size[t] = s
        return s

    def layout(self, t):
        """field offsets, size of a struct type"""
        r = self._lay.get(t)
        if r is None:
            st = self.resolve(t)
            off = 0
            offs = []
            amax = 1
            for f in st[1]:
                if not st[2]:
                    a = self.align(f)
                    amax = max(amax, a)
                    off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(f)
            off = (off + amax - 1) // amax * amax
            r = self._lay[t] = (offs, off)
        return r

    # ---- debug locations
    def loc(self, n):
        """(file, line, function) for DILocation n"""
        d = self.md.get(n)
        if d is None:
            return ('?', 0, '?')
        if d.__class__ is tuple:
            return d
        m = re.search(r'line: (\d+)', d)
        line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: !(\d+)', d)
        fil, fn = self.scope(int(sc.group(1))) if sc else ('?', '?')
        r = (fil, line, fn)
        self.md[n] = r
        return r

    def scope(self, n):
        fil = None
        for _ in range(50):
            d = self.md.get(n)
            if d is None or d.__class__ is tuple:
                break
            m = re.search(r'file: !(\d+)', d)
            if fil is None and m:
                f = self.md.get(int(m.group(1)), '')
                mm = re.search(r'filename: "([^"]*)"', f) if f.__class__ is str else None
                fil = mm.group(1) if mm else '?'
            if 'DISubprogram' in d:
                mm = re.search(r'name: "([^"]*)"', d)
                return fil or '?', mm.group(1) if mm else '?'
            m = re.search(r'scope: !(\d+)', d)
            if not m:
                break
            n = int(m.group(1))
        return fil or '?', '?'


DBG = re.compile(r', !dbg !(\d+)')
MDSUF = re.compile(r'(, ![\w.]+ ![\d]+)+$')


class Func:
    __slots__ = ('name', 'nregs', 'nargs', 'blocks', 'phis', 'names', 'ipdom', 'succ', 'byval',
                 'defloc', 'isrepo', 'argtypes', 'bindex', 'visits')


def float_const(tok, w):
    if tok.startswith('0x'):
        v = struct.unpack('>d', struct.pack('>Q', int(tok[2:], 16)))[0]
        return v
    return float(tok)

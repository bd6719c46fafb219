"""Translate one IR function into per-block python functions."""
import re
from . import terms as D
from .terms import Term, mk_undef
from .ir import P, PTR, Func, IRError, tokenize, DBG, MDSUF
from .machine import IRThrow, PathDead, Unresolved, RET, FORK

LABEL = re.compile(r'^([-\w.$]+|"[^"]*"):')
CALLKW = {'tail', 'musttail', 'notail', 'call', 'invoke', 'fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz',
          'arcp', 'contract', 'afn', 'reassoc', 'fast'}
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'fast', 'inbounds'}


def pyname(b):
    return 'b%d' % b


class CG:
    def __init__(self, m, name):
        self.m = m
        self.name = name
        self.regs = {}
        self.consts = []
        self.lines = []

    def reg(self, n):
        r = self.regs.get(n)
        if r is None:
            r = self.regs[n] = len(self.regs)
        return r

    def lit(self, v, ty=None):
        if v is None:
            v = self.m.zero(ty)
        if v.__class__ is int:
            return repr(v)
        if v.__class__ is float and v == v and v not in (float('inf'), float('-inf')):
            return repr(v)
        self.consts.append(v)
        return 'K[%d]' % (len(self.consts) - 1)

    def operand(self, p, ty):
        p.skip_attrs()
        t = p.peek()
        if t[0] == '%':
            p.next()
            return 'R[%d]' % self.reg(t)
        if t in ('undef', 'poison'):
            p.next()
            r = self.m.mod.resolve(ty)
            if r[0] in ('i', 'p', 'f'):
                return 'mk_undef(%d,%s,"undefined value")' % (64 if r[0] == 'p' else r[1], r[0] == 'f')
            self.consts.append(ty)
            return 'M.zero_or_undef(K[%d])' % (len(self.consts) - 1)
        if t == 'metadata':
            raise IRError('metadata operand')
        return self.lit(self.m.const(p, ty), ty)

    def tyop(self, p):
        ty = p.type()
        return ty, self.operand(p, ty)


def isint(e):
    return e.lstrip('-').isdigit()


def width(t):
    return 64 if t[0] == 'p' else t[1]


def compile_function(m, name):
    hdr, body = m.mod.fn_text[name]
    cg = CG(m, name)
    F = Func()
    F.name = name
    F.visits = 0
    md = re.search(r'!dbg !(\d+)', hdr)
    F.defloc = ('?', 0, '?')
    if md:
        fil, fn = m.mod.scope(int(md.group(1)))
        F.defloc = (fil, 0, fn)
    F.isrepo = m.repo_prefix in F.defloc[0]
    # parameters
    toks = tokenize(hdr)
    k = toks.index(name)
    p = P(m.mod, toks)
    p.i = k + 1
    p.expect('(')
    F.byval = []
    n = 0
    unnamed = 0
    while not p.eat(')'):
        if p.eat('...'):
            continue
        p.type()
        while p.peek()[0] != '%' and p.peek() not in (',', ')'):
            t = p.next()
            if t == 'byval':
                p.expect('(')
                ty = p.type()
                p.expect(')')
                F.byval.append((n, m.mod.size(ty)))
            elif t == 'align':
                p.next()
            elif p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
        if p.peek()[0] == '%':
            cg.reg(p.next())
        else:
            cg.reg('%' + str(unnamed))
        unnamed += 1
        n += 1
        p.eat(',')
    F.nargs = n
    # blocks
    blocks = []      # (label, [instr text])
    cur = None
    i = 0
    nb = len(body)
    while i < nb:
        ln = body[i]
        i += 1
        if not ln or ln.lstrip().startswith(';'):
            continue
        if not ln.startswith(' '):
            mt = LABEL.match(ln)
            if mt:
                cur = (mt.group(1), [])
                blocks.append(cur)
                continue
        if cur is None:
            cur = ('', [])
            blocks.append(cur)
        s = ln.strip()
        if s.startswith('switch ') or ' = landingpad ' in s or ' invoke ' in s or s.startswith('invoke '):
            # continuation lines
            if s.startswith('switch '):
                while ']' not in s.split('[', 1)[-1]:
                    s += ' ' + body[i].strip()
                    i += 1
            elif 'landingpad' in s:
                while i < nb and re.match(r'\s+(catch|filter|cleanup)', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            else:
                while ' unwind label ' not in s:
                    s += ' ' + body[i].strip()
                    i += 1
        cur[1].append(s)
    index = {}
    if blocks and blocks[0][0] == '':
        # implicit entry label = number of parameters
        index['%' + str(unnamed)] = 0
    for k, (lb, _) in enumerate(blocks):
        if lb:
            index['%' + lb] = k
    F.bindex = index
    F.succ = []
    src = ['def make(M,K,FN,D,mk_undef,IRThrow,PathDead,Unresolved):',
           '  add,sub,mul,and_,or_,xor,ite,icmp,gepx=D.add,D.sub,D.mul,D.and_,D.or_,D.xor,D.ite,D.icmp,M_gep(M,D)',
           '  load,loadf,store=M.load,M.loadf,M.store']
    names = []
    phin = []
    for k, (lb, ins) in enumerate(blocks):
        phis = [s for s in ins if ' = phi ' in s]
        rest = [s for s in ins if ' = phi ' not in s]
        if phis:
            src.append('  def p%d(R,prev):' % k)
            cases = {}
            dsts = []
            for s in phis:
                s = MDSUF.sub('', DBG.sub('', s))
                t = tokenize(s)
                p = P(m.mod, t)
                d = cg.reg(p.next())
                dsts.append(d)
                p.expect('=')
                p.expect('phi')
                while p.peek() in FLAGS:
                    p.next()
                ty = p.type()
                while True:
                    p.expect('[')
                    v = cg.operand(p, ty)
                    p.expect(',')
                    b = p.next()
                    p.expect(']')
                    cases.setdefault(index[b], []).append(v)
                    if not p.eat(','):
                        break
            first = True
            for b, vs in cases.items():
                # the same predecessor may be listed several times with equal values
                vs = vs[:len(dsts)] if len(vs) == len(dsts) else [vs[j * (len(vs) // len(dsts))] for j in range(len(dsts))]
                src.append('    %sif prev==%d:' % ('' if first else 'el', b))
                first = False
                src.append('      ' + ','.join('R[%d]' % d for d in dsts) + '=' + ','.join(vs))
            src.append('    else: raise Unresolved("phi")')
            phin.append('p%d' % k)
        else:
            phin.append('None')
        out = []
        succ = []
        term = False
        lastloc = None
        for s in rest:
            term = gen(cg, s, out, succ, index)
            if term:
                break
        src.append('  def %s(R):' % pyname(k))
        if not out:
            out.append('return -1')
        for l in out:
            src.append('    ' + l)
        names.append(pyname(k))
        F.succ.append(succ)
    src.append('  return [%s],[%s]' % (','.join(names), ','.join(phin)))
    ns = {'M_gep': m_gep}
    try:
        exec(compile('\n'.join(src), name, 'exec'), ns)
    except SyntaxError:
        raise IRError('codegen failed for %s\n%s' % (name, '\n'.join(src)))
    F.blocks, F.phis = ns['make'](m, cg.consts, m.FN, D, mk_undef, IRThrow, PathDead, Unresolved)
    F.nregs = len(cg.regs) + 1
    F.names = cg.regs
    F.ipdom = None
    return F


def m_gep(M, D):
    def gep(base, c, idx):
        a = D.add(base, c & D.mask(64), 64)
        for v, sc, w in idx:
            if w < 64:
                v = D.sext(v, w, 64)
            a = D.add(a, D.mul(v, sc & D.mask(64), 64), 64)
        return a
    return gep


def gen(cg, s, out, succ, index):
    """append python for one instruction; True if it is a terminator"""
    m = cg.m
    mod = m.mod
    md = DBG.search(s)
    loc = int(md.group(1)) if md else None
    s = MDSUF.sub('', DBG.sub('', s))
    t = tokenize(s)
    p = P(mod, t)
    dst = None
    if t[0][0] == '%' and t[1] == '=':
        dst = cg.reg(t[0])
        p.i = 2
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()

    def setloc():
        if loc is not None:
            out.append('M.loc=%d' % loc)

    def assign(e):
        if dst is None:
            out.append(e)
        else:
            out.append('R[%d]=%s' % (dst, e))

    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        w = ty[1]
        a = cg.operand(p, ty)
        p.expect(',')
        b = cg.operand(p, ty)
        mk = D.mask(w)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            fn = {'and': 'and_', 'or': 'or_'}.get(op, op)
            e = 'a%sb' % sym
            if op in ('add', 'sub', 'mul'):
                e = '(%s)&%d' % (e, mk)
            out.append('a=%s;b=%s' % (a, b))
            assign('%s if a.__class__ is int and b.__class__ is int else %s(a,b,%d)' % (e, fn, w))
        else:
            setloc()
            assign('D.%s(%s,%s,%d)' % (op, a, b, w))
        return False
    if op == 'icmp':
        pred = p.next()
        if pred == 'samesign':
            pred = p.next()
        ty = p.type()
        w = width(ty)
        a = cg.operand(p, ty)
        p.expect(',')
        b = cg.operand(p, ty)
        sb = 1 << (w - 1)
        x, y = 'a', 'b'
        if pred[0] == 's':
            x, y = '(a^%d)' % sb, '(b^%d)' % sb
        cmpop = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}[pred if len(pred) == 2 else pred[1:]]
        out.append('a=%s;b=%s' % (a, b))
        assign('(1 if %s%s%s else 0) if a.__class__ is int and b.__class__ is int else icmp(%r,a,b,%d)' % (x, cmpop, y, pred, w))
        return False
    if op == 'load':
        p.eat('volatile')
        p.eat('atomic')
        ty = p.type()
        p.expect(',')
        _, a = cg.tyop(p)
        setloc()
        r = mod.resolve(ty)
        if r[0] == 'p':
            assign('load(%s,8)' % a)
        elif r[0] == 'i' and r[1] % 8 == 0:
            assign('load(%s,%d)' % (a, r[1] // 8))
        elif r[0] == 'f' and r[1] != 80:
            assign('loadf(%s,%d)' % (a, r[1] // 8))
        else:
            cg.consts.append(ty)
            assign('M.load_t(%s,K[%d])' % (a, len(cg.consts) - 1))
        return False
    if op == 'store':
        p.eat('volatile')
        p.eat('atomic')
        ty, v = cg.tyop(p)
        p.expect(',')
        _, a = cg.tyop(p)
        setloc()
        r = mod.resolve(ty)
        if r[0] == 'p':
            out.append('store(%s,8,%s)' % (a, v))
        elif r[0] == 'i' and r[1] % 8 == 0:
            out.append('store(%s,%d,%s)' % (a, r[1] // 8, v))
        elif r[0] == 'f' and r[1] != 80:
            out.append('store(%s,%d,%s)' % (a, r[1] // 8, v))
        else:
            cg.consts.append(ty)
            out.append('M.store_t(%s,K[%d],%s)' % (a, len(cg.consts) - 1, v))
        return False
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.expect(',')
        _, base = cg.tyop(p)
        c = 0
        var = []
        ty = bt
        first = True
        while p.eat(','):
            it = p.type()
            e = cg.operand(p, it)
            r = mod.resolve(ty)
            if first:
                sz = mod.size(ty)
                first = False
            elif r[0] == 's':
                f = int(e)
                c += mod.layout(ty if ty[0] == 'n' else r)[0][f]
                ty = r[1][f]
                continue
            else:
                ty = r[2]
                sz = mod.size(ty)
            if isint(e):
                c += D.sgn(int(e), it[1]) * sz
            else:
                var.append((e, sz, it[1]))
        if not var:
            if c == 0:
                assign(base)
            else:
                out.append('a=%s' % base)
                assign('(a+%d)&0xffffffffffffffff if a.__class__ is int else add(a,%d,64)' % (c, c & D.mask(64)))
        elif len(var) == 1 and var[0][2] == 64:
            e, sz, _ = var[0]
            out.append('a=%s;b=%s' % (base, e))
            assign('(a+b*%d+%d)&0xffffffffffffffff if a.__class__ is int and b.__class__ is int else gepx(a,%d,((b,%d,64),))' % (sz, c, c, sz))
        else:
            assign('gepx(%s,%d,(%s,))' % (base, c, ','.join('(%s,%d,%d)' % v for v in var)))
        return False
    if op in ('call', 'invoke'):
        return gen_call(cg, p, op, dst, out, succ, index, loc)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            b = index[p.next()]
            succ.append(b)
            out.append('return %d' % b)
            return True
        ty, c = cg.tyop(p)
        p.expect(',')
        p.expect('label')
        bt = index[p.next()]
        p.expect(',')
        p.expect('label')
        bf = index[p.next()]
        succ += [bt, bf]
        out.append('c=%s' % c)
        out.append('if c.__class__ is int: return %d if c else %d' % (bt, bf))
        setloc()
        out.append('d=M.decide(c)')
        out.append('if d is not None: return %d if d else %d' % (bt, bf))
        out.append('M.fk=(c,%d,%d)' % (bt, bf))
        out.append('return -2')
        return True
    if op == 'switch':
        ty, v = cg.tyop(p)
        p.expect(',')
        p.expect('label')
        df = index[p.next()]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = m.const(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv, index[p.next()]))
        succ += [df] + [b for _, b in cases]
        cg.consts.append(dict(cases))
        kd = len(cg.consts) - 1
        out.append('v=%s' % v)
        out.append('if v.__class__ is int: return K[%d].get(v,%d)' % (kd, df))
        setloc()
        # decide case by case; an undecided case forks on "value == case"
        out.append('for cv,cb in K[%d].items():' % kd)
        out.append('  c=D.eq(v,cv,%d)' % width(ty))
        out.append('  d=c if c.__class__ is int else M.decide(c)')
        out.append('  if d is None: return M.switch_fork(v,K[%d],%d,%d,R)' % (kd, df, width(ty)))
        out.append('  if d: return cb')
        out.append('return %d' % df)
        return True
    if op == 'ret':
        if p.peek() == 'void':
            out.append('M.ret=None')
        else:
            _, v = cg.tyop(p)
            out.append('M.ret=%s' % v)
        succ.append('ret')
        out.append('return -1')
        return True
    if op == 'unreachable':
        setloc()
        out.append('M.die("unreachable","flow reaches code the compiler marked unreachable (missing return or undefined behaviour)")')
        out.append('return -1')
        return True
    if op == 'resume':
        _, v = cg.tyop(p)
        out.append('raise M.resume(%s)' % v)
        return True
    if op == 'alloca':
        ty = p.type()
        cnt = '1'
        if p.eat(',') and p.peek() != 'align':
            _, cnt = cg.tyop(p)
        setloc()
        assign('M.alloca(%d*%s,R[-1],%r)' % (mod.size(ty), cnt, tname(ty)))
        return False
    if op == 'fcmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = cg.operand(p, ty)
        p.expect(',')
        b = cg.operand(p, ty)
        assign('D.fcmp(%r,%s,%s,%d)' % (pred, a, b, ty[1]))
        return False
    if op in FBIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = cg.operand(p, ty)
        p.expect(',')
        b = cg.operand(p, ty)
        assign('D.fbin(%r,%s,%s,%d)' % (op, a, b, ty[1]))
        return False
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty, a = cg.tyop(p)
        assign('D.fneg(%s,%d)' % (a, ty[1]))
        return False
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
              'fpext', 'fptrunc', 'addrspacecast'):
        while p.peek() in FLAGS:
            p.next()
        ty, a = cg.tyop(p)
        p.expect('to')
        tt = p.type()
        if op in ('zext', 'sext', 'trunc'):
            if op == 'zext':
                out.append('a=%s' % a)
                assign('a if a.__class__ is int else D.zext(a,%d,%d)' % (ty[1], tt[1]))
            elif op == 'trunc':
                out.append('a=%s' % a)
                assign('a&%d if a.__class__ is int else D.trunc(a,%d,%d)' % (D.mask(tt[1]), ty[1], tt[1]))
            else:
                assign('D.sext(%s,%d,%d)' % (a, ty[1], tt[1]))
        elif op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            assign(a)
        elif op == 'bitcast':
            if ty[0] == 'f' and tt[0] == 'i':
                assign('D.f2i(%s,%d)' % (a, tt[1]))
            elif ty[0] == 'i' and tt[0] == 'f':
                assign('D.i2f(%s,%d)' % (a, tt[1]))
            else:
                assign(a)
        else:
            setloc()
            assign('D.%s(%s,%d,%d)' % (op, a, ty[1], tt[1]))
        return False
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        _, c = cg.tyop(p)
        p.expect(',')
        ty, a = cg.tyop(p)
        p.expect(',')
        _, b = cg.tyop(p)
        r = mod.resolve(ty)
        out.append('c=%s;a=%s;b=%s' % (c, a, b))
        if r[0] in ('s', 'a'):
            assign('(a if c else b) if c.__class__ is int else M.join_val(c,a,b)')
        else:
            assign('(a if c else b) if c.__class__ is int else M.select(c,a,b,%d,%s)' % (width(r), r[0] == 'f'))
        return False
    if op == 'extractvalue':
        ty, a = cg.tyop(p)
        e = a
        while p.eat(','):
            e += '[%s]' % p.next()
        assign(e)
        return False
    if op == 'insertvalue':
        ty, a = cg.tyop(p)
        p.expect(',')
        _, v = cg.tyop(p)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        assign('M.insert(%s,%s,%r)' % (a, v, tuple(idx)))
        return False
    if op == 'landingpad':
        ty = p.type()
        assign('(M.lp[0],M.lp[1])')
        return False
    if op == 'freeze':
        ty, a = cg.tyop(p)
        assign(a)
        return False
    if op == 'atomicrmw':
        p.eat('volatile')
        o = p.next()
        _, a = cg.tyop(p)
        p.expect(',')
        ty, v = cg.tyop(p)
        setloc()
        n = width(ty) // 8
        out.append('a=%s;o=load(a,%d)' % (a, n))
        fn = {'add': 'add', 'sub': 'sub', 'and': 'and_', 'or': 'or_', 'xor': 'xor'}.get(o)
        if o == 'xchg':
            out.append('store(a,%d,%s)' % (n, v))
        elif fn:
            out.append('store(a,%d,%s(o,%s,%d))' % (n, fn, v, n * 8))
        else:
            out.append('raise Unresolved("atomicrmw %s")' % o)
        assign('o')
        return False
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        _, a = cg.tyop(p)
        p.expect(',')
        ty, c = cg.tyop(p)
        p.expect(',')
        _, v = cg.tyop(p)
        n = width(ty) // 8
        setloc()
        out.append('a=%s;o=load(a,%d);q=icmp("eq",o,%s,%d)' % (a, n, c, n * 8))
        out.append('store(a,%d,ite(q,%s,o,%d))' % (n, v, n * 8))
        assign('(o,q)')
        return False
    if op == 'fence':
        return False
    setloc()
    out.append('raise Unresolved(%r)' % ('instruction ' + op))
    if op in ('callbr', 'indirectbr', 'cleanupret', 'catchret', 'catchswitch'):
        return True
    return False


def tname(ty):
    if ty[0] == 'n':
        return 'local ' + ty[1][1:].strip('"')[:60]
    return 'local variable'


def gen_call(cg, p, op, dst, out, succ, index, loc):
    m = cg.m
    while True:
        t = p.peek()
        if t in CALLKW:
            p.next()
            continue
        # return attributes
        if t in ('noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'inreg'):
            p.next()
            continue
        if t == 'align':
            p.next(); p.next()
            continue
        if t in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
            p.next()
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            continue
        break
    ty = p.type()
    if ty[0] == 'fn':
        ty = ty[1]
    t = p.next()
    if t == 'asm':
        if loc is not None:
            out.append('M.loc=%d' % loc)
        out.append('raise Unresolved("inline assembly")')
        return op == 'invoke'
    callee = t
    p.expect('(')
    args = []
    if callee.startswith('@llvm.dbg.') or callee.startswith('@llvm.lifetime') or callee.startswith('@llvm.experimental.noalias'):
        return False
    while not p.eat(')'):
        if p.peek() == 'metadata':
            # skip
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
            p.eat(',')
            continue
        at = p.type()
        args.append(cg.operand(p, at))
        p.eat(',')
    if loc is not None:
        out.append('M.loc=%d' % loc)
    a = ','.join(args)
    if callee[0] == '@':
        e = 'FN[%r](%s)' % (callee, a)
    else:
        e = 'M.call_ptr(R[%d]%s)' % (cg.reg(callee), (',' + a) if a else '')
    lhs = 'R[%d]=' % dst if dst is not None and ty[0] != 'v' else ''
    if op == 'call':
        out.append(lhs + e)
        if callee in ('@__cxa_throw', '@_ZSt9terminatev', '@__cxa_rethrow', '@__clang_call_terminate'):
            pass
        return False
    while p.peek() != 'to':
        p.next()
    p.next()
    p.expect('label')
    bn = index[p.next()]
    p.expect('unwind')
    p.expect('label')
    bu = index[p.next()]
    succ += [bn]
    out.append('try: %s%s' % (lhs, e))
    out.append('except IRThrow as x:')
    out.append('  if M.land(x,%d,%r): return %d' % (bu, cg.name, bu))
    out.append('  raise')
    out.append('return %d' % bn)
    return True

"""Small structured-statement language: enumeration, reference semantics and slang source.

A block is a tuple of nodes.  Every node is a tuple (kind, ...):
  ('if', b, e|None)  ('wh', b)  ('for', b)  ('fe', b)  ('sw', (b1, b2, ..), d|None)
  ('fv', v, b)                      for loop that lacks some of its parts (v: which of initialisation, condition, step are there)
  ('ct', v, b, e)                   constant conditions: if and while on true or false
  ('sf', f, (b1, ..), d|None)       switch over another type f than int
  ('br',) ('co',) ('re',)           break / continue / return n
  ('th', T)  ('rt',)                throw new exception of type T / rethrow
  ('try', b, ((T, b), ..), f|None)  try/catch../finally
  ('fn', b)                         call of a function of its own with body b
  ('bl', b)                         nested block
  ('ob',)                           local object announcing construction and destruction
  ('x', ctx)                        expression statement in which a callee may throw (context ctx)

Conditions are decisions: the program asks d() (one bit) or k() (two bits) and the explorer
enumerates all answers, so every path of every program up to the decision bound is a trace.
"""

PRELUDE = '''
public int gBits = 0;
public bool d() { bool r = (gBits % 2) == 1; gBits = gBits / 2; return r; }
public int k() { int r = gBits % 4; gBits = gBits / 4; return r; }
public bool inc(string n) { print("i" + n); return true; }
public object Iter { private int mN; public void Constructor() { mN = 0; } public bool hasNext() const { return mN < 2; } public int next() modify { mN++; return mN; } }
public object Coll { public Iter getIterator() const { return new Iter(); } }
public object EA { public int n; public void Constructor(int v) { n = v; } public string name() const { return "A" + n; } }
public object EB extends EA { public void Constructor(int v) { n = v; } public string name() const { return "B" + n; } }
public object EC { public int n; public void Constructor(int v) { n = v; } public string name() const { return "C" + n; } }
public object D { private string mN; public void Constructor(string n) { mN = n; print("+" + mN); } public void Destructor() { print("-" + mN); } }
public object Thr { public int v; public void Constructor(int n) throws { print("y" + n); v = n; if ( d() ) { throw new EA(n); } print("z" + n); } public int m(int n) throws { print("y" + n); if ( d() ) { throw new EA(n); } print("z" + n); return n; } public Thr self() { return this; } }
public object Plain { public int m(int n) throws { print("y" + n); if ( d() ) { throw new EA(n); } print("z" + n); return n; } public bool b(int n) throws { return m(n) >= 0; } }
public int x(int n) throws { print("y" + n); if ( d() ) { throw new EA(n); } print("z" + n); return n; }
public string xs(int n) throws { x(n); return "s"; }
public bool xb(int n) throws { x(n); return true; }
public int id(int a, int b) { print("id"); return a + b; }
public object ThrIter { private int mN; private int mI; public void Constructor(int n) { mN = n; mI = 0; } public bool hasNext() const { return mI < 1; } public int next() modify throws { mI++; return x(mN); } }
public object ThrColl { private int mN; public void Constructor(int n) { mN = n; } public ThrIter getIterator() const { return new ThrIter(mN); } }
'''

# expression contexts: source with %N = marker, and what is printed after a normal evaluation
CTX = {
    'call':   ('x(%N);', []),
    'decl':   ('int v%N = x(%N);', []),
    'add':    ('int v%N = x(%N) + id(1, 2);', ['id']),
    'add2':   ('int v%N = id(1, 2) + x(%N);', None),
    'print':  ('print("v" + xs(%N));', ['vs']),
    'arg':    ('id(x(%N), 1);', ['id']),
    'arg2':   ('id(1, x(%N));', ['id']),
    'assign': ('int v%N; v%N = x(%N);', []),
    'assigne': ('int v%N; print("w" + (v%N = x(%N)));', ['w%N']),
    'plusa':  ('int v%N = 1; v%N += x(%N); print("w" + v%N);', ['w%N+1']),
    'if':     ('if ( xb(%N) ) { print("t"); } else { print("e"); }', ['t']),
    'ifs':    ('if ( xb(%N) ) print("t");', ['t']),
    'ifnot':  ('if ( !xb(%N) ) { print("t"); } else { print("e"); }', ['e']),
    'while':  ('while ( xb(%N) ) { print("t"); break; }', ['t']),
    'whiles': ('int w%N; while ( xb(%N) && w%N < 1 ) w%N++;', None),
    'fori':   ('for ( int i%N = x(%N); i%N == %N; i%N++ ) { print("t"); }', ['t']),
    'foris':  ('for ( int i%N = x(%N); i%N == %N; i%N++ ) print("t");', ['t']),
    'forc':   ('for ( int i%N = 0; xb(%N); i%N++ ) { print("t"); break; }', ['t']),
    'forn':   ('for ( int i%N = 0; i%N < 1; i%N = i%N + xb1(%N) ) { print("t"); }', None),
    'switch': ('switch ( x(%N) ) { case %N: { print("t"); break; } default: { print("e"); break; } }', ['t']),
    'case':   ('switch ( %N ) { case x(%N): { print("t"); break; } default: { print("e"); break; } }', ['t']),
    'new':    ('Thr o%N = new Thr(%N);', []),
    'newarg': ('Thr o%N; id(1, (new Thr(%N)).v);', None),
    'newp':   ('print("w" + typeid(new Thr(%N)));', ['wThr']),
    'meth':   ('Plain o%N = new Plain(); o%N.m(%N); print("t");', ['t']),
    'methp':  ('Plain o%N = new Plain(); print("w" + o%N.m(%N));', ['w%N']),
    'and':    ('if ( true && xb(%N) ) { print("t"); }', ['t']),
    'tern':   ('int v%N = xb(%N) ? id(1, 1) : id(2, 2);', ['id']),
    'tern2':  ('int v%N = true ? x(%N) : id(2, 2);', []),
    'cast':   ('string v%N = string x(%N); print("w" + v%N);', ['w%N']),
    'feach':  ('ThrColl o%N = new ThrColl(%N); foreach ( int e : o%N ) { print("f" + e); }', ['f%N']),
    'feachs': ('ThrColl o%N = new ThrColl(%N); foreach ( int e : o%N ) print("f" + e);', ['f%N']),
    'neg':    ('int v%N = -x(%N); print("w" + v%N);', ['w-%N']),
    'ret':    None,
}


# other types to switch over: expression that asks for a decision, label of a value
SWITCH = {
    'string': ('ks()', lambda i: '"v%d"' % i),
    'enum': ('ke()', lambda i: 'Ke.e%d' % i),
    'double': ('kd()', lambda i: '%d.5d' % i),
    'float': ('kf()', lambda i: '%d.5f' % i),
    'int64': ('kl()', lambda i: '(int64 %d)' % i),
    'call': ('k()', lambda i: 'lab(%d)' % i),
    'sum': ('k() + 3', lambda i: '%d' % (i + 3)),
    'constant': ('k()', lambda i: 'cL%d' % i),
}


class TooLong(Exception):
    pass


class Prog:
    """A program built from a block: slang source and reference execution."""

    def __init__(self, block, style=0, wrap=None):
        self.n = 0
        self.style = style
        self.funcs = []
        self.nfn = 0
        self.code, self.src = self.block(block, True)

    def num(self):
        self.n += 1
        return self.n

    # compile to (executable form, source)
    def block(self, b, braces=True):
        code, src = [], []
        single = self.style == 1 and len(b) == 1 and b[0][0] != 'ob' and not (b[0][0] == 'x') and b[0][0] != 'bl'
        if single and not braces:
            c, s = self.node(b[0])
            return (c,), s
        if self.style == 0 or not b:
            m = self.num()
            code.append(('p', str(m)))
            src.append('print("%d");' % m)
        for nd in b:
            c, s = self.node(nd)
            code.append(c)
            src.append(s)
            if self.style == 0:
                m = self.num()
                code.append(('p', str(m)))
                src.append('print("%d");' % m)
        return tuple(code), '{ ' + ' '.join(src) + ' }'

    def case(self, b):
        # the language wants every case block to end in a jump
        c, s = self.block(b, True)
        return c + (('br',),), s[:-1] + 'break; }'

    def node(self, nd):
        t = nd[0]
        if t == 'if':
            c1, s1 = self.block(nd[1], False)
            if nd[2] is None:
                return ('if', self.num(), c1, ()), 'if ( d() ) ' + s1
            if not s1.startswith('{') and self.style == 1:
                s1 = '{ ' + s1 + ' }'     # no dangling else
            c2, s2 = self.block(nd[2], False)
            return ('if', self.num(), c1, c2), 'if ( d() ) ' + s1 + ' else ' + s2
        if t == 'wh':
            c, s = self.block(nd[1], False)
            return ('wh', self.num(), c), 'while ( d() ) ' + s
        if t == 'for':
            m = self.num()
            c, s = self.block(nd[1], False)
            return ('for', m, c), 'for ( int i%d = 0; d(); i%d = i%d + step("%d") ) ' % (m, m, m, m) + s
        if t == 'fv':
            m = self.num()
            ini, cond, inc = nd[1]
            c, s = self.block(nd[2], not cond)
            if not cond:
                s = '{ if ( !d() ) { break; } ' + s[1:]
            step = ('i%d = i%d + step("%d")' if ini else 'step("%d")') % ((m, m, m) if ini else m) if inc else ''
            return ('for', m, c, inc), 'for ( %s; %s; %s ) ' % ('int i%d = 0' % m if ini else '', 'd()' if cond == 1 else 'true' if cond == 2 else '', step) + s
        if t == 'ct':
            c1, s1 = self.block(nd[2], True)
            if nd[1] == 'while':
                return ('wh', self.num(), c1), 'while ( true ) { if ( !d() ) { break; } ' + s1[1:]
            if nd[1] == 'never':
                return ('if0', self.num(), c1), 'while ( false ) ' + s1
            c2, s2 = self.block(nd[3], True)
            return (('if1' if nd[1] == 'true' else 'if0'), self.num(), c1, c2), 'if ( %s ) ' % nd[1] + s1 + ' else ' + s2
        if t == 'sf':
            m = self.num()
            head, lab = SWITCH[nd[1]]
            cs, ss = [], []
            for i, b in enumerate(nd[2]):
                c, s = self.case(b)
                cs.append((i + 1, c))
                ss.append('case %s: %s' % (lab(i + 1), s))
            dc = None
            if nd[3] is not None:
                dc, s = self.case(nd[3])
                ss.append('default: ' + s)
            return ('sw', m, tuple(cs), dc), 'switch ( %s ) { ' % head + ' '.join(ss) + ' }'
        if t == 'fe':
            m = self.num()
            c, s = self.block(nd[1], False)
            if s.startswith('{'):
                s = '{ print("f" + e%d);' % m + s[1:]
                c = (('ev', m),) + c
            return ('fe', m, c), 'foreach ( int e%d : cc ) ' % m + s
        if t == 'sw':
            m = self.num()
            cs, ss = [], []
            for i, b in enumerate(nd[1]):
                c, s = self.case(b)
                cs.append((i + 1, c))
                ss.append('case %d: %s' % (i + 1, s))
            dc = None
            if nd[2] is not None:
                dc, s = self.case(nd[2])
                ss.append('default: ' + s)
            return ('sw', m, tuple(cs), dc), 'switch ( k() ) { ' + ' '.join(ss) + ' }'
        if t == 'br':
            return ('br',), 'break;'
        if t == 'co':
            return ('co',), 'continue;'
        if t == 're':
            m = self.num()
            return ('re', m), 'return %d;' % m
        if t == 'th':
            m = self.num()
            if nd[1] == 'S':
                return ('th', 'S', m), 'throw "%d";' % m
            if nd[1] == 'I':
                return ('th', 'I', m), 'throw %d;' % m
            return ('th', nd[1], m), 'throw new E%s(%d);' % (nd[1], m)
        if t == 'rt':
            return ('rt',), 'throw;'
        if t == 'try':
            c, s = self.block(nd[1], True)
            s = 'try ' + s
            hs = []
            for T, b in nd[2]:
                m = self.num()
                hc, hsrc = self.block(b, True)
                if T == '*':
                    s += ' catch ' + hsrc
                    hs.append((T, (('p', 'c*'),) + hc))
                    s = s[:len(s) - len(hsrc)] + '{ print("c*");' + hsrc[1:]
                else:
                    tn = {'S': 'string', 'I': 'int'}.get(T, 'E' + T)
                    val = 'e%d' % m if T in 'SI' else 'e%d.name()' % m
                    s += ' catch ( %s e%d ) { print("c%s:" + %s);' % (tn, m, T, val) + hsrc[1:]
                    hs.append((T, (('pe', T),) + hc))
            fc = None
            if nd[3] is not None:
                fc, fs = self.block(nd[3], True)
                s += ' finally ' + fs
            return ('try', c, tuple(hs), fc), s
        if t == 'fn':
            self.nfn += 1
            k = self.nfn
            c, s = self.block(nd[1], True)
            self.funcs.append('private int fn%d_$$() modify throws { Coll cc = new Coll(); %s return 0; }' % (k, s[1:-1]))
            return ('fn', c), 'print("r" + fn%d_$$());' % k
        if t == 'bl':
            c, s = self.block(nd[1], True)
            return ('bl', c), s
        if t == 'ob':
            m = self.num()
            return ('ob', str(m)), 'D o%d = new D("%d");' % (m, m)
        if t == 'x':
            m = self.num()
            if nd[1] == 'ret':
                return ('x', m, 'ret'), 'return x(%d);' % m
            return ('x', m, nd[1]), CTX[nd[1]][0].replace('%N', str(m))
        raise AssertionError(t)

    def decls(self):
        return '\n'.join(self.funcs) + '\nprivate int case$$(int bits) modify throws { gBits = bits; Coll cc = new Coll(); ' + self.src[1:-1] + ' return 0; }'

    def run(self, bits, limit=400, exobj=False):
        """Reference execution.  Returns (lines, result, number of decision bits used, steps, states)."""
        r = Run(bits, limit, exobj)
        sig = r.block(self.code)
        return r, sig


NAME = {'A': 'A', 'B': 'B', 'C': 'C', 'S': '', 'I': ''}


def accepts(T, E):
    return T == '*' or T == E or (T == 'A' and E == 'B')


class Run:
    def __init__(self, bits, limit, exobj=False):
        self.exobj = exobj      # exception objects announce their construction and destruction
        self.bits, self.used, self.out, self.steps, self.limit = bits, 0, [], 0, limit
        self.states = set()
        self.cur = []       # stack of exceptions being handled
        self.ctr = []

    def step(self, key):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()
        self.states.add((key, self.bits >> self.used, tuple(self.ctr), tuple(self.cur)))

    def d(self):
        r = (self.bits >> self.used) & 1
        self.used += 1
        return r

    def k(self):
        r = (self.bits >> self.used) & 3
        self.used += 2
        return r

    def block(self, code):
        """Signals: None, 'B', 'C', ('R', v), ('T', type, payload)"""
        objs = []
        sig = None
        for c in code:
            sig = self.node(c, objs)
            if sig is not None:
                break
        for o in objs:
            self.out.append('-' + o)
        return sig

    def node(self, c, objs):
        t = c[0]
        self.step(id(c))
        out = self.out
        if t == 'p':
            out.append(c[1])
            return None
        if t == 'if':
            return self.block(c[2] if self.d() else c[3])
        if t == 'if1':
            return self.block(c[2])
        if t == 'if0':
            return self.block(c[3]) if len(c) > 3 else None
        if t == 'wh':
            self.ctr.append(0)
            try:
                while self.d():
                    self.ctr[-1] += 1
                    self.step((id(c), 1))
                    s = self.block(c[2])
                    if s is not None:
                        if s == 'B':
                            return None
                        if s != 'C':
                            return s
                return None
            finally:
                self.ctr.pop()
        if t == 'for':
            self.ctr.append(0)
            try:
                while self.d():
                    self.step((id(c), 1))
                    s = self.block(c[2])
                    if s is not None:
                        if s == 'B':
                            return None
                        if s != 'C':
                            return s
                    if len(c) == 3 or c[3]:
                        out.append('i%d' % c[1])
                    self.ctr[-1] += 1
                return None
            finally:
                self.ctr.pop()
        if t == 'fe':
            self.ctr.append(0)
            try:
                for i in (1, 2):
                    self.ctr[-1] = i
                    self.step((id(c), 1))
                    s = self.block(c[2])
                    if s is not None:
                        if s == 'B':
                            return None
                        if s != 'C':
                            return s
                return None
            finally:
                self.ctr.pop()
        if t == 'ev':
            out.append('f%d' % self.ctr[-1])
            return None
        if t == 'sw':
            while True:
                v = self.k()
                self.step((id(c), v))
                for cv, cb in c[2]:
                    if cv == v:
                        s = self.block(cb)
                        break
                else:
                    s = self.block(c[3]) if c[3] is not None else None
                if s == 'C':
                    continue
                return None if s == 'B' else s
        if t == 'br':
            return 'B'
        if t == 'co':
            return 'C'
        if t == 're':
            return ('R', c[1])
        if t == 'th':
            if self.exobj and c[1] in 'ABC':
                out.append('+%s%d' % (c[1], c[2]))
            return ('T', c[1], c[2])
        if t == 'rt':
            return ('T',) + self.cur[-1]
        if t == 'pe':
            E, n = self.cur[-1]
            out.append('c%s:%s%d' % (c[1], NAME[E], n))
            return None
        if t == 'try':
            s = self.block(c[1])
            if isinstance(s, tuple) and s[0] == 'T':
                exc = s
                if not c[2]:
                    s = None
                else:
                    for T, hb in c[2]:
                        if accepts(T, s[1]):
                            self.cur.append((s[1], s[2]))
                            try:
                                s = self.block(hb)
                            finally:
                                self.cur.pop()
                            break
                self.release(exc, s)
            if c[3] is not None:
                fs = self.block(c[3])
                if fs is not None:
                    if isinstance(s, tuple) and s[0] == 'T':
                        self.release(s, fs)
                    s = fs
            return s
        if t == 'fn':
            # a callee is not inside the caller's loops; the exception being handled stays current
            saved, self.ctr = self.ctr, []
            try:
                s = self.block(c[1])
            finally:
                self.ctr = saved
            if isinstance(s, tuple) and s[0] == 'T':
                return s
            out.append('r%d' % (s[1] if isinstance(s, tuple) else 0))
            return None
        if t == 'bl':
            return self.block(c[1])
        if t == 'ob':
            out.append('+' + c[1])
            objs.append(c[1])
            return None
        if t == 'x':
            return self.ctxrun(c[1], c[2])
        raise AssertionError(t)

    def release(self, exc, sig):
        # an exception dies unless it is in flight or being handled further out
        if self.exobj and exc[1] in 'ABC' and sig != exc and exc[1:] not in self.cur:
            self.out.append('-%s%d' % exc[1:])

    def callx(self, n):
        self.out.append('y%d' % n)
        if self.d():
            return ('T', 'A', n)
        self.out.append('z%d' % n)
        return None

    def ctxrun(self, n, ctx):
        out = self.out
        if ctx == 'ret':
            s = self.callx(n)
            return s if s else ('R', n)
        if ctx == 'add2':
            out.append('id')
            return self.callx(n)
        if ctx == 'whiles':
            i = 0
            while True:
                s = self.callx(n)
                if s:
                    return s
                if i >= 1:
                    return None
                i += 1
        if ctx == 'forn':
            i = 0
            while i < 1:
                out.append('t')
                s = self.callx(n)
                if s:
                    return s
                i += 1
            return None
        if ctx == 'newarg':
            s = self.callx(n)
            if s:
                return s
            out.append('id')
            return None
        s = self.callx(n)
        if s:
            return s
        for l in CTX[ctx][1]:
            if l == 'w%N+1':
                l = 'w%d' % (n + 1)
            out.append(l.replace('%N', str(n)))
        return None


PRELUDE += '''
public enum Ke { e0 = 0, e1 = 1, e2 = 2, e3 = 3; }
public int cL1 const = 1;
public int cL2 const = 2;
public string ks() { return "v" + cast<string>(k()); }
public Ke ke() { int v = k(); if ( v == 0 ) { return Ke.e0; } if ( v == 1 ) { return Ke.e1; } if ( v == 2 ) { return Ke.e2; } return Ke.e3; }
public double kd() { return cast<double>(k()) + 0.5d; }
public float kf() { return cast<float>(k()) + 0.5f; }
public int64 kl() { return cast<int64>(k()); }
public int lab(int n) { return n; }
public int step(string n) { print("i" + n); return 1; }
public int xb1(int n) throws { x(n); return 1; }
'''


# ---------------------------------------------------------------------------------------------
# enumeration

class Grammar:
    """Enumerates blocks with exactly n constructs.  ctx: (inloop, inswitch, inhandler)."""

    def __init__(self, kinds, maxseq=2, types=('A',), catches=(('A',),), ctxs=()):
        self.kinds, self.maxseq, self.types, self.catches, self.ctxs = set(kinds), maxseq, types, catches, ctxs
        self.memo = {}

    def blocks(self, n, ctx):
        key = ('b', n, ctx)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = list(self._seq(n, ctx, self.maxseq))
        return r

    def _seq(self, n, ctx, m):
        if n == 0:
            yield ()
            return
        if m == 0:
            return
        for i in range(1, n + 1):
            heads = self.nodes(i, ctx)
            if i == n:
                for h in heads:
                    yield (h,)
            else:
                tails = self.memo.get(('t', n - i, ctx, m - 1))
                if tails is None:
                    tails = self.memo[('t', n - i, ctx, m - 1)] = list(self._seq(n - i, ctx, m - 1))
                for h in heads:
                    for t in tails:
                        yield (h,) + t

    def splits(self, n, parts):
        if parts == 1:
            yield (n,)
            return
        for i in range(n + 1):
            for r in self.splits(n - i, parts - 1):
                yield (i,) + r

    def nodes(self, n, ctx):
        key = ('n', n, ctx)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = list(self._nodes(n, ctx))
        return r

    def _nodes(self, n, ctx):
        loop, handler = ctx
        K = self.kinds
        if n == 1:
            if loop and 'br' in K:
                yield ('br',)
            if loop and 'co' in K:
                yield ('co',)
            if 're' in K:
                yield ('re',)
            if 'th' in K:
                for T in self.types:
                    yield ('th', T)
            if handler and 'rt' in K:
                yield ('rt',)
            if 'ob' in K:
                yield ('ob',)
            for x in self.ctxs:
                yield ('x', x)
        lctx = (True, handler)
        if 'if' in K:
            for b in self.blocks(n - 1, ctx):
                yield ('if', b, None)
        if 'ie' in K:
            for i, j in self.splits(n - 1, 2):
                for b in self.blocks(i, ctx):
                    for e in self.blocks(j, ctx):
                        yield ('if', b, e)
        for kd in ('wh', 'for', 'fe'):
            if kd in K:
                for b in self.blocks(n - 1, lctx):
                    yield (kd, b)
        if 'fv' in K:
            for v in ((i, c, s) for i in (0, 1) for c in (0, 1, 2) for s in (0, 1)):
                if v == (1, 1, 1) or v[1] == 2:
                    continue
                for b in self.blocks(n - 1, lctx):
                    yield ('fv', v, b)
        if 'ct' in K:
            for b in self.blocks(n - 1, lctx):
                yield ('ct', 'while', b, None)
                yield ('ct', 'never', b, None)
            for i, j in self.splits(n - 1, 2):
                for b in self.blocks(i, ctx):
                    for e in self.blocks(j, ctx):
                        yield ('ct', 'true', b, e)
                        yield ('ct', 'false', b, e)
        if 'sf' in K:
            for f in SWITCH:
                for i, j in self.splits(n - 1, 2):
                    for b in self.blocks(i, lctx):
                        for e in self.blocks(j, lctx):
                            yield ('sf', f, (b,), e)
                            yield ('sf', f, (b, e), None)
                for i, j, k in self.splits(n - 1, 3):
                    for b in self.blocks(i, lctx):
                        for e in self.blocks(j, lctx):
                            for g in self.blocks(k, lctx):
                                yield ('sf', f, (b, e), g)
        if 'sw' in K:
            for i, j in self.splits(n - 1, 2):
                for b in self.blocks(i, lctx):
                    for e in self.blocks(j, lctx):
                        yield ('sw', (b,), e)
        if 'sw2' in K:
            for i, j in self.splits(n - 1, 2):
                for b in self.blocks(i, lctx):
                    for e in self.blocks(j, lctx):
                        yield ('sw', (b, e), None)
        if 'fn' in K:
            for b in self.blocks(n - 1, (False, handler)):
                yield ('fn', b)
        if 'bl' in K:
            for b in self.blocks(n - 1, ctx):
                yield ('bl', b)
        if 'try' in K:
            hctx = (loop, True)
            for cs in self.catches:
                fin = cs[-1:] == ('f',)
                types = cs[:-1] if fin else cs
                parts = 1 + len(types) + (1 if fin else 0)
                for sp in self.splits(n - 1, parts):
                    def rec(i, acc):
                        if i == parts:
                            yield acc
                            return
                        cx = ctx if i == 0 or i == parts - 1 and fin else hctx
                        for b in self.blocks(sp[i], cx):
                            yield from rec(i + 1, acc + (b,))
                    for parts_ in rec(0, ()):
                        hs = tuple((T, parts_[1 + q]) for q, T in enumerate(types))
                        yield ('try', parts_[0], hs, parts_[-1] if fin else None)


def explore(prog, maxbits, limit=400, exobj=False):
    """All executions of prog whose decisions after the first maxbits are 0: [(bits, Run, signal)]."""
    res = []
    todo = [(0, 0)]         # (bits, first undecided position)
    skipped = 0
    while todo:
        bits, pos = todo.pop()
        try:
            r, sig = prog.run(bits, limit, exobj)
        except TooLong:
            skipped += 1
            # still branch on later decisions
            for p in range(pos, maxbits):
                todo.append((bits | (1 << p), p + 1))
            continue
        res.append((bits, r, sig))
        for p in range(pos, min(r.used, maxbits)):
            todo.append((bits | (1 << p), p + 1))
    return res, skipped


PRELUDE_EXOBJ = PRELUDE
for _c in "ABC":
    PRELUDE_EXOBJ = PRELUDE_EXOBJ.replace(
        'public void Constructor(int v) { n = v; } public string name() const { return "%s"' % _c,
        'public void Constructor(int v) { n = v; print("+%s" + n); } public void Destructor() { print("-%s" + n); } public string name() const { return "%s"' % (_c, _c, _c))


def norm_runs(text):
    """Sorts every run of consecutive destructor lines: their order within a scope is not promised."""
    out, run = [], []
    for l in text.split("\n"):
        if l.startswith("-"):
            run.append(l)
            continue
        if run:
            out.extend(sorted(run))
            run = []
        out.append(l)
    return "\n".join(out + sorted(run))

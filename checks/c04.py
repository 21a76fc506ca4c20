"""C04: expression evaluation - precedence, associativity, order, short circuit."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

MUL = ('*', '/', '%')
ADD = ('+', '-', '&', '|')
CMP = ('==', '!=', '<', '>', '<=', '>=')
LOG = ('&&', '||', '!&')
OPS = MUL + ADD + CMP + LOG
LEVEL = {}
for _l, _o in enumerate((LOG, CMP, ADD, MUL)):
    for _x in _o:
        LEVEL[_x] = _l

PRELUDE = '''
private int gBits;
private int g1;
private int g2;
private int g3;
private int g4;
public bool d() modify { bool b = (gBits % 2) == 1; gBits = gBits / 2; return b; }
public bool b1() modify { print("b1"); return d(); }
public bool b2() modify { print("b2"); return d(); }
public bool b3() modify { print("b3"); return d(); }
public bool b4() modify { print("b4"); return d(); }
public int v1() modify { print("v1"); return g1; }
public int v2() modify { print("v2"); return g2; }
public int v3() modify { print("v3"); return g3; }
public int v4() modify { print("v4"); return g4; }
public string s1() modify { print("s1"); return "p" + g1; }
public string s2() modify { print("s2"); return "q" + g2; }
public int f1(int a) modify { print("f1:" + a); return a + 1; }
public int f2(int a, int b) modify { print("f2:" + a + ":" + b); return a * 10 + b; }
public int f3(int a, int b, int c) modify { print("f3:" + a + ":" + b + ":" + c); return a * 100 + b * 10 + c; }
public bool fb(bool a, bool b) modify { print("fb:" + a + ":" + b); return a && b; }
public object Ob {
	public void Constructor(int v = 0) { mV = v; }
	public int get() modify { print("get" + mV); return mV; }
	public Ob at(int v) modify { print("at" + v); return new Ob(v); }
	public int sum(int a, int b) modify { print("sum" + a + b); return mV + a + b; }
	public int mV;
}
public object Ho { public int mV; public bool mB; public void Constructor(int v) { mV = v; } public void Constructor(bool b) { mB = b; } public void Constructor(string t, int v) { mV = v; } public void Constructor(string t, bool b) { mB = b; } 
	public int m(int v) const { return v; } public bool m(bool b) const { return b; } public static int s(int v) { return v; } public static bool s(bool b) { return b; } }
public int thei(Ho h) { return h.mV; }
public bool theb(Ho h) { return h.mB; }
public int same(int v) { return v; }
public bool same(bool b) { return b; }
public int second(string t, int v) { return v; }
public bool second(string t, bool b) { return b; }
public Ob ob(int i) modify { print("ob" + i); return new Ob(i); }
public void set(int b, int p, int q, int r, int s) modify { gBits = b; g1 = p; g2 = q; g3 = r; g4 = s; }
'''


def wrap(v):
    v &= 0xffffffff
    return v - (1 << 32) if v & 0x80000000 else v


class Skip(Exception):
    pass


class IllTyped(Exception):
    pass


def typeof(t):
    """Static type of a tree, 'i' or 'b'."""
    k = t[0]
    if k in 'vb':
        return 'i' if k == 'v' else 'b'
    if k == 'u':
        x = typeof(t[2])
        if t[1] == '!':
            return 'b'
        if x != 'i':
            raise IllTyped
        return 'i'
    if k == 'p':
        return typeof(t[1])
    if k == '?':
        typeof(t[1])
        a, b = typeof(t[2]), typeof(t[3])
        if a != b:
            raise IllTyped
        return a
    if k == 'c':
        return typeof(t[2])
    if k == 'e':
        a, b = typeof(t[1]), typeof(t[2])
        if a != b:
            raise IllTyped
        return a
    _, op, l, r = t
    a, b = typeof(l), typeof(r)
    if op in LOG:
        return 'b'
    if op in ('==', '!='):
        if a != b:
            raise IllTyped
        return 'b'
    if a != 'i' or b != 'i':
        raise IllTyped
    return 'b' if op in CMP else 'i'


def ev(t, env, out):
    k = t[0]
    if k == 'v':
        out.append('v%d' % t[1])
        return env['v'][t[1] - 1]
    if k == 'b':
        out.append('b%d' % t[1])
        return env['bit']()
    if k == 'u':
        x = ev(t[2], env, out)
        if t[1] == '-':
            return wrap(-x)
        if t[1] == '+':
            return x
        return not x
    if k == 'p':
        return ev(t[1], env, out)
    if k == '?':
        return ev(t[2] if ev(t[1], env, out) else t[3], env, out)
    if k == 'c':
        return ev(t[2], env, out)
    if k == 'e':
        x = ev(t[1], env, out)
        return x if x else ev(t[2], env, out)
    _, op, l, r = t
    a = ev(l, env, out)
    if op == '&&':
        return bool(a) and bool(ev(r, env, out))
    if op == '||':
        return bool(a) or bool(ev(r, env, out))
    if op == '!&':
        return not (bool(a) and bool(ev(r, env, out)))
    b = ev(r, env, out)
    if op in ('/', '%'):
        if b == 0:
            raise Skip
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return wrap(q) if op == '/' else wrap(a - b * q)
    return {'+': lambda: wrap(a + b), '-': lambda: wrap(a - b), '*': lambda: wrap(a * b),
            '&': lambda: wrap(a & b), '|': lambda: wrap(a | b),
            '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b,
            '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()


def parse(operands, ops):
    """The tree of 'operand op operand op ...': four left-associative levels."""
    toks = [operands[0]]
    for o, x in zip(ops, operands[1:]):
        toks += [o, x]
    pos = [0]

    def level(l):
        if l == 4:
            t = toks[pos[0]]
            pos[0] += 1
            return t
        t = level(l + 1)
        while pos[0] < len(toks) and LEVEL[toks[pos[0]]] == l:
            o = toks[pos[0]]
            pos[0] += 1
            t = ('o', o, t, level(l + 1))
        return t
    return level(0)


def txt(t):
    k = t[0]
    if k in 'vb':
        return '%s%d()' % (k, t[1])
    if k == 'u':
        return t[1] + txt(t[2])
    if k == 'p':
        return '(' + txt(t[1]) + ')'
    if k == '?':
        return '%s ? %s : %s' % (txt(t[1]), txt(t[2]), txt(t[3]))
    if k == 'e':
        return '%s ?: %s' % (txt(t[1]), txt(t[2]))
    if k == 'c':
        return t[1].replace('#', typeof(t[2])) % txt(t[2])
    return '%s %s %s' % (txt(t[2]), t[1], txt(t[3]))


def flat(operands, ops):
    s = txt(operands[0])
    for o, x in zip(ops, operands[1:]):
        s += ' %s %s' % (o, txt(x))
    return s


def full(t):
    """Fully parenthesised text of a tree."""
    if t[0] == 'o':
        return '(%s %s %s)' % (full(t[2]), t[1], full(t[3]))
    return txt(t)


VALS = ((7, 2, 3, 5), (1, 6, 4, 2), (0, 3, 0, 2), (-5, 0, 3, -2))


def traces(tree, vals):
    """All executions of the tree: every outcome of the boolean operands that are reached."""
    for v in vals:
        stack = [()]
        while stack:
            bits = stack.pop()
            used = [0]

            class More(Exception):
                pass

            def bit():
                if used[0] == len(bits):
                    raise More
                used[0] += 1
                return bool(bits[used[0] - 1])
            out = []
            try:
                r = ev(tree, {'v': v, 'bit': bit}, out)
            except More:
                stack.append(bits + (1,))
                stack.append(bits + (0,))
                continue
            except Skip:
                continue
            yield sum(b << i for i, b in enumerate(bits)), v, out, r


def uses_v(t):
    if t[0] == 'v':
        return True
    return any(uses_v(x) for x in t[1:] if isinstance(x, tuple))


def make(nm, text, tree, vals=VALS):
    ty = typeof(tree)
    calls, st, tr = [], set(), 0
    for bits, v, out, r in traces(tree, vals if uses_v(tree) else vals[:1]):
        val = str(int(r)) if ty == 'i' else ('1' if r else '0')
        calls.append(('set(%d, %d, %d, %d, %d); case$$();' % ((bits,) + v), out + ['=' + val]))
        tr += len(out) + 1
        for i in range(len(out) + 1):
            st.add(tuple(out[:i]))
    if not calls:
        return None
    return H.Case(nm, 'public void case$$() modify { %s r = %s; print("=" + r); }' % ('int' if ty == 'i' else 'bool', text),
                  calls, states=len(st), trans=tr)


def reject(nm, text, ty):
    return H.Case(nm, 'public void case$$() modify { %s r = %s; print("=" + r); }' % (ty, text), [('case$$();', [])], kind="reject")


def operands_sets(n, maxun):
    """Operand tuples: value or boolean each, with at most maxun prefixed ones."""
    base = []
    for i in range(n):
        base.append((('v', i + 1), ('b', i + 1)))
    for tup in itertools.product(*base):
        for k in range(maxun + 1):
            for idx in itertools.combinations(range(n), k):
                for us in itertools.product(('-', '!'), repeat=k):
                    t = list(tup)
                    for i, u in zip(idx, us):
                        t[i] = ('u', u, t[i])
                    yield tuple(t)


def well(t):
    try:
        typeof(t)
        return True
    except IllTyped:
        return False


def f_single():
    for xs in operands_sets(1, 1):
        if well(xs[0]):
            yield 'single:' + txt(xs[0]), txt(xs[0]), xs[0]


def f_flat(n, maxun, ops):
    for os_ in itertools.product(ops, repeat=n):
        for xs in operands_sets(n + 1, maxun):
            t = parse(xs, os_)
            if well(t):
                s = flat(xs, os_)
                yield 'flat:' + s, s, t


def shapes(lo, hi):
    """Binary tree shapes over operands lo..hi-1 as nested (k, left, right)."""
    if hi - lo == 1:
        yield lo
        return
    for k in range(lo + 1, hi):
        for l in shapes(lo, k):
            for r in shapes(k, hi):
                yield (k - 1, l, r)


def fill(sh, ops, xs):
    if isinstance(sh, int):
        return xs[sh]
    k, l, r = sh
    return ('o', ops[k], fill(l, ops, xs), fill(r, ops, xs))


def f_tree(n, maxun, ops):
    for sh in shapes(0, n + 1):
        for os_ in itertools.product(ops, repeat=n):
            for xs in operands_sets(n + 1, maxun):
                t = fill(sh, os_, xs)
                if well(t):
                    s = full(t)
                    yield 'tree:' + s, s, t


def par(t):
    return ('p', t)


def f_paren(n, ops):
    """A flat string with one parenthesised stretch (the others follow precedence), optionally negated."""
    for os_ in itertools.product(ops, repeat=n):
        for xs in operands_sets(n + 1, 0):
            for a in range(n):
                for b in range(a + 2, n + 2):
                    if b - a == n + 1:
                        continue
                    inner = par(parse(xs[a:b], os_[a:b - 1]))
                    for un in ('', '-', '!'):
                        x = ('u', un, inner) if un else inner
                        ys = xs[:a] + (x,) + xs[b:]
                        po = os_[:a] + os_[b - 1:]
                        t = parse(ys, po)
                        if well(t):
                            s = flat(ys, po)
                            # the parenthesised text keeps the flat form inside
                            s = s.replace(txt(inner), '(' + flat(xs[a:b], os_[a:b - 1]) + ')')
                            yield 'paren:' + s, s, t


def f_ternary(ops):
    v = [('v', i) for i in range(1, 5)]
    b = [('b', i) for i in range(1, 5)]
    conds = [b[0], ('u', '!', b[0]), v[0], par(('o', '<', v[0], v[1])), par(('o', '&&', b[0], b[1])),
             par(('o', '||', b[0], v[1])), par(('?', b[0], b[1], b[2]))]

    def branches():
        yield v[2], v[3]
        yield b[2], b[3]
        for o in ops:
            for x, y in ((v[2], v[3]), (b[2], b[3])):
                t = ('o', o, x, y)
                if well(t):
                    w = v[1] if typeof(t) == 'i' else b[1]
                    yield t, w
                    yield w, t
        yield ('?', b[1], v[1], v[2]), v[3]
        yield v[3], ('?', b[1], v[1], v[2])
        yield ('u', '-', v[2]), v[3]
        yield ('u', '!', b[2]), ('u', '!', b[3])
        yield par(('?', b[1], v[1], v[2])), ('?', b[2], v[0], v[3])
    for c in conds:
        for x, y in branches():
            t = ('?', c, x, y)
            if not well(t):
                continue
            yield 'tern:' + txt(t), txt(t), t
            for o in ops:
                for l, r in ((par(t), v[0]), (v[0], par(t)), (par(t), b[0]), (b[0], par(t))):
                    w = ('o', o, l, r)
                    if well(w):
                        yield 'tern:' + txt(w), txt(w), w
            w = ('u', '!', par(t))
            yield 'tern:' + txt(w), txt(w), w


def f_elvis(ops):
    """a ?: b is a where a is true (evaluated once), else b."""
    v = [('v', i) for i in range(1, 5)]
    b = [('b', i) for i in range(1, 5)]
    firsts = [v[0], b[0], ('u', '-', v[0]), ('u', '!', b[0]), par(('e', v[0], v[3])), par(('e', b[0], b[3])), par(('?', b[0], b[1], b[2])), par(('?', b[0], v[1], v[2]))]
    for o in ops:
        for x, y in ((v[0], v[3]), (b[0], b[3])):
            t = ('o', o, x, y)
            if well(t):
                firsts.append(par(t))
    seconds = [v[1], b[1], ('u', '-', v[1]), ('u', '!', b[1]), par(('e', v[1], v[2])), par(('?', b[3], v[1], v[2])), par(('o', '+', v[1], v[2])), par(('o', '&&', b[1], b[2]))]
    for x in firsts:
        for y in seconds:
            t = ('e', x, y)
            if not well(t):
                continue
            yield 'elvis:' + txt(t), txt(t), t
            for o in ops:
                for w in (('o', o, par(t), v[2]), ('o', o, v[2], par(t)), ('o', o, par(t), b[2]), ('o', o, b[2], par(t))):
                    if well(w):
                        yield 'elvis:' + txt(w), txt(w), w
            for w in (('?', par(t), v[2], v[3]), ('?', b[2], par(t), v[3]), ('?', b[2], b[3], par(t)), ('u', '!', par(t))):
                if well(w):
                    yield 'elvis:' + txt(w), txt(w), w


CONTEXTS = ('same(%s)', 'second("t", %s)', 'the#(new Ho(%s))', 'the#(new Ho("t", %s))', 'Ho.s(%s)', 'the#(new Ho(same(%s)))', 'same(the#(new Ho(%s)))')


def f_context(fam):
    """The same expressions as argument of functions, methods and constructors: evaluated once, with the same result."""
    for nm, text, t in fam:
        for c in CONTEXTS:
            yield 'in %s %s' % (c, nm), c.replace('#', typeof(t)) % text, ('c', c, t)


def templates():
    """Order of evaluation around calls, members, assignments and concatenation: (name, statements, trace)."""
    def T(n, body, out, dv=(7, 2, 3, 5), bits=0):
        return H.Case('tmpl:' + n, 'public void case$$() modify { %s }' % body,
                      [('set(%d, %d, %d, %d, %d); case$$();' % ((bits,) + dv), out)], states=len(out) + 1, trans=len(out))
    yield T('args2', 'print("=" + f2(v1(), v2()));', ['v1', 'v2', 'f2:7:2', '=72'])
    yield T('args2r', 'print("=" + f2(v2(), v1()));', ['v2', 'v1', 'f2:2:7', '=27'])
    for p in itertools.permutations((1, 2, 3)):
        vs = (7, 2, 3, 5)
        a = [vs[i - 1] for i in p]
        yield T('args3%d%d%d' % p, 'print("=" + f3(v%d(), v%d(), v%d()));' % p,
                ['v%d' % i for i in p] + ['f3:%d:%d:%d' % tuple(a), '=%d' % (a[0] * 100 + a[1] * 10 + a[2])])
        yield T('sum3%d%d%d' % p, 'print("=" + (v%d() + v%d() * v%d()));' % p,
                ['v%d' % i for i in p] + ['=%d' % (a[0] + a[1] * a[2])])
        yield T('chain%d%d%d' % p, 'print("=" + ob(v%d()).sum(v%d(), v%d()));' % p,
                ['v%d' % i for i in p] and ['v%d' % p[0], 'ob%d' % a[0], 'v%d' % p[1], 'v%d' % p[2], 'sum%d%d' % (a[1], a[2]), '=%d' % sum(a)])
        yield T('nest%d%d%d' % p, 'print("=" + f2(f1(v%d()), f2(v%d(), v%d())));' % p,
                ['v%d' % p[0], 'f1:%d' % a[0], 'v%d' % p[1], 'v%d' % p[2], 'f2:%d:%d' % (a[1], a[2]),
                 'f2:%d:%d' % (a[0] + 1, a[1] * 10 + a[2]), '=%d' % ((a[0] + 1) * 10 + a[1] * 10 + a[2])])
        yield T('at%d%d%d' % p, 'print("=" + ob(v%d()).at(v%d()).at(v%d()).get());' % p,
                ['v%d' % p[0], 'ob%d' % a[0], 'v%d' % p[1], 'at%d' % a[1], 'v%d' % p[2], 'at%d' % a[2], 'get%d' % a[2], '=%d' % a[2]])
        yield T('ctor%d%d%d' % p, 'Ob o = new Ob(f2(v%d(), v%d())); print("=" + (o.get() - v%d()));' % p,
                ['v%d' % p[0], 'v%d' % p[1], 'f2:%d:%d' % (a[0], a[1]), 'get%d' % (a[0] * 10 + a[1]), 'v%d' % p[2], '=%d' % (a[0] * 10 + a[1] - a[2])])
    yield T('concat', 'print("=" + s1() + s2());', ['s1', 's2', '=p7q2'])
    yield T('concat-l', 'print("=" + v1() + v2());', ['v1', 'v2', '=72'])
    yield T('concat-p', 'print("=" + (v1() + v2()));', ['v1', 'v2', '=9'])
    yield T('concat-m', 'print("=" + v1() * v2() + v3());', ['v1', 'v2', 'v3', '=143'])
    yield T('concat-b', 'print("=" + (b1() && b2()));', ['b1', '=0'])
    yield T('concat-3', 'print(s1() + v2() + s2() + v3());', ['s1', 'v2', 's2', 'v3', 'p72q23'])
    yield T('concat-f', 'string s = "a" + f2(v1(), v2()) + s1(); print(s);', ['v1', 'v2', 'f2:7:2', 's1', 'a72p7'])
    # a cast covers the whole following expression
    yield T('cast-rest', 'int x = int "3" + 4; print("=" + x);', ['=34'])
    yield T('cast-par', 'int x = (int "3") + 4; print("=" + x);', ['=7'])
    yield T('cast-mid', 'int x = 1 + int "3" + 4; print("=" + x);', ['=35'])
    yield T('cast-str', 'string x = string v1() + v2(); print("=" + x);', ['v1', 'v2', '=9'])
    yield T('cast-strp', 'string x = (string v1()) + v2(); print("=" + x);', ['v1', 'v2', '=72'])
    yield T('cast-arg', 'print("=" + f2(int "3", int "4"));', ['f2:3:4', '=34'])
    # assignments: the right hand side once, compound forms once
    for o in ('=', '+=', '-=', '*=', '/=', '%='):
        res = {'=': 14, '+=': 34, '-=': 6, '*=': 280, '/=': 1, '%=': 6}[o]
        yield T('asg' + o, 'int x = 20; x %s v1() * v2(); print("=" + x);' % o, ['v1', 'v2', '=%d' % res])
        res = {'=': 9, '+=': 29, '-=': 11, '*=': 180, '/=': 2, '%=': 2}[o]
        yield T('asgs' + o, 'int x = 20; x %s v1() + v2(); print("=" + x);' % o, ['v1', 'v2', '=%d' % res])
        yield T('asgm' + o, 'Ob o = new Ob(20); o.mV %s v1() + v2(); print("=" + o.mV);' % o, ['v1', 'v2', '=%d' % res])
        yield T('asgt' + o, 'int x = 20; int y = 3; x %s y ? v1() + v2() : v3(); print("=" + x);' % o, ['v1', 'v2', '=%d' % res])
    for bits in range(4):
        b1_, b2_ = bits & 1, bits >> 1
        for pre in ('if ( %s ) { print("y"); } else { print("n"); }', 'bool r = %s; print(r ? "y" : "n");',
                    'print((%s) ? "y" : "n");', 'int i = 0; while ( (i < 1) && (%s) ) { i++; print("y"); break; } if ( i == 0 ) { print("n"); }',
                    'int i = 0; for ( ; %s; ) { i++; print("y"); break; } if ( i == 0 ) { print("n"); }',
                    'switch ( %s ) { case true: { print("y"); break; } default: { print("n"); break; } }'):
            for op, f in (('&&', lambda a, b: (a and b, not a)), ('||', lambda a, b: (a or b, a)), ('!&', lambda a, b: (not (a and b), not a))):
                val, sc = f(b1_, b2_)
                if sc and b2_:
                    continue
                out = ['b1'] if sc else ['b1', 'b2']
                e = 'b1() %s b2()' % op
                yield T('ctx%d%s%s' % (bits, op, pre[:24].replace(' ', '')), pre % e, out + ['y' if val else 'n'], bits=bits)
            val = b1_ and b2_
            yield T('ctxf%d%s' % (bits, pre[:24].replace(' ', '')), pre % 'fb(b1(), b2())',
                    ['b1', 'b2', 'fb:%d:%d' % (b1_, b2_), 'y' if val else 'n'], bits=bits)
    # prefix operators bind to one operand
    yield T('neg-add', 'int x = 7; print("=" + (-x + 1));', ['=-6'])
    yield T('sub-neg', 'int x = 7; print("=" + (2 - -x));', ['=9'])
    yield T('mul-neg', 'int x = 7; print("=" + (2 * -x));', ['=-14'])
    yield T('neg-call', 'print("=" + (-f1(v1())));', ['v1', 'f1:7', '=-8'])
    yield T('neg-mem', 'Ob o = new Ob(4); print("=" + (-o.mV - 1));', ['=-5'])
    yield T('not-call', 'print("=" + (!b1() == b2()));', ['b1', 'b2', '=1'], bits=2)


SMALL = ('-', '*', '/', '&', '==', '<', '&&', '||')
ONE = ('-', '*', '<', '&&', '||')


def families(thorough):
    yield f_flat(1, 2, OPS)
    yield f_flat(2, 3 if thorough else 1, OPS)
    yield f_flat(3, 1 if thorough else 0, OPS if thorough else SMALL)
    if thorough:
        yield f_flat(4, 0, SMALL)
    yield f_tree(2, 1, OPS)
    yield f_tree(3, 0, OPS if thorough else ONE)
    if thorough:
        yield f_tree(4, 0, ONE)
    yield f_paren(2, OPS)
    yield f_paren(3, SMALL if thorough else ONE)
    yield f_ternary(OPS if thorough else SMALL)
    yield f_elvis(OPS if thorough else SMALL)
    yield f_context(f_single())
    yield f_context(f_flat(1, 2 if thorough else 1, OPS))
    yield f_context(f_flat(2, 1 if thorough else 0, OPS if thorough else SMALL))
    yield f_context(f_elvis(()))
    yield f_context(f_ternary(()))


def rejects():
    """Expressions outside the typing rules are refused (no silent reinterpretation)."""
    for o in MUL + ADD + CMP:
        if o not in ('==', '!='):
            yield reject('rej:b%sb' % o, 'b1() %s b2()' % o, 'bool')
        yield reject('rej:b%sv' % o, 'b1() %s v2()' % o, 'bool')
    yield reject('rej:-b', '-b1()', 'int')
    for x, y in (('v1()', 'b1()'), ('b1()', 'v1()'), ('v1()', 's1()'), ('s1()', 'v1()'), ('b1()', 's1()')):
        for ty in ('int', 'bool', 'string'):
            yield reject('rej:%s ?: %s' % (x, y), '%s ?: %s' % (x, y), ty)
            yield reject('rej:b2() ? %s : %s' % (x, y), 'b2() ? %s : %s' % (x, y), ty)


TH = False


def expand(shard, ns):
    i = 0
    vals = VALS if TH else VALS[:3]
    for fam in families(TH):
        for nm, text, tree in fam:
            i += 1
            if i % ns == shard:
                c = make5(nm, text, tree) if '5()' in text else make(nm, text, tree, vals)
                if c:
                    yield c
    for c in itertools.chain(templates(), rejects()):
        i += 1
        if i % ns == shard:
            yield c


def sub5(t):
    if t[0] in 'vb':
        return (t[0], 1) if t[1] == 5 else t
    return tuple(sub5(x) if isinstance(x, tuple) else x for x in t)


def make5(nm, text, tree):
    return make(nm, text.replace('v5()', 'v1()').replace('b5()', 'b1()'), sub5(tree), VALS[:2])


def main():
    global TH
    H.build()
    c = H.Check("C04", assumptions=["traces that divide by zero are left to C05", "the conditional operators are exercised with a single or parenthesised condition"])
    TH = c.thorough
    c.bounds = {"binary_operators_flat": 4 if TH else 3, "binary_operators_parenthesised": 4 if TH else 3,
                "operators": " ".join(OPS), "operand_values": [list(v) for v in (VALS if TH else VALS[:3])],
                "boolean_operands": "all outcomes"}
    c.run_cases(expand, nshards=64 if TH else 24, prelude=PRELUDE)
    c.finish()


if __name__ == "__main__":
    H.main(main)

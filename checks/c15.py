"""C15: collections against their abstract counterparts."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

EX = "ex"  # the operation raises an exception

ELEMS = {  # element type -> (slang type, values, text of a value as printed)
    "int": ("int", ["1", "2", "3"], ["1", "2", "3"]),
    "str": ("string", ['"a"', '"b"', '"c"'], ["a", "b", "c"]),
    "obj": ("E", ["e1", "e2", "e3"], ["1", "2", "3"]),
}


class Kind:
    """One collection class: its mutators and the way all of its queries are observed.

    ops: [(label, slang statement, fn(state) -> (new state, printed line or None))]"""

    def __init__(self, name, cls, elem, ctor, ops, init=(), ret=True):
        self.name, self.cls, self.elem, self.ctor, self.ops, self.init = name, cls, elem, ctor, ops, init


def show(e, x):
    return "(string c.%s)" % x if e != "obj" else "(c.%s).text()" % x


def seq_obs(e, first, last, peek=None):
    """slang code printing everything a sequence can be asked"""
    t, vals, _ = ELEMS[e]
    code = 's = string c.size(); s = s + "|";'
    code += ' if ( c.empty() ) { s = s + "E"; }'
    code += ' for ( int i = -1; i <= c.size(); i++ ) { try { s = s + "," + %s; } catch ( IException x ) { s = s + "!"; } }' % show(e, "at( i )")
    code += ' for ( int i = 0; i <= c.size(); i++ ) { try { if ( c[i] == c.at( i ) ) { s = s + "="; } } catch ( IException x ) { s = s + "!"; } }'
    for f in (first, last, peek):
        if f:
            code += ' try { s = s + "%s" + %s; } catch ( IException x ) { s = s + "%s!"; }' % (f[0], show(e, f), f[0])
    return code


def obs_fn(k, extra=""):
    return "public void obs%s(%s c) throws { string s; %s print(s); }" % (k.name, k.cls, extra)


def seq_model(e, st, first, last, peek=None, idx=True):
    _, _, txt = ELEMS[e]
    s = "%d|" % len(st)
    if not st:
        s += "E"
    s += "!" + "".join("," + txt[v] for v in st) + "!" + "=" * len(st) + "!"
    for f, v in ((first, st[0] if st else None), (last, st[-1] if st else None), (peek, st[-1] if st else None)):
        if f:
            s += f[0] + (txt[v] if v is not None else "!")
    if idx:
        for v in range(3):
            i = st.index(v) if v in st else -1
            s += ";%d%s" % (i, "" if i < 0 else "y")
    return s


def idx_code(e):
    t, vals, _ = ELEMS[e]
    return "".join(' s = s + ";" + (string c.indexOf( %s )); if ( c.contains( %s ) ) { s = s + "y"; }' % (v, v) for v in vals)


def erase(i):
    return lambda st: ((st[:i] + st[i + 1:], None) if 0 <= i < len(st) else (st, EX))


def seq_ops(e, nv, kind):
    t, vals, txt = ELEMS[e]
    L = []
    if kind in ("List", "Vector", "DoubleLinkedList"):
        for v in range(nv):
            L.append(("pb%d" % v, "c.push_back( %s );" % vals[v], lambda st, v=v: (st + (v,), None)))
            L.append(("pf%d" % v, "c.push_front( %s );" % vals[v], lambda st, v=v: ((v,) + st, None)))
        L.append(("ob", "c.pop_back();", lambda st: (st[:-1], None) if st else (st, EX)))
        L.append(("of", "c.pop_front();", lambda st: (st[1:], None) if st else (st, EX)))
    if kind == "Vector":
        for i in (-1, 0, 1, 2, 3):
            L.append(("in%d" % i, "c.insert( %d, %s );" % (i, vals[2]),
                      lambda st, i=i: (st[:i] + (2,) + st[i:], None) if 0 <= i <= len(st) else (st, EX)))
    if kind == "Stack":
        for v in range(nv):
            L.append(("pu%d" % v, "c.push( %s );" % vals[v], lambda st, v=v: (st + (v,), None)))
        L.append(("po", "print(%s);" % show(e, "pop()"), lambda st: (st[:-1], txt[st[-1]]) if st else (st, EX)))
    if kind == "Queue":
        for v in range(nv):
            L.append(("en%d" % v, "c.enqueue( %s );" % vals[v], lambda st, v=v: (st + (v,), None)))
        L.append(("de", "print(%s);" % show(e, "dequeue()"), lambda st: (st[1:], txt[st[0]]) if st else (st, EX)))
    if kind in ("Set", "MultiSet"):
        for v in (1, 0, 2):
            def ins(st, v=v):
                if v in st and kind == "Set":
                    return st, EX
                return tuple(sorted(st + (v,))), None
            L.append(("in%d" % v, "c.insert( %s );" % vals[v], ins))
    if kind != "Queue":
        for i in (0, 1, 2, 3, -1):
            L.append(("er%d" % i, "c.erase( %d );" % i, erase(i)))
    L.append(("cl", "c.clear();", lambda st: ((), None)))
    return L


def kinds(nv):
    out = []
    for e in ("int", "str", "obj"):
        t = ELEMS[e][0]
        for n in ("List", "Vector", "DoubleLinkedList", "Stack", "Queue", "Set", "MultiSet"):
            cls = "%s<%s>" % ("Set" if n == "MultiSet" else n, t)
            k = Kind(n + e, cls, e, "new %s(%s)" % (cls, "true" if n == "MultiSet" else ""), seq_ops(e, nv, n))
            f = None if n in ("Stack", "Queue") else "first()"
            l = None if n in ("Stack", "Queue") else "last()"
            p = "peek()" if n in ("Stack", "Queue") else None
            k.code = seq_obs(e, f, l, p) + (idx_code(e) if n != "Queue" else "")
            k.model = lambda st, e=e, f=f, l=l, p=p, i=(n != "Queue"): seq_model(e, st, f, l, p, i)
            k.elemtype = t
            out.append(k)
    # Map: keys and values; state is a tuple of (key, value) pairs in insertion order
    for e in ("int", "str"):
        t, keys, txt = ELEMS[e]
        cls = "Map<%s, string>" % t
        ops = []
        for i in range(3):
            for v in "xy":
                if i == 2 and v == "y":
                    continue
                # inserting a key that is present is not covered: the library leaves it open
                ops.append(("in%d%s" % (i, v), 'c.insert( %s, "%s" );' % (keys[i], v),
                            lambda st, i=i, v=v: (st + ((i, v),), None) if i not in dict(st) else None))
            ops.append(("pt%d" % i, 'c.put( %s, "z" );' % keys[i],
                        lambda st, i=i: (tuple((k, "z" if k == i else v) for k, v in st), None) if i in dict(st) else (st, EX)))
            ops.append(("rm%d" % i, 'c.remove( %s );' % keys[i], lambda st, i=i: (tuple(p for p in st if p[0] != i), None)))
        ops.append(("cl", "c.clear();", lambda st: ((), None)))
        k = Kind("Map" + e, cls, e, "new %s()" % cls, ops)
        k.code = 's = string c.size(); s = s + "|"; if ( c.empty() ) { s = s + "E"; }'
        k.code += "".join(' s = s + ";" + (string c.indexOf( %s )); if ( c.contains( %s ) ) { s = s + "y"; } try { s = s + c.get( %s ) + c[%s]; } catch ( IException x ) { s = s + "!"; }'
                          % (v, v, v, v) for v in keys)
        k.code += ' foreach ( Pair<%s, string> p : c ) { s = s + "/" + (string p); }' % t

        def mm(st, txt=txt):
            s = "%d|" % len(st) + ("E" if not st else "")
            d = dict(st)
            for i in range(3):
                if i in d:
                    s += ";%dy%s%s" % ([k for k, v in st].index(i), d[i], d[i])
                else:
                    s += ";-1!"
            return s + "".join("/{%s:%s}" % (txt[k], v) for k, v in st)
        k.model = mm
        out.append(k)
    return out


def prelude():
    p = '''import System.Collections.All;
import System.Collections.Range;
import System.Exception;
public object E { private int mN; public void Constructor(int n) { mN = n; } public string text() const { return string mN; }
 public bool operator<(E other) const { return mN < other.mN; } }
public E e1; public E e2; public E e3;
'''
    # prototype types of parameters have to be known from a member declaration
    p += "public object Types { %s }\n" % " ".join("private %s m%s;" % (k.cls, k.name) for k in KINDS)
    for k in KINDS:
        p += obs_fn(k, k.code) + "\n"
        for i, (lab, stmt, fn) in enumerate(k.ops):
            p += 'public void o%s%d(%s c) throws { try { %s } catch ( IException x ) { print("ex"); } }\n' % (k.name, i, k.cls, stmt)
    return p


SETUP = "e1 = new E(1); e2 = new E(2); e3 = new E(3);"


def seq_case(k, seq):
    """None if the sequence is not covered"""
    st = k.init
    exp = []
    states = set()
    for i in seq:
        r = k.ops[i][2](st)
        if r is None:
            return None
        st, line = r
        states.add(st)
        if line is not None:
            exp.append(line)
    code = "c = %s; " % k.ctor + "".join("o%s%d(c); " % (k.name, i) for i in seq) + "obs%s(c);" % k.name
    exp.append(k.model(st))
    return code, exp, len(states), st


def grouped(k, seqs, tag):
    """several sequences in one function"""
    calls, n, tr = [], 0, 0
    body = []
    for j, (seq, (code, exp, ns, st)) in enumerate(seqs):
        calls.append(("f$$_%d();" % j, exp))
        body.append("public void f$$_%d() modify throws { %s %s c; %s }" % (j, SETUP if k.elem == "obj" else "", k.cls, code))
        n += ns
        tr += len(seq) + 1
    return H.Case("%s:%s" % (k.name, tag), "\n".join(body), calls, states=n, trans=tr)


def sequences(k, depth, deep):
    """all sequences up to depth, then all transitions from every (content, last operation) pair up to deep steps"""
    frontier = [((), k.init)]
    seen = set()
    for d in range(1, deep + 1):
        nxt = []
        for seq, st in frontier:
            for i in range(len(k.ops)):
                r = k.ops[i][2](st)
                if r is None:
                    continue
                if len(r[0]) > MAXSIZE:
                    continue
                yield seq + (i,)
                key = (r[0], i, seq[-1] if seq else None)
                if d < depth or key not in seen:
                    seen.add(key)
                    nxt.append((seq + (i,), r[0]))
        frontier = nxt


def expand(shard, ns):
    n = 0
    for k in KINDS:
        buf = []
        for seq in sequences(k, DEPTH if k.elem == "int" else DEPTH - 1, DEEP if k.elem == "int" else DEEP - 2):
            n += 1
            if (n // 20) % ns != shard:
                continue
            r = seq_case(k, seq)
            if r:
                buf.append((seq, r))
            if len(buf) == 20:
                yield grouped(k, buf, ".".join(k.ops[i][0] for i in buf[0][0]) + "-" + ".".join(k.ops[i][0] for i in buf[-1][0]))
                buf = []
        if buf:
            yield grouped(k, buf, ".".join(k.ops[i][0] for i in buf[0][0]) + "-" + ".".join(k.ops[i][0] for i in buf[-1][0]))


def expand_copy(shard, ns):
    """a copy has the same content, and operations on copy and original do not affect each other"""
    n = 0
    for k in KINDS:
        buf = []
        seen = set()
        for pre in sequences(k, 1, COPYPRE + 1):
            r = seq_case(k, pre)
            if r is None or len(r[3]) > COPYPRE or r[3] in seen:
                continue
            seen.add(r[3])
            for a in range(-1, len(k.ops)):
                for b in range(-1, len(k.ops)):
                    n += 1
                    if (n // 20) % ns != shard or (QUICK and a >= 0 and b >= 0):
                        continue
                    st = r[3]
                    code = r[0][:r[0].rindex("obs")] + "d = c.Copy(); "
                    ra = k.ops[a][2](st) if a >= 0 else (st, None)
                    rb = k.ops[b][2](st) if b >= 0 else (st, None)
                    if ra is None or rb is None:
                        continue
                    code += ("o%s%d(c); " % (k.name, a) if a >= 0 else "") + ("o%s%d(d); " % (k.name, b) if b >= 0 else "")
                    code += "obs%s(c); obs%s(d);" % (k.name, k.name)
                    exp = r[1][:-1] + [x for x in (ra[1], rb[1]) if x is not None] + [k.model(ra[0]), k.model(rb[0])]
                    buf.append((pre + (a, b), ("%s d; " % k.cls + code, exp, 3, None)))
            while len(buf) >= 20:
                yield grouped(k, buf[:20], "copy:" + repr(buf[0][0]) + repr(buf[19][0]))
                buf = buf[20:]
        if buf:
            yield grouped(k, buf, "copy:" + repr(buf[0][0]) + repr(buf[-1][0]))


def rng(s, e, st):
    return list(range(s, e + 1, st)) if st > 0 else list(range(s, e - 1, st))


def expand_range(shard, ns):
    n = 0
    W = 4 if QUICK else 7
    for s in range(-W, W + 1):
        calls, body = [], []
        for e in range(-W, W + 1):
            for st in (1, 2, 3, 5, -1, -2, -3):
                v = rng(s, e, st)
                for form in (0, 1, 2, 3):
                    if form in (1, 3) and st != 1:
                        continue
                    src = {0: "new Range( %d, %d, %d )", 1: "new Range( %d, %d )", 2: "Range.Create( %d, %d ).step( %d )", 3: "(%d)..(%d)"}[form]
                    src = src % ((s, e, st) if form in (0, 2) else (s, e))
                    exp = [str(len(v)), str(st)] + [str(x) for x in v] + ["!", "!"] + [str(x) for x in v]
                    i = len(calls)
                    body.append("public void f$$_%d() throws { Range r = %s; rg(r); }" % (i, src))
                    calls.append(("f$$_%d();" % i, exp))
        n += 1
        if n % ns == shard:
            yield H.Case("range:%d" % s, "\n".join(body), calls, states=len(calls), trans=sum(len(c[1]) for c in calls))
    # pairs
    calls, body = [], []
    for a in (1, 2):
        for b in (1, 2):
            for c in "xy":
                exp = ["{%d:%s}" % (a, c), str(int(a == b)), str(int(a == b)), str(int(a < b)), str(int(a < b)), "{%d:%s}" % (a, c), "{9:q}"]
                i = len(calls)
                body.append('public void f$$_%d() modify throws { Pair<int, string> p = new Pair<int, string>( %d, "%s" ); Pair<int, string> q = new Pair<int, string>( %d, "w" ); '
                            'print( string p ); print( p == q ); print( p == %d ); print( p < q ); print( p < %d ); '
                            'Pair<int, string> r = p.Copy(); r.first = 9; r.second = "q"; print( string p ); print( string r ); }' % (i, a, c, b, b, b))
                calls.append(("f$$_%d();" % i, exp))
    if shard == 0:
        yield H.Case("pair", "\n".join(body), calls, states=len(calls), trans=len(calls) * 6)


RG = '''public void rg(Range r) throws { print( r.size() ); print( r.getStep() );
 for ( int i = 0; i < r.size(); i++ ) { print( r.at( i ) ); }
 try { print( r.at( -1 ) ); } catch ( IException x ) { print( "!" ); }
 try { print( r.at( r.size() ) ); } catch ( IException x ) { print( "!" ); }
 foreach ( int i : r ) { print( i ); } }
'''


def main():
    global KINDS, DEPTH, DEEP, MAXSIZE, COPYPRE, QUICK
    c = H.Check("C15", assumptions=["elements are int, string and objects ordered by a user-defined operator",
                                    "inserting a key into a Map that already contains it is not covered",
                                    "Queue.peek() delivers the newest element, as the project's own tests state"])
    H.build(("slang",))
    QUICK = not c.thorough
    KINDS = kinds(2)
    DEPTH, DEEP, MAXSIZE, COPYPRE = (3, 7, 4, 3) if c.thorough else (2, 4, 3, 2)
    c.bounds = {"collections": [k.name for k in KINDS], "operations": {k.name: len(k.ops) for k in KINDS}, "all sequences up to": DEPTH,
                "all operations after every reachable (content, last two operations) up to": DEEP, "elements": MAXSIZE}
    p = prelude() + RG
    c.run_cases(expand, prelude=p, batch=2000)
    if not c.violations:
        c.run_cases(expand_copy, prelude=p, batch=2000)
    if not c.violations:
        c.run_cases(expand_range, prelude=p, batch=2000)
    c.finish()


if __name__ == "__main__":
    H.main(main)

"""C16: foreach and the library iterators."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H
import c15 as L

EX = "ex"


def ctext(e, x):
    return "(string %s)" % x if e != "obj" else "(%s).text()" % x


# --- iterator automaton: position -1 .. n-1 ---------------------------------

def it_step(op, vals, pos):
    """-> (new pos, line or None)"""
    n = len(vals)
    if op == "h":
        return pos, "1" if pos + 1 < n else "0"
    if op in "ni":
        return (pos + 1, vals[pos + 1]) if pos + 1 < n else (pos, EX)
    if op == "c":
        return pos, vals[pos] if pos >= 0 else EX
    if op == "r":
        return -1, None
    if op in "123":
        i = pos + int(op)
        return pos, vals[i] if i < n else EX
    if op == "0":
        return pos, vals[pos] if pos >= 0 else EX
    if op in "zy":
        i = pos - (1 if op == "z" else 2)
        return pos, vals[i] if i >= 0 and pos >= 0 else EX
    if op == "H":
        return pos, "1" if pos > 0 else "0"
    if op in "pd":
        return (pos - 1, vals[pos - 1]) if pos > 0 else (pos, EX)
    raise ValueError(op)


CODE = {"h": "print(it.hasNext());", "n": "print(%s);", "i": "it++; print(%s);", "c": "print(%s);", "r": "it.reset();",
        "0": "print(%s);", "1": "print(%s);", "2": "print(%s);", "3": "print(%s);", "z": "print(%s);", "y": "print(%s);",
        "H": "print(it.hasPrevious());", "p": "print(%s);", "d": "it--; print(%s);"}
CALL = {"n": "it.next()", "i": "it.current()", "c": "it.current()", "0": "it.peek( 0 )", "1": "it.peek()", "2": "it.peek( 2 )", "3": "it.peek( 3 )",
        "z": "it.peek( -1 )", "y": "it.peek( -2 )", "p": "it.previous()", "d": "it.current()"}


def op_fn(tag, cls, e, op):
    code = CODE[op]
    if "%s" in code:
        code = code % ctext(e, CALL[op])
    return 'public void i%s%s(%s it) throws { try { %s } catch ( IException x ) { print("ex"); } }' % (tag, op, cls, code)


class It:
    """an iterator class: (tag, slang class, element kind, operations)"""

    def __init__(self, tag, cls, e, ops):
        self.tag, self.cls, self.e, self.ops = tag, cls, e, ops


FULL = "hnicr0123"
ITS = [It("F" + e, "Iterator<%s>" % L.ELEMS[e][0], e, FULL + "zyHpd") for e in ("int", "str", "obj")] + \
      [It("R" + e, "ReverseIterator<%s>" % L.ELEMS[e][0], e, FULL + "zyHpd") for e in ("int", "str", "obj")] + \
      [It("A", "RandomAccessIterator<int>", "int", FULL + "zy"), It("Z", "ReverseRandomAccessIterator<int>", "int", FULL + "zy"),
       It("C", "CharacterIterator", "str", FULL + "zy"), It("S", "StringIterator", "str", "hnicr")]
BACK = "zyHpd"  # only List keeps links to previous elements


def seqs(ops, depth):
    for d in range(1, depth + 1):
        yield from itertools.product(ops, repeat=d)


def trace(vals, seq):
    pos, out, st = -1, [], {-1}
    for o in seq:
        pos, l = it_step(o, vals, pos)
        st.add(pos)
        if l is not None:
            out.append(l)
    return out, len(st)


class Grouper:
    """packs (body, expected, states, transitions) items into cases"""

    def __init__(self, shard, ns, per=25):
        self.shard, self.ns, self.per, self.n, self.buf = shard, ns, per, 0, []

    def mine(self):
        self.n += 1
        return (self.n // self.per) % self.ns == self.shard

    def put(self, name, code, exp, states, trans):
        self.buf.append((name, code, exp, states, trans))
        if len(self.buf) >= self.per:
            return self.flush()
        return []

    def flush(self):
        if not self.buf:
            return []
        b, self.buf = self.buf, []
        decl = "\n".join("public void f$$_%d() modify throws { %s }" % (i, x[1]) for i, x in enumerate(b))
        return [H.Case("%s..%s" % (b[0][0], b[-1][0]), decl, [("f$$_%d();" % i, x[2]) for i, x in enumerate(b)],
                       states=sum(x[3] for x in b), trans=sum(x[4] for x in b))]


def make(kind, e, n):
    """slang code creating collection c with n elements and its values in forward order"""
    t, vals, txt = L.ELEMS[e]
    idx = [i % 3 for i in range(n)] if kind not in ("Set",) else list(range(min(n, 3)))
    add = {"Stack": "push", "Queue": "enqueue", "Set": "insert"}.get(kind, "push_back")
    code = (L.SETUP + " " if e == "obj" else "") + "%s<%s> c = new %s<%s>(); " % (kind, t, kind, t)
    code += "".join("c.%s( %s ); " % (add, vals[i]) for i in idx)
    return code, [txt[i] for i in idx]


COLL = ("List", "Vector", "DoubleLinkedList", "Stack", "Queue", "Set")


def expand_ops(shard, ns):
    """every operation sequence of one iterator, for every class and size"""
    g = Grouper(shard, ns)
    for kind in COLL:
        for e in ("int", "str", "obj"):
            for rev in (False, True):
                it = [i for i in ITS if i.tag == ("R" if rev else "F") + e][0]
                ops = it.ops if kind == "List" else [o for o in it.ops if o not in BACK]
                for n in range(0, SIZE + 1):
                    code, vals = make(kind, e, n)
                    if rev:
                        vals = vals[::-1]
                    depth = IDEPTH if (kind, e) in (("List", "int"), ("Vector", "int")) else IDEPTH - 1
                    for s in seqs(ops, depth):
                        if not g.mine():
                            continue
                        out, st = trace(vals, s)
                        yield from g.put("%s%s%s%d:%s" % (kind, e, "r" if rev else "", n, "".join(s)),
                                         code + "var it = c.%s(); " % ("getReverseIterator" if rev else "getIterator") +
                                         "".join("i%s%s(it); " % (it.tag, o) for o in s), out, st, len(s))
    for rev in (False, True):
        it = [i for i in ITS if i.tag == ("Z" if rev else "A")][0]
        for a, b, c in ((1, 0, 1), (1, 1, 1), (2, 4, 1), (5, 1, -2)):
            vals = [str(v) for v in L.rng(a, b, c)][::-1 if rev else 1]
            for s in seqs(it.ops, IDEPTH - 1):
                if not g.mine():
                    continue
                out, st = trace(vals, s)
                yield from g.put("Range%d,%d,%d%s:%s" % (a, b, c, "r" if rev else "", "".join(s)),
                                 "Range c = new Range( %d, %d, %d ); var it = c.%s(); " % (a, b, c, "getReverseIterator" if rev else "getIterator") +
                                 "".join("i%s%s(it); " % (it.tag, o) for o in s), out, st, len(s))
    yield from g.flush()


def expand_str(shard, ns):
    """character and string iterators"""
    g = Grouper(shard, ns)
    for n in range(0, SIZE + 1):
        w = "abc d"[:n]
        for s in seqs(ITS[-2].ops, IDEPTH - 1):
            if not g.mine():
                continue
            out, st = trace(list(w), s)
            yield from g.put("char%d:%s" % (n, "".join(s)), 'CharacterIterator it = new CharacterIterator( "%s" ); ' % w +
                             "".join("iC%s(it); " % o for o in s), out, st, len(s))
    for n in range(0, STRLEN + 1):
        for w in itertools.product("a, ", repeat=n):
            w = "".join(w)
            if g.mine():
                exp = list(w) + [EX]
                yield from g.put("chars:" + w, 'CharacterIterator it = new CharacterIterator( %s"%s"%s ); while ( it.hasNext() ) { print( it.next() ); } iCn(it);'
                                 % (("new String( ", w, " )") if n % 2 else ("", w, "")), exp, n + 2, n + 2)
            for sep in (",", " ", "a,", ",,", None):
                vals = w.split(sep if sep else " ")
                ctor = 'new StringIterator( %s"%s"%s%s )' % ("new String( " if n % 2 else "", w, " )" if n % 2 else "", ', "%s"' % sep if sep else "")
                for mode in (0, 1):
                    if not g.mine():
                        continue
                    if mode == 0:
                        yield from g.put("split%r/%r" % (w, sep), 'StringIterator it = %s; while ( it.hasNext() ) { print( it.next() ); if ( it.current() != string it ) { print( "differs" ); } } iSn(it); it.reset(); iSc(it); iSn(it);' % ctor,
                                         vals + [EX, EX, vals[0]], len(vals) + 1, len(vals) + 4)
                    elif n <= 3:
                        for s in itertools.product("hnc", repeat=3):
                            out, st = trace(vals, s)
                            yield from g.put("split%r/%r:%s" % (w, sep, "".join(s)), "StringIterator it = %s; " % ctor + "".join("iS%s(it); " % o for o in s), out, st, len(s))
    yield from g.flush()


def expand_hist(shard, ns):
    """iteration over every content reached by collection operations"""
    g = Grouper(shard, ns)
    for k in L.KINDS:
        for seq in L.sequences(k, 1, HIST if k.elem == "int" else HIST - 1):
            if not g.mine():
                continue
            r = L.seq_case(k, seq)
            if r is None:
                continue
            code, exp, nst, st = r
            code = code[:code.rindex("obs")]
            if k.name.startswith("Map"):
                v = ["{%s:%s}" % (L.ELEMS[k.elem][2][a], b) for a, b in st]
                code += 'foreach ( Pair<%s, string> p : c ) { print( string p ); } print( "-" );' % L.ELEMS[k.elem][0]
                code += 'var it = c.getReverseIterator(); while ( it.hasNext() ) { it++; Pair<%s, string> q = Pair<%s, string> it.current(); print( string q ); }' % ((L.ELEMS[k.elem][0],) * 2)
                out = v + ["-"] + v[::-1]
            else:
                v = [L.ELEMS[k.elem][2][i] for i in st]
                code += 'walk%s(c);' % k.name
                out = v + ["-"] + v + ["-"] + v[::-1] + ["-"]
                if v:
                    out += [x + y for x in v for y in v]
            pre = exp[:-1]
            yield from g.put("hist:%s:%s" % (k.name, ".".join(k.ops[i][0] for i in seq)),
                             (L.SETUP if k.elem == "obj" else "") + "%s c; %s" % (k.cls, code), pre + out, nst + len(v), len(seq) + 4 * len(v))
    yield from g.flush()


def walk_fn(k):
    t, e = L.ELEMS[k.elem][0], k.elem
    return ('''public void walk%s(%s c) throws {
 foreach ( %s v : c ) { print( %s ); }
 print( "-" );
 var it = c.getIterator();
 while ( it.hasNext() ) { print( %s ); }
 print( "-" );
 var rt = c.getReverseIterator();
 while ( rt.hasNext() ) { print( %s ); }
 print( "-" );
 foreach ( %s a : c ) { foreach ( %s b : c ) { print( %s + %s ); } }
}''' % (k.name, k.cls, t, ctext(e, "v"), ctext(e, "it.next()"), ctext(e, "rt.next()"), t, t, ctext(e, "a"), ctext(e, "b")))


def expand_pair(shard, ns):
    """two or three iterators over one collection, interleaved with a foreach"""
    g = Grouper(shard, ns)
    for kind in COLL + ("Range",):
        for n in range(0, 4 if not QUICK else 3):
            if kind == "Range":
                code, vals = "Range c = new Range( 1, %d ); " % n, [str(i + 1) for i in range(n)]
                tags = ("A", "A", "Z")
            else:
                code, vals = make(kind, "int", n)
                tags = ("Fint", "Fint", "Rint")
            vv = (vals, vals, vals[::-1])
            code += "var it0 = c.getIterator(); var it1 = c.getIterator(); var it2 = c.getReverseIterator(); "
            alphabet = [(i, o) for i in range(3) for o in "nhc"] + [(0, "r"), (3, "F")]
            for d in range(1, PDEPTH + 1):
                for s in itertools.product(alphabet, repeat=d):
                    if not g.mine():
                        continue
                    pos = [-1, -1, -1]
                    out, st, body = [], set(), ""
                    for i, o in s:
                        if i == 3:
                            body += "foreach ( int v : c ) { print( v ); } "
                            out += vals
                        else:
                            body += "i%s%s(it%d); " % (tags[i], o, i)
                            pos[i], l = it_step(o, vv[i], pos[i])
                            if l is not None:
                                out.append(l)
                        st.add(tuple(pos))
                    yield from g.put("pair:%s%d:%s" % (kind, n, "".join("%d%s" % x for x in s)), code + body, out, len(st), len(s))
    yield from g.flush()


def loop_model(sizes, dec):
    """nested foreach loops, each iteration decided by one symbol: . go on, b break, c continue (skips the inner loop), B: break after the inner loop"""
    out = []
    dec = list(dec)

    def run(level):
        for i in range(sizes[level]):
            out.append("%d:%d" % (level, i))
            d = dec.pop(0) if dec else "."
            if d == "b":
                break
            if d == "c":
                continue
            if level + 1 < len(sizes):
                run(level + 1)
            out.append("e%d" % level)
            if d == "B":
                break
    run(0)
    return out, len(dec)


def expand_loops(shard, ns):
    """nested foreach loops with break/continue in any iteration, over each collection class and over user-defined iterables"""
    g = Grouper(shard, ns)
    for src in SRC:
        for sizes in ((0,), (1,), (3,), (2, 2), (3, 1), (1, 3), (2, 1, 2)):
            for n in range(0, LDEC + 1):
                for dec in itertools.product(".bcB", repeat=n):
                    if n and dec[-1] == ".":
                        continue
                    out, left = loop_model(sizes, dec)
                    if left:
                        continue
                    if not g.mine():
                        continue
                    body = 'gDec = "%s"; gPos = 0; ' % "".join(dec)
                    body += "".join("var c%d = new %s(); " % (i, SRC[src][0]) + SRC[src][1] % {"c": "c%d" % i, "n": sz} for i, sz in enumerate(sizes))

                    def loop(l):
                        t = SRC[src][2]
                        x = 'foreach ( %s v%d : c%d ) { print( "%d:" + %s ); string d%d = dec(); if ( d%d == "b" ) { break; } if ( d%d == "c" ) { continue; } ' % (
                            t, l, l, l, SRC[src][3] % ("v%d" % l), l, l, l)
                        if l + 1 < len(sizes):
                            x += loop(l + 1)
                        return x + 'print( "e%d" ); if ( d%d == "B" ) { break; } } ' % (l, l)
                    yield from g.put("loop:%s:%s:%s" % (src, sizes, "".join(dec)), body + loop(0), out, len(out) + 1, len(out))
    yield from g.flush()


# source -> (class, fill code, element type, text of an element)
SRC = {
    "List": ("List<int>", "for ( int i = 0; i < %(n)d; i++ ) { %(c)s.push_back( i ); } ", "int", "(string %s)"),
    "Vector": ("Vector<int>", "for ( int i = 0; i < %(n)d; i++ ) { %(c)s.push_back( i ); } ", "int", "(string %s)"),
    "Stack": ("Stack<string>", "for ( int i = 0; i < %(n)d; i++ ) { %(c)s.push( string i ); } ", "string", "%s"),
    "Set": ("Set<int>", "for ( int i = 0; i < %(n)d; i++ ) { %(c)s.insert( i ); } ", "int", "(string %s)"),
    "Queue": ("Queue<int>", "for ( int i = 0; i < %(n)d; i++ ) { %(c)s.enqueue( i ); } ", "int", "(string %s)"),
    "Own": ("Own", "%(c)s.n = %(n)d; ", "int", "(string %s)"),
}

PRE = '''import System.CharacterIterator;
import System.StringIterator;
import System.String;
public object OwnIt { private int mI; private int mN; public void Constructor(int n) { mN = n; mI = -1; } public bool hasNext() const { return mI + 1 < mN; }
 public int next() modify { mI = mI + 1; return mI; } public int current() const { return mI; } }
public object Own { public int n; public OwnIt getIterator() const { return new OwnIt( n ); } }
public string gDec; public int gPos;
public string dec() modify { if ( gPos >= strlen( gDec ) ) { return "."; } gPos = gPos + 1; return substr( gDec, gPos - 1, 1 ); }
public object ItTypes { %s }
'''


def main():
    global QUICK, SIZE, IDEPTH, STRLEN, HIST, PDEPTH, LDEC
    c = H.Check("C16", assumptions=["collections are not changed while they are iterated",
                                    "moving backwards is exercised on List only: the other collections keep no links to previous elements"])
    H.build(("slang",))
    QUICK = not c.thorough
    L.QUICK = QUICK
    L.KINDS = L.kinds(2)
    L.MAXSIZE = 3 if QUICK else 4
    SIZE, IDEPTH, STRLEN, HIST, PDEPTH, LDEC = (2, 3, 4, 3, 3, 3) if QUICK else (4, 4, 6, 5, 4, 5)
    c.bounds = {"collection sizes": SIZE, "iterator operations": IDEPTH, "string length": STRLEN, "collection operations before iterating": HIST,
                "operations of interleaved iterators": PDEPTH, "break/continue decisions in nested loops": LDEC}
    p = L.prelude() + PRE % " ".join("private %s m%s;" % (i.cls, i.tag) for i in ITS if "<" in i.cls)
    p += "\n".join(op_fn(i.tag, i.cls, i.e, o) for i in ITS for o in i.ops)
    p += "\n" + "\n".join(walk_fn(k) for k in L.KINDS if not k.name.startswith("Map")) + "\n"
    for f in (expand_ops, expand_str, expand_hist, expand_pair, expand_loops):
        if not c.violations:
            c.run_cases(f, prelude=p, batch=2000)
    c.finish()


if __name__ == "__main__":
    H.main(main)

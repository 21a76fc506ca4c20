"""C03: object lifetime."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H
import stmt
import c02

PRE = stmt.PRELUDE_EXOBJ + '''
public object N { public string n; public N next;
 public void Constructor(string s) { n = s; print("+" + n); }
 public void Destructor() { print("-" + n); }
 public string name() const { return n; }
 public N get() const { return next; }
 public void set(N o) modify { next = o; }
 public N self() { return this; }
}
public object Holder { public N a; private N b;
 public void Constructor() { }
 public void init(string s) modify { b = new N(s); a = b; }
 public void put(N x) modify { b = x; }
 public void drop() modify { b = N null; }
 public N give() const { return b; }
}
public N gN;
public N mk(string s) { return new N(s); }
public N ident(N o) { return o; }
public void use(N o) { print("u" + o.name()); }
public void over(N o, string s) { o = new N(s); print("u" + o.name()); }
public void thr() throws { throw "x"; }
public void take(N o) throws { print("u" + o.name()); throw "x"; }
public object Pair<T> { private T x; private T y; public void Constructor() { } public void put(T o) modify { x = o; y = o; } }
public N pick(N p, N q, bool first) { if ( first ) { return p; } return q; }
'''


class Heap:
    """Reference counting model: slots -> object ids, objects -> [name, next]."""

    def __init__(self):
        self.slots = {"a": None, "b": None, "g": None, "ha": None, "hb": None}
        self.obj = {}
        self.rc = {}
        self.out = []
        self.fresh = 0

    def key(self):
        # state up to renaming of objects
        ren, todo, edges = {}, [], []
        for s in sorted(self.slots):
            o = self.slots[s]
            if o is not None and o not in ren:
                ren[o] = len(ren)
                todo.append(o)
        i = 0
        while i < len(todo):
            n = self.obj[todo[i]]
            if n is not None and n not in ren:
                ren[n] = len(ren)
                todo.append(n)
            edges.append(None if n is None else ren[n])
            i += 1
        return tuple(ren.get(self.slots[s]) for s in sorted(self.slots)), tuple(edges), len(self.obj) - len(todo)

    def clone(self):
        h = Heap.__new__(Heap)
        h.slots, h.obj, h.rc, h.out, h.fresh = dict(self.slots), dict(self.obj), dict(self.rc), [], self.fresh
        return h

    def new(self):
        self.fresh += 1
        o = self.fresh
        self.obj[o] = None
        self.rc[o] = 0
        self.out.append("+%d" % o)
        return o

    def inc(self, o):
        if o is not None:
            self.rc[o] += 1

    def dec(self, o):
        if o is not None:
            self.rc[o] -= 1
            if self.rc[o] == 0:
                self.out.append("-%d" % o)
                n = self.obj.pop(o)
                del self.rc[o]
                self.dec(n)

    def set(self, s, o):
        self.inc(o)
        old = self.slots[s]
        self.slots[s] = o
        self.dec(old)

    def setnext(self, p, o):
        self.inc(o)
        old = self.obj[p]
        self.obj[p] = o
        self.dec(old)

    def temp(self, o):
        self.inc(o)
        self.dec(o)


def ops():
    """(name, source with %k for the next object name, guard(heap), effect(heap))"""
    L = []

    def op(src, eff, guard=None):
        L.append((src, guard or (lambda h: True), eff))

    S = lambda h, s: h.slots[s]
    for v, w in (("a", "b"), ("b", "a")):
        op('%s = new N("%%1");' % v, lambda h, v=v: h.set(v, h.new()))
        op('%s = %s;' % (v, w), lambda h, v=v, w=w: h.set(v, S(h, w)))
        op('%s = N null;' % v, lambda h, v=v: h.set(v, None))
        op('%s.next = %s;' % (v, w), lambda h, v=v, w=w: h.setnext(S(h, v), S(h, w)), lambda h, v=v: S(h, v) is not None)
    op('a = a;', lambda h: None)
    op('a.next = a;', lambda h: h.setnext(S(h, "a"), S(h, "a")), lambda h: S(h, "a") is not None)
    op('a.next = new N("%1");', lambda h: h.setnext(S(h, "a"), h.new()), lambda h: S(h, "a") is not None)
    op('a.next = N null;', lambda h: h.setnext(S(h, "a"), None), lambda h: S(h, "a") is not None)
    op('a = a.next;', lambda h: h.set("a", h.obj[S(h, "a")]), lambda h: S(h, "a") is not None)
    op('b = a.next;', lambda h: h.set("b", h.obj[S(h, "a")]), lambda h: S(h, "a") is not None)
    op('a.next = a.next.next;', lambda h: h.setnext(S(h, "a"), h.obj[h.obj[S(h, "a")]]), lambda h: S(h, "a") is not None and h.obj[S(h, "a")] is not None)
    op('mk("%1");', lambda h: h.temp(h.new()))
    op('a = mk("%1");', lambda h: h.set("a", h.new()))
    op('a = ident(b);', lambda h: h.set("a", S(h, "b")))
    op('ident(a);', lambda h: None)
    op('b = ident(mk("%1"));', lambda h: h.set("b", h.new()))
    op('use(a);', lambda h: h.out.append("u%d" % S(h, "a")), lambda h: S(h, "a") is not None)

    def usenew(h):
        o = h.new()
        h.out.append("u%d" % o)
        h.temp(o)
    op('use(new N("%1"));', usenew)
    op('use(mk("%1"));', usenew)
    op('over(a, "%1");', usenew)

    def printname(h):
        o = h.new()
        h.out.append("p%d" % o)
        h.temp(o)
    op('print("p" + mk("%1").name());', printname)
    op('a.set(b);', lambda h: h.setnext(S(h, "a"), S(h, "b")), lambda h: S(h, "a") is not None)
    op('a.set(new N("%1"));', lambda h: h.setnext(S(h, "a"), h.new()), lambda h: S(h, "a") is not None)
    op('b = a.get();', lambda h: h.set("b", h.obj[S(h, "a")]), lambda h: S(h, "a") is not None)
    op('b = a.self();', lambda h: h.set("b", S(h, "a")), lambda h: S(h, "a") is not None)
    op('b = a.self().self();', lambda h: h.set("b", S(h, "a")), lambda h: S(h, "a") is not None)

    def alias_scope(h):
        o = S(h, "a")
        h.inc(o)
        h.set("a", None)
        h.out.append("s")
        h.dec(o)
    op('{ N c = a; a = N null; print("s"); }', alias_scope)

    def local_scope(h):
        o = h.new()
        h.inc(o)
        h.setnext(o, S(h, "a"))
        h.out.append("s")
        h.dec(o)
    op('{ N c = new N("%1"); c.next = a; print("s"); }', local_scope)

    def escape(h):
        o = h.new()
        h.inc(o)
        h.set("b", o)
        h.out.append("s")
        h.dec(o)
    op('{ N c = new N("%1"); b = c; print("s"); }', escape)

    def thrown(h):
        o = h.new()
        h.inc(o)
        h.out.append("u%d" % o)
        h.dec(o)
        h.out.append("c")
    op('try { N c = new N("%1"); take(c); print("never"); } catch { print("c"); }', thrown)
    op('try { take(new N("%1")); print("never"); } catch { print("c"); }', thrown)

    def tern(h, first):
        h.set("a", S(h, "b") if first else h.new())
    op('a = b ? b : mk("%1");', lambda h: h.set("a", S(h, "b") if S(h, "b") is not None else h.new()))
    op('a = pick(a, b, false);', lambda h: h.set("a", S(h, "b")))
    op('b = pick(mk("%1"), mk("%2"), true);', lambda h: _pick(h, "b"))
    op('if ( mk("%1") != a ) { print("ne"); }', lambda h: (h.temp(h.new()), h.out.append("ne")))

    def loop(h):
        for i in range(2):
            o = h.new()
            h.inc(o)
            h.set("b", o)
            h.out.append("s")
            h.dec(o)
    op('for ( int i = 0; i < 2; i++ ) { N c = new N(i ? "%2" : "%1"); b = c; print("s"); }', loop)

    def loopb(h):
        o = h.new()
        h.inc(o)
        h.out.append("s")
        h.dec(o)
    op('while ( true ) { N c = new N("%1"); print("s"); if ( c ) { break; } }', loopb)
    op('gN = a;', lambda h: h.set("g", S(h, "a")))
    op('b = gN;', lambda h: h.set("b", S(h, "g")))
    op('gN = new N("%1");', lambda h: h.set("g", h.new()))
    op('gN = N null;', lambda h: h.set("g", None))

    def init(h):
        o = h.new()
        h.inc(o)
        h.set("hb", o)
        h.set("ha", o)
        h.dec(o)
    op('h.init("%1");', init)
    op('h.put(a);', lambda h: h.set("hb", S(h, "a")))
    op('h.a = b;', lambda h: h.set("ha", S(h, "b")))
    op('h.drop();', lambda h: h.set("hb", None))
    op('a = h.give();', lambda h: h.set("a", S(h, "hb")))
    op('a = h.a;', lambda h: h.set("a", S(h, "ha")))
    op('h.put(mk("%1"));', lambda h: h.set("hb", h.new()))
    return L


def _pick(h, s):
    p = h.new()
    q = h.new()
    h.inc(p)
    h.inc(q)
    h.set(s, p)
    h.dec(p)
    h.dec(q)


OPS = ops()


def seq_case(seq):
    h = Heap()
    src = ['N a; N b; Holder h = new Holder(); gN = N null;']
    exp = []
    states = {h.key()}
    for j, i in enumerate(seq):
        s, guard, eff = OPS[i]
        if not guard(h):
            return None
        s = s.replace("%1", str(h.fresh + 1)).replace("%2", str(h.fresh + 2))
        h.out = []
        eff(h)
        states.add(h.key())
        src.append('print("P%d"); %s' % (j, s))
        exp += ["P%d" % j] + h.out
    src.append('print("E"); gN = N null; print("F");')
    h.out = []
    h.set("g", None)
    exp += ["E"] + h.out + ["F"]
    h.out = []
    for s in ("a", "b", "ha", "hb"):
        h.set(s, None)
    exp += h.out + ["R"]
    return H.Case("ops:" + ".".join(map(str, seq)), "private void case$$() modify throws { " + " ".join(src) + " }",
                  [("case$$(); print(\"R\");", exp)], states=len(states), trans=len(seq) + 2)


def norm(text):
    """Within one step the destructors may run at any point after the last use of the object."""
    out, dead, live = [], [], []
    bad = False

    def flush():
        nonlocal dead, live
        out.extend(live + sorted(dead))
        dead, live = [], []
    for l in text.split("\n"):
        if l[:1] in "#PEFRsc=":
            flush()
            out.append(l)
        elif l.startswith("-"):
            dead.append(l)
        else:
            if l[:1] == "u" and ("-" + l[1:]) in dead:
                bad = True
            live.append(l)
    flush()
    return "\n".join(out) + ("\nUSED AFTER DESTRUCTION" if bad else "")


def graph_seqs(depth):
    """Shortest operation sequence into every reachable heap shape, extended by every operation."""
    start = Heap()
    seen = {start.key()}
    frontier = [((), start)]
    for d in range(depth):
        nxt = []
        for seq, h in frontier:
            for i, (s, guard, eff) in enumerate(OPS):
                if not guard(h):
                    continue
                h2 = h.clone()
                eff(h2)
                k = h2.key()
                yield seq + (i,)
                if k not in seen:
                    seen.add(k)
                    nxt.append((seq + (i,), h2))
        frontier = nxt


def stmt_case(block, style, bits):
    p = stmt.Prog(block, style)
    traces, skipped = stmt.explore(p, bits, exobj=True)
    calls, st, tr = [], set(), 0
    for b, r, sig in traces:
        un = isinstance(sig, tuple) and sig[0] == 'T'
        exp = r.out + [c02.outcome(sig)]
        if un and sig[1] in 'ABC':
            exp.append('-%s%d' % (sig[1], sig[2]))
        calls.append((c02.CALL % b, exp))
        st |= r.states
        tr += r.steps
    if not calls:
        return None
    return H.Case("s%d:%s" % (style, c02.name(block)), p.decls(), calls, states=len(st), trans=tr)


def expand(shard, ns):
    i = 0
    for n, g in SPACES:
        for b in g.blocks(n, (False, False)):
            if 'ob' not in repr(b) and 'th' not in repr(b):
                continue
            i += 1
            if i % ns == shard:
                c = stmt_case(b, 0, BITS)
                if c:
                    yield c


def expand2(shard, ns):
    i = 0
    for n in range(1, SEQ + 1):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            i += 1
            if i % ns == shard:
                c = seq_case(seq)
                if c:
                    yield c
    for seq in graph_seqs(DEPTH):
        if len(seq) > SEQ:
            i += 1
            if i % ns == shard:
                yield seq_case(seq)


# --- ownership through class hierarchies -----------------------------------------------------------------------------
# every level of a hierarchy of depth 1..LEVELS owns up to two parts, or shares one with a variable outside of the owner

LEVEL = ("", "p", "s", "pp", "ps")
ROUTES = {
    "scope": ("{ %(T)s o = new %(N)s(k); print(\"in\"); }", ["in", "-"]),
    "overwrite": ("%(T)s o = new %(N)s(k); o = %(T)s null; print(\"after\");", ["-", "after"]),
    "return": ("mk%(N)s(k); print(\"after\");", ["-", "after"]),
    "throw": ("try { %(T)s o = new %(N)s(k); throw \"x\"; } catch ( string e ) { print(\"caught\"); }", ["-", "caught"]),
    "member": ("{ Box%(N)s b = new Box%(N)s(); b.put(k); print(\"in\"); }", ["in", "-"]),
    "alias": ("%(T)s p; { %(T)s o = new %(N)s(k); p = o; } print(\"in\"); p = %(T)s null; print(\"after\");", ["in", "-", "after"]),
    "global": ("gv = new %(N)s(k); print(\"in\"); gv = %(R)s null; print(\"after\");", ["in", "-", "after"]),
    "element": ("{ Pair<%(T)s> o = new Pair<%(T)s>(); o.put(new %(N)s(k)); print(\"in\"); }", ["in", "-"]),
}


def own_case(levels, route, typed, tail):
    ext = ""
    decls, parts = [], []
    for i, l in enumerate(levels):
        cls = "L%d$$" % i
        members, init = [], []
        for j, m in enumerate(l):
            members.append("protected N m%d%d;" % (i, j))
            if m == "p":
                init.append('m%d%d = new N("%d%d");' % (i, j, i, j))
                parts.append("%d%d" % (i, j))
            else:
                init.append("m%d%d = k;" % (i, j))
        if i:
            init.insert(0, "base.Constructor(k);")
        decls.append("public object %s%s { %s public void Constructor(N k) { %s } }" % (cls, ext, " ".join(members), " ".join(init)))
        ext = " extends " + cls
    name = "L%d$$" % (len(levels) - 1)
    root = "L%d$$" % typed
    d = {"T": root, "N": name, "R": root}
    code, trace = ROUTES[route]
    if route == "return":
        decls.append("public void mk%s(N k) { %s o = new %s(k); print(\"made\"); }" % (name, root, name))
        trace = ["made"] + trace
    if route == "member":
        decls.append("public object Box%s { public void Constructor() { } private %s o; public void put(N k) modify { o = new %s(k); } }" % (name, root, name))
    code = code % d
    if route == "global":
        decls.append("private %s gv$$;" % root)
        code = code.replace("gv", "gv$$")
    decls.append("public void own$$() modify throws { N k = new N(\"k\"); %s %s print(\"end\"); }" % (code, "k = N null;" if tail else ""))
    exp = ["+k"] + ["+" + x for x in parts]
    for t in trace:
        exp += ["-" + x for x in parts] if t == "-" else [t]
    exp += ["-k", "end"] if tail else ["end", "-k"]
    return H.Case("own:%s:%s:%d:%d" % (",".join(levels), route, typed, tail), "\n".join(decls), [("own$$();", exp)],
                  states=len(parts) + 2, trans=len(exp))


def expand3(shard, ns):
    i = 0
    for n in range(1, LEVELS + 1):
        for levels in itertools.product(LEVEL if n < 4 else LEVEL[:3], repeat=n):
            for route in ROUTES:
                for typed in range(n):
                    if typed < n - (1 if route in ("member", "global", "element") else 2):
                        continue  # only declarations accept an object of another type, and only of a directly derived one
                    for tail in (0, 1):
                        i += 1
                        if i % ns == shard:
                            yield own_case(levels, route, typed, tail)


def main():
    global LEVELS
    global SPACES, BITS, SEQ, DEPTH
    c = H.Check("C03", assumptions=["the order of destructors within one statement or one scope exit is not compared",
                                    "objects on unreachable cycles are only required not to be destroyed early"])
    H.build(("slang",))
    k1 = ('if', 'wh', 'for', 'fe', 'sw', 'br', 'co', 're', 'fn', 'bl', 'ob', 'th', 'try', 'rt')
    k2 = ('if', 'wh', 'br', 're', 'fn', 'ob', 'th', 'try')
    ca = (('A',), ('*', 'f'), ('B', 'f'), ())
    g1 = stmt.Grammar(k1, types=('A', 'B'), catches=ca)
    g2 = stmt.Grammar(k1, types=('A',), catches=(('A',), ('B', 'f')))
    if c.thorough:
        BITS, SEQ, DEPTH, LEVELS = 4, 3, 9, 4
        SPACES = [(1, g1), (2, g1), (3, g1), (4, g2)]
    else:
        BITS, SEQ, DEPTH, LEVELS = 3, 2, 7, 3
        SPACES = [(1, g1), (2, g1), (3, g2)]
    for n, g in SPACES:
        g.blocks(n, (False, False))
    c.bounds = {"scope exits: programs by size": [(n, len(g.blocks(n, (False, False)))) for n, g in SPACES], "decision bits": BITS,
                "heap operations": len(OPS), "all operation sequences up to": SEQ, "all transitions of heap shapes reachable within": DEPTH,
                "levels of class hierarchies owning objects": LEVELS}
    c.run_cases(expand, prelude=PRE, norm=stmt.norm_runs)
    if not c.violations:
        c.run_cases(expand2, prelude=PRE, norm=norm)
    if not c.violations:
        c.run_cases(expand3, prelude=PRE, norm=norm)
    c.finish()


if __name__ == "__main__":
    H.main(main)

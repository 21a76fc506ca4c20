"""C26: references alias, atomic values copy, identity is exact, null is diagnosed."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''public object N { public int v; public N next; public void Constructor() { v = 1; }
 public void set(int i) modify { v = i; } public int get() const { return v; } public void link(N p) modify { next = p; } public N follow() const { return next; } }
public object W { public N n; public W w; public N take() const { return n; } public void put(N p) modify { n = p; } }
public N ident(N p) { return p; }
public void setv(N p, int i) { p.v = i; }
public void relink(N p, N q) { p.next = q; }
public void lose(N p) { p = new N(); p.v = 9; }
public void drop(N p) { p = N null; }
public N gA; public N gB;
public string o1(N p) { if ( p == N null ) { return "-"; } return (string p.v); }
public string bit(bool b) { if ( b ) { return "1"; } return "0"; }
public string nx(N p) { if ( p == N null ) { return "!"; } if ( p.next == N null ) { return "-"; } return o1(p.next) + o1(p.next.next); }
public string nsame(N p, N q) { string r = bit(p == q) + bit(p != q); if ( q != N null ) { r += bit(p == q.next); if ( q.next != N null ) { r += bit(p == q.next.next); } } return r; }
public void obs(N a, N b, N c) { print(o1(a) + o1(b) + o1(c) + "|" + nx(a) + nx(b) + nx(c) + "|" + nsame(a, b) + "." + nsame(b, a) + "." + nsame(a, c) + "." + nsame(c, a) + "." + nsame(b, c) + "." + nsame(c, b) + "." + nsame(a, a)); }
'''

# slots: two locals and one member of another object; the state is (slot -> node or None, node -> (value, next))
FORMS = {
    "local": ("N a; N b; W w = new W(); ", ("a", "b", "w.n")),
    "deep": ("W u = new W(); W w = new W(); u.w = new W(); N b; ", ("u.w.n", "b", "w.n")),
    "global": ("gA = N null; gB = N null; W w = new W(); ", ("gA", "w.n", "gB")),
}


def canon(slots, heap):
    """reachable part, renamed in order of discovery"""
    order = {}
    todo = []

    def name(n):
        if n is None:
            return None
        if n not in order:
            order[n] = len(order)
            todo.append(n)
        return order[n]
    s = tuple(name(x) for x in slots)
    i = 0
    while i < len(todo):
        name(heap[todo[i]][1])
        i += 1
    h = tuple((heap[n][0], order.get(heap[n][1]) if heap[n][1] is not None else None) for n in todo)
    return s, h


class Null(Exception):
    pass


def ops(nslots):
    R = range(nslots)
    for x in R:
        yield ("new", x)
        yield ("null", x)
        for val in (1, 2):
            yield ("wr", x, val)
            yield ("set", x, val)
        yield ("setv", x, 2)
        yield ("nwr", x, 2)
        yield ("nset", x, 2)
        yield ("lnull", x)
        yield ("lose", x)
        yield ("drop", x)
        yield ("lnew", x)
        for y in R:
            yield ("asg", x, y)
            yield ("ident", x, y)
            yield ("nextof", x, y)
            yield ("follow", x, y)
            yield ("link", x, y)
            yield ("mlink", x, y)
            yield ("flink", x, y)
        yield ("local", x, (x + 1) % nslots)
        yield ("swap", x, (x + 1) % nslots)
        yield ("rd", x)
        yield ("rdn", x)


def step(st, op, limit):
    """-> (new state, extra output lines); Null when the program must stop, None when outside the bounds"""
    slots, heap = list(st[0]), {i: list(h) for i, h in enumerate(st[1])}
    k, x = op[0], op[1]
    out = []

    def fresh():
        n = max(heap, default=-1) + 1
        heap[n] = [1, None]
        return n
    if k == "new":
        slots[x] = fresh()
    elif k == "null":
        slots[x] = None
    elif k in ("wr", "set", "setv"):
        if slots[x] is None:
            raise Null()
        heap[slots[x]][0] = op[2]
    elif k in ("nwr", "nset"):
        if slots[x] is None or heap[slots[x]][1] is None:
            raise Null()
        heap[heap[slots[x]][1]][0] = op[2]
    elif k in ("lnull", "lnew"):
        if slots[x] is None:
            raise Null()
        heap[slots[x]][1] = None if k == "lnull" else fresh()
    elif k in ("lose", "drop"):
        pass
    elif k in ("asg", "ident"):
        slots[x] = slots[op[2]]
    elif k in ("nextof", "follow"):
        if slots[op[2]] is None:
            raise Null()
        slots[x] = heap[slots[op[2]]][1]
    elif k in ("link", "mlink", "flink"):
        if slots[x] is None:
            raise Null()
        heap[slots[x]][1] = slots[op[2]]
    elif k == "local":      # a local alias changes the object
        if slots[x] is None:
            raise Null()
        heap[slots[x]][0] = 2
    elif k == "swap":
        slots[x], slots[op[2]] = slots[op[2]], slots[x]
    elif k == "rd":
        out.append("npe" if slots[x] is None else str(heap[slots[x]][0]))
    elif k == "rdn":
        out.append("npe" if slots[x] is None or heap[slots[x]][1] is None else str(heap[heap[slots[x]][1]][0]))
    s = canon(slots, heap)
    if len(s[1]) > limit:
        return None
    return s, out


def text(op, S):
    k, x = op[0], S[op[1]]
    y = S[op[2]] if len(op) > 2 and isinstance(op[2], int) and k in ("asg", "ident", "nextof", "follow", "link", "mlink", "flink", "swap") else None
    v = op[2] if len(op) > 2 else None
    return {
        "new": lambda: "%s = new N();" % x,
        "null": lambda: "%s = N null;" % x,
        "wr": lambda: "%s.v = %d;" % (x, v),
        "set": lambda: "%s.set(%d);" % (x, v),
        "setv": lambda: "setv(%s, %d);" % (x, v),
        "nwr": lambda: "%s.next.v = %d;" % (x, v),
        "nset": lambda: "%s.next.set(%d);" % (x, v),
        "lnull": lambda: "%s.next = N null;" % x,
        "lnew": lambda: "%s.next = new N();" % x,
        "lose": lambda: "lose(%s);" % x,
        "drop": lambda: "drop(%s);" % x,
        "asg": lambda: "%s = %s;" % (x, y),
        "ident": lambda: "%s = ident(%s);" % (x, y),
        "nextof": lambda: "%s = %s.next;" % (x, y),
        "follow": lambda: "%s = %s.follow();" % (x, y),
        "link": lambda: "%s.next = %s;" % (x, y),
        "mlink": lambda: "%s.link(%s);" % (x, y),
        "flink": lambda: "relink(%s, %s);" % (x, y),
        "local": lambda: "{ N l = %s; l.v = 2; }" % x,
        "swap": lambda: "{ N t = %s; %s = %s; %s = t; }" % (x, x, y, y),
        "rd": lambda: 'try { print(%s.v); } catch { print("npe"); }' % x,
        "rdn": lambda: 'try { print(%s.next.get()); } catch { print("npe"); }' % x,
    }[k]()


def observe(st):
    s, h = st
    a, b, c = s

    def o1(p):
        return "-" if p is None else str(h[p][0])

    def nxt(p):
        return h[p][1]

    def nx(p):
        if p is None:
            return "!"
        n = nxt(p)
        return o1(n) + ("" if n is None else o1(nxt(n)))

    def ns(p, q):
        r = "%d%d" % (p == q, p != q)
        if q is not None:
            r += "%d" % (p == nxt(q))
            if nxt(q) is not None:
                r += "%d" % (p == nxt(nxt(q)))
        return r
    return o1(a) + o1(b) + o1(c) + "|" + nx(a) + nx(b) + nx(c) + "|" + ".".join(ns(p, q) for p, q in ((a, b), (b, a), (a, c), (c, a), (b, c), (c, b), (a, a)))


def explore(limit):
    """all states within the node limit with a shortest path each"""
    init = ((None, None, None), ())
    paths = {init: ()}
    frontier = [init]
    allops = list(ops(3))
    while frontier:
        nf = []
        for s in frontier:
            for op in allops:
                try:
                    r = step(s, op, limit)
                except Null:
                    continue
                if r is None or r[0] in paths:
                    continue
                paths[r[0]] = paths[s] + (op,)
                nf.append(r[0])
        frontier = nf
    return paths, allops


def expand_heap(shard, ns):
    n = 0
    for s, path in PATHS.items():
        n += 1
        if (n // 4) % ns != shard:
            continue
        for form in FORMS if not BIG else ("local",):
            pre, S = FORMS[form]
            prefix = pre + " ".join(text(o, S) for o in path)
            decl, calls = [], []
            k = 0
            for op in ALLOPS:
                try:
                    r = step(s, op, LIMIT)
                except Null:
                    continue
                if r is None:
                    continue
                ns_, out = r
                decl.append("public void f$$_%d() modify throws { %s %s obs(%s); }" % (k, prefix, text(op, S), ", ".join(S)))
                # outputs printed by the path itself: none, reading operations never lead to a new state
                calls.append(("f$$_%d();" % k, out + [observe(ns_)]))
                k += 1
            yield H.Case("heap:%s:%s" % (form, "".join("%s%s" % (o[0], o[1:]) for o in path)), "\n".join(decl), calls, states=1 if form == "local" else 0, trans=len(calls))


def expand_null(shard, ns):
    """operations on a null reference end the program with a diagnosis and change nothing"""
    n = 0
    for s, path in PATHS.items():
        if len(s[1]) > 1 and QUICK:
            continue
        if len(s[1]) > 2:
            continue
        for op in ALLOPS:
            try:
                step(s, op, LIMIT)
                continue
            except Null:
                pass
            n += 1
            if n % ns != shard:
                continue
            pre, S = FORMS["local"]
            code = pre + " ".join(text(o, S) for o in path) + " print(\"before\"); %s print(\"after\");" % text(op, S)
            yield H.Case("null:%s:%s" % ("".join("%s%s" % (o[0], o[1:]) for o in path), op), PRE + "public void run() modify throws { %s }\n" % code, [("run();", ["before"])], kind="fail")


# --- atomic values -----------------------------------------------------------------------------------------------------

ATOM = {"int": (["1", "2", "3"], ["1", "2", "3"]), "string": (['"p"', '"q"', '"r"'], ["p", "q", "r"]), "bool": (["true", "false"], ["1", "0"]),
        "float": (["1.5f", "2.5f"], ["1.5", "2.5"]), "double": (["1.25d", "2.25d"], ["1.25", "2.25"]), "int64": (["int64 5", "int64 6"], ["5", "6"]),
        "int16": (["int16 5", "int16 6"], ["5", "6"]), "E": (["E.x", "E.y"], ["1", "5"])}


def expand_atom(shard, ns):
    """every sequence of assignments between two variables, a member and a member of a shared object"""
    n = 0
    for ty, (lits, txts) in ATOM.items():
        slots = ["x", "y", "h.m", "g.h.m"]      # h and g.h are the same object
        loc = [0, 1, 2, 2]
        aops = [("c", i, j) for i in range(4) for j in range(len(lits))] + [("a", i, j) for i in range(4) for j in range(4) if i != j] + [("p", i, j) for i in (0, 2) for j in (1, 3)]
        depth = 3 if not QUICK else 2
        for seq in itertools.product(aops, repeat=depth):
            n += 1
            if (n // 50) % ns != shard:
                continue
            vals = [0, 0, 0]
            code = []
            for k, i, j in seq:
                if k == "c":
                    code.append("%s = %s;" % (slots[i], lits[j]))
                    vals[loc[i]] = j
                elif k == "a":
                    code.append("%s = %s;" % (slots[i], slots[j]))
                    vals[loc[i]] = vals[loc[j]]
                else:
                    code.append("%s = pass%s(%s);" % (slots[i], ty, slots[j]))
                    vals[loc[i]] = vals[loc[j]]
            show = " ".join("print(%s);" % ("(int %s)" % s if ty == "E" else s) for s in slots)
            body = "H%s h = new H%s(); G%s g = new G%s(); g.h = h; %s x = %s; %s y = x; h.m = y; %s %s" % (ty, ty, ty, ty, ty, lits[0], ty, " ".join(code), show)
            yield H.Case("atom:%s:%s" % (ty, seq), "public void f$$() modify throws { %s }" % body, [("f$$();", [txts[vals[l]] for l in loc])], states=depth, trans=depth)


def atom_pre():
    r = "public enum E { x = 1, y = 5; }\n"
    for ty, (lits, _) in ATOM.items():
        r += "public object H%s { public %s m; } public object G%s { public H%s h; } public %s pass%s(%s p) { %s r = p; p = %s; return r; }\n" % (ty, ty, ty, ty, ty, ty, ty, ty, lits[-1])
    return r


def main():
    global QUICK, PATHS, ALLOPS, LIMIT, BIG
    c = H.Check("C26", assumptions=["built-in values living on the heap (new int) are not covered", "comparison of classes with an own equality operator is covered by C24"])
    H.build(("slang",))
    QUICK = not c.thorough
    LIMIT, BIG = 2, False
    PATHS, ALLOPS = explore(LIMIT)
    c.bounds = {"references": 3, "live objects": 2 if QUICK else 3, "values": 2, "operations": len(ALLOPS), "reference kinds": {k: v[1] for k, v in FORMS.items()}, "assignment sequences of built-in values": 2 if QUICK else 3}
    c.run_cases(expand_heap, prelude=PRE, batch=400)
    if not QUICK and not c.violations:
        LIMIT, BIG = 3, True
        PATHS, ALLOPS = explore(LIMIT)
        c.run_cases(expand_heap, prelude=PRE, batch=400)
    if not c.violations:
        c.run_cases(expand_atom, prelude=atom_pre(), batch=300)
    if not c.violations:
        c.run_cases(expand_null, batch=1)
    c.extra["heap states"] = len(PATHS)
    c.finish()


if __name__ == "__main__":
    H.main(main)

"""C28: programs made of several files and namespaces."""
import sys, os, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

FULL = False
MAIN = "public int Main(int argc, string args) modify throws { %s return 0; }\n"


def play(name, files, main, want, states, trans, opts=()):
    """want: list of lines for a program that works, None for one that has to be refused"""
    root = os.path.join(H.scratch(), "p")
    shutil.rmtree(root, ignore_errors=True)
    for f, text in files.items():
        path = os.path.join(root, f)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as o:
            o.write(text)
    r = H.run([H.exe("slang")] + list(opts) + [os.path.join(root, main)], timeout=20, cwd=root)
    bad = None
    if r.timeout:
        bad = "does not end"
    elif r.rc < 0:
        bad = "killed by signal %d" % -r.rc
    elif want is None:
        if r.rc == 0 or not r.err.strip():
            bad = "not refused with a diagnostic (status %d)" % r.rc
        elif r.out.strip() and not r.out.startswith("Stack"):
            bad = "printed something before being refused"
    elif r.rc != 0:
        bad = "status %d: %s" % (r.rc, (r.err.strip().split("\n") or [""])[0])
    elif r.out.split("\n")[:-1] != want:
        bad = "output differs from the model"
    sample = "%s -> %s" % (name, "refused" if want is None else want)
    if bad:
        ff = dict(("src_" + k.replace("/", "_"), v) for k, v in files.items())
        ff["expected.txt"] = "refused\n" if want is None else "\n".join(want) + "\n"
        ff["actual.txt"] = r.out + "\n--- stderr\n" + r.err + "\n--- status %s\n" % r.rc
        return name, states, trans, (bad, ff), sample
    return name, states, trans, None, sample


# --- import graphs -----------------------------------------------------------

NUM = {"a": 1, "b": 2, "c": 3}


def subsets(xs):
    return [s for k in range(len(xs) + 1) for s in itertools.combinations(xs, k)]


def reach(g):
    seen, todo = {"m"}, ["m"]
    while todo:
        for y in g.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def imports(targets, style):
    order = sorted(targets, reverse=style == "down")
    if style == "twice":
        order = order + order
    return "".join("import %s;\n" % t for t in order)


def lib_file(x, g, style):
    """file x: a global, functions, an object and a namespace; everything it imports is used"""
    n = NUM[x]
    use = [y for y in g[x] if y in NUM]
    return imports(g[x], style) + (
        "public int g%(x)s = %(n)d0;\npublic int f%(x)s() { return g%(x)s; }\npublic int h%(x)s() { return f%(x)s()%(sum)s; }\n"
        "public object O%(x)s { public int m() const { return h%(x)s() + N.v%(x)s; } }\n"
        "public namespace N { public int v%(x)s = %(n)d; public int w%(x)s() { return v%(x)s + f%(x)s(); } }\n"
        % {"x": x, "n": n, "sum": "".join(" + f%s()" % y for y in use)})


def graph_expect(g, r):
    f = {x: NUM[x] * 10 for x in NUM}

    def h(x):
        return f[x] + sum(f[y] for y in g[x] if y in NUM)
    out, code = [], ""
    for step in (0, 1):
        for x in sorted(r - {"m"}):
            code += "print(h%s()); O%s o%s%d = new O%s(); print(o%s%d.m()); print(N.w%s()); " % (x, x, x, step, x, x, step, x)
            out += [str(h(x)), str(h(x) + NUM[x]), str(NUM[x] + f[x])]
        if not step:
            for x in sorted(r - {"m"}):
                code += "g%s = g%s + 5; " % (x, x)
                f[x] += 5
    return code + 'print("end"); ', out + ["end"]


def graphs():
    """all import graphs; in the quick tier over two library files, and over three without self and main edges"""
    if FULL:
        xs = ("a", "b", "c", "m")
        for t in itertools.product(subsets(xs), repeat=4):
            yield dict(zip(("m", "a", "b", "c"), t))
        return
    for t in itertools.product(subsets(("a", "b", "m")), repeat=3):
        yield dict(zip(("m", "a", "b"), t), c=())
    for m, a, b, c in itertools.product(subsets("abc"), subsets("bc"), subsets("ac"), subsets("ab")):
        yield {"m": m, "a": a, "b": b, "c": c}


def do_graphs(shard, ns):
    for i, g in enumerate(graphs()):
        if i % ns != shard:
            continue
        r = reach(g)
        st, tr = len(r), sum(len(g[x]) for x in r)
        code, want = graph_expect(g, r)
        gname = " ".join("%s>%s" % (x, "".join(g[x])) for x in "mabc")
        for style in ("up", "down", "twice"):
            files = {x + ".os": lib_file(x, g, style) for x in NUM}
            files["m.os"] = imports(g["m"], style) + MAIN % code
            yield play("graph %s %s" % (gname, style), files, "m.os", want, st, tr)
        files = {x + ".os": lib_file(x, g, "up") for x in NUM}
        for x in sorted(set(NUM) - r):
            # names of files that are not imported must not be known
            yield play("unreachable %s %s" % (x, gname), dict(files, **{"m.os": imports(g["m"], "up") + MAIN % (code + "print(f%s());" % x)}), "m.os", None, st, tr)
        for x in NUM:
            # a missing file is an error exactly if it is needed
            ff = {k: v for k, v in files.items() if k != x + ".os"}
            ff["m.os"] = imports(g["m"], "up") + MAIN % code
            yield play("missing %s %s" % (x, gname), ff, "m.os", None if x in r else want, st, tr)


# --- where files are looked for ----------------------------------------------

def do_paths(shard, ns):
    """a file of the same name in several folders: the one next to the importing file wins, then the library"""
    k = 0
    places = ("", "sub/", "lib/", "lib/sub/")
    for have in subsets(places):
        for who in ("m", "sub/d", "lib/d", "lib/sub/d"):
            for first in (False, True):
                for ext in (".os", ".slang"):
                    k += 1
                    if k % ns != shard:
                        continue
                    here = "" if who == "m" else who[:-1]
                    files = {p + "q" + ext: "public int where() { return %d; }\n" % (places.index(p) + 1) for p in have}
                    # a second import from the library comes first or last and must not change anything
                    files["lib/z.os"] = "public int z() { return 9; }\n"
                    lead = ("import z;\n", "") if first else ("", "import z;\n")
                    body = "print(where()); print(z()); "
                    if who == "m":
                        files["m.os"] = lead[0] + "import q;\n" + lead[1] + MAIN % body
                    else:
                        files[who + ".os"] = "import q;\npublic int d() { return where(); }\n"
                        mod = {"sub/d": "sub.d", "lib/d": "d", "lib/sub/d": "sub.d"}[who]
                        files["m.os"] = lead[0] + "import %s;\n" % mod + lead[1] + MAIN % ("print(d()); " + body)
                    cand = [here] + [p for p in ("", "lib/") if p != here]
                    hit = [p for p in cand if p in have]
                    if not hit and (here != "lib/" or "sub/" not in have):
                        # folders of other imported files are searched too: only a folder nobody has seen is surely not
                        want = None
                    elif hit and hit[0] == here:
                        v = str(places.index(here) + 1)
                        want = ([v] if who != "m" else []) + [v, "9"]
                    else:
                        continue
                    yield play("path %s in %s first=%s%s" % (who, ",".join(have), first, ext), files, "m.os", want, len(have) + 2, 2,
                               opts=("-l", os.path.join(H.scratch(), "p", "lib")))


# --- one program cut into files ----------------------------------------------

DECLS = [
    "public interface I { public int val1() const; }\n",
    "public object B implements I { protected int mV; public void Constructor(int v) { mV = v; } public int val1() const { return mV; } public int twice() const { return val1() * 2; } }\n",
    "public object C extends B { public void Constructor(int v) { base.Constructor(v + 1); } public int val1() const { return mV + gBase; } }\n",
    "public enum E { one = 1, two; }\npublic int gBase = 100;\n",
    "public object P<T> { private T mT; public void Constructor(T t) { mT = t; } public T get() const { return mT; } }\n",
    "public int use(I i) { return i.val1() + int E.two; }\npublic int box(int v) { P<int> p = new P<int>(v); return p.get() + N.f(); }\n",
    "public namespace N { public int k = 7; public int f() { return k + gBase; } public object Q { public int m() const { return f(); } } }\n",
    "public namespace N { public int g() { return f() + k; } public object R extends N.Q { public int r() const { return m() + g(); } } }\n",
]
BODY = ('B b = new B(3); C c = new C(4); print(b.val1()); print(c.val1()); print(c.twice()); print(use(I b)); print(box(5)); '
        'N.R r = new N.R(); print(r.r()); gBase = 200; print(c.val1()); N.k = 1; print(r.r()); E e = E.one; print(int e); print("end"); ')
WANT = ["3", "105", "10", "5", "112", "221", "205", "403", "1", "end"]
SHAPES = {"chain": {"m": "a", "a": "b", "b": ""}, "star": {"m": "ab", "a": "", "b": ""}, "cycle": {"m": "b", "a": "mb", "b": "am"}}


def do_splits(shard, ns):
    k = 0
    n = len(DECLS)
    groups = list(range(n)) if FULL else [0, 1, 2, 5, 6, 7]
    for where in itertools.product("mab", repeat=len(groups)):
        for shape, g in SHAPES.items():
            k += 1
            if k % ns != shard:
                continue
            at = dict(zip(groups, where))
            files = {}
            for x in "mab":
                text = "".join("import %s;\n" % t for t in g[x]) + "".join(DECLS[i] for i in range(n) if at.get(i, "m") == x)
                files[x + ".os"] = text + (MAIN % BODY if x == "m" else "")
            yield play("split %s %s" % ("".join(where), shape), files, "m.os", WANT, n, sum(map(len, g.values())))


# --- names in namespaces -----------------------------------------------------

SCOPES = ["", "X", "Y", "X.Z"]
USES = {"f": "%s()", "v": "%s", "P": "probe"}


def encl(s):
    """enclosing scopes, innermost first"""
    parts = s.split(".") if s else []
    return [".".join(parts[:i]) for i in range(len(parts), -1, -1)]


def lookup(ref, scope, defs):
    """scope whose definition a reference means, None if there is none"""
    parts = ref.split(".")
    if len(parts) == 1:
        for e in encl(scope):
            if e in defs:
                return e
        return None
    head, rest = parts[0], parts[1:-1]
    for e in encl(scope):
        cand = (e + "." if e else "") + head
        if cand in SCOPES:
            full = ".".join([cand] + rest)
            return full if full in defs else None
    return None


def wrap(scope, text):
    for p in reversed(scope.split(".") if scope else []):
        text = "public namespace %s { %s }" % (p, text)
    return text + "\n"


def definition(kind, scope, i):
    n = 10 * (i + 1)
    return {"f": "public int f() { return %d; }" % n, "v": "public int v = %d;" % n,
            "P": "public object P { public int m() const { return %d; } }" % n}[kind]


def use(kind, ref, style):
    e = {"f": "return %s();" % ref, "v": "return %s;" % ref, "P": "%s p = new %s(); return p.m();" % (ref, ref)}[kind]
    if style == "fn":
        return "public int u() { %s }" % e
    return "public object U { public int u() const { %s } }" % e


def do_names(shard, ns):
    k = 0
    for kind in "fvP":
        for defs in subsets(SCOPES):
            for scope in SCOPES:
                for pre in ("", "X.", "Y.", "X.Z.", "Z."):
                    for style in ("fn", "method"):
                        for layout in ("nested", "blocks", "files"):
                            k += 1
                            if k % ns != shard:
                                continue
                            ref = pre + kind
                            hit = lookup(ref, scope, set(defs))
                            if pre and kind == "P" and layout == "files" and pre == "Z.":
                                continue
                            if not pre and kind == "P" and layout == "files":
                                continue  # an importing file is read before the imported one: such types have to be qualified
                            d = {s: definition(kind, s, i) if s in defs else "" for i, s in enumerate(SCOPES)}
                            u = {s: use(kind, ref, style) if s == scope else "" for s in SCOPES}
                            q = (scope + "." if scope else "")
                            code = "print(%su()); " % q if style == "fn" else "%sU o = new %sU(); print(o.u()); " % (q, q)
                            if layout == "nested":
                                text = "%s\npublic namespace X { %s public namespace Z { %s %s } %s }\npublic namespace Y { %s %s }\n%s\n" % (
                                    d[""], d["X"], d["X.Z"], u["X.Z"], u["X"], d["Y"], u["Y"], u[""])
                                files = {"m.os": text + MAIN % code}
                            else:
                                dd = "".join(wrap(s, d[s]) for s in SCOPES)
                                uu = "".join(wrap(s, u[s]) for s in SCOPES if u[s])
                                files = {"m.os": dd + uu + MAIN % code} if layout == "blocks" else {"a.os": dd, "m.os": "import a;\n" + uu + MAIN % code}
                            want = None if hit is None else [str(10 * (SCOPES.index(hit) + 1))]
                            yield play("name %s in '%s' defined in %s %s %s" % (ref, scope, ",".join(x or "global" for x in defs), style, layout), files, "m.os", want, len(defs) + 1, 1)


def main():
    global FULL
    c = H.Check("C28", assumptions=["types of the own namespace that are declared later or in an imported file are used by their qualified names",
                                    "namespaces are public"])
    H.build(("slang",))
    FULL = c.thorough
    c.bounds = {"library files in import graphs": 3, "self imports and imports of the main file": "all" if FULL else "with two library files",
                "declarations distributed over three files": 8 if FULL else 6, "namespaces": 4}
    for f in (do_names, do_paths, do_splits, do_graphs):
        if not c.violations:
            c.run_judged(f)
    c.finish()


if __name__ == "__main__":
    H.main(main)

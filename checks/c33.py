"""C33: console, environment and reflection services.

Models: two output streams and a current one for line ends; an input text that is consumed line by line; the environment as a map
that is inherited and changed; the set of declared types with their default values.  All sequences of operations up to a bound, all
input texts and all inherited values over small alphabets, and all type names of a program are replayed on the interpreter."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

# -- output ------------------------------------------------------------------------------------
OUT = ["cout", "cerr", "endl", "write", "writeln", "print", "putchar"]
TEXT = {"cout": "a b", "cerr": "c d", "write": "w", "writeln": "l", "print": "p"}


def spoken(seq):
    """(statements, text on standard output, text on standard error)"""
    code, out, err, mode = "", "", "", None
    for i, o in enumerate(seq):
        if o == "endl":
            code += "endl(); "
            if mode == "cout":
                out += "\n"
            else:
                err += "\n"
            continue
        if o == "putchar":
            code += "putchar(%d); " % (65 + i)
            out += chr(65 + i)
            continue
        t = "%s%d" % (TEXT[o], i)
        code += '%s("%s"); ' % (o, t)
        if o in ("cout", "cerr"):
            mode = o
        if o == "cerr":
            err += t
        else:
            out += t + ("\n" if o in ("writeln", "print") else "")
    return code, out, err


def sequences(depth):
    for d in range(1, depth + 1):
        for first in ("cout", "cerr"):
            for seq in itertools.product(OUT, repeat=d - 1):
                yield (first,) + seq


def output(depth):
    def flush(part):
        src = ""
        for i, (seq, code, _, _) in enumerate(part):
            src += 'public void f%d() modify { %swrite("#"); cerr("#"); }\n' % (i, code)
        src += "public void Main(int argc, string args) modify { %s }\n" % " ".join("f%d();" % i for i in range(len(part)))
        r = H.run_source(src)
        want = "".join(p[2] + "#" for p in part), "".join(p[3] + "#" for p in part)
        ok = r.rc == 0 and (r.out, r.err) == want
        if ok or len(part) == 1:
            bad = None if ok else ("standard output %r, expected %r; standard error %r, expected %r; status %s" % (r.out, want[0], r.err, want[1], r.rc), {"case.os": src})
            for seq, code, o, e in part:
                yield "output " + " ".join(seq), len(seq) + 1, len(seq), bad, src[:400]
        else:
            for p in part:
                yield from flush([p])

    def f(shard, n):
        part = []
        for i, seq in enumerate(sequences(depth)):
            if i % n == shard:
                part.append((seq,) + spoken(seq))
                if len(part) == 200:
                    yield from flush(part)
                    part = []
        if part:
            yield from flush(part)
    return f


# -- input -------------------------------------------------------------------------------------
def lines(text, reads):
    out = []
    for _ in range(reads):
        text = text.lstrip(" \t\n")
        line, _, text = text.partition("\n")
        out.append(line)
    return out


def reading(length, alphabet="a \n\t"):
    src = ('public void Main(int argc, string args) modify {\n for ( int i = 0; i < %d; i++ ) { string s = cin(); print("<" + s + ">" + strlen(s)); }\n}\n')

    def f(shard, n):
        i = 0
        for d in range(0, length + 1):
            for t in itertools.product(alphabet, repeat=d):
                i += 1
                if i % n != shard:
                    continue
                text = "".join("ab"[k % 2] if c == "a" else c for k, c in enumerate(t))
                want = lines(text, 4)
                prog = src % 4
                d_ = H.scratch()
                path = os.path.join(d_, "case.os")
                with open(path, "w") as fh:
                    fh.write(prog)
                r = H.run([H.exe("slang"), path], stdin=text.encode())
                exp = "".join("<%s>%d\n" % (w, len(w)) for w in want)
                bad = None
                if r.rc != 0 or r.out != exp or r.err:
                    bad = ("input %r was read as %r, expected %r; status %s, messages %r" % (text, r.out, exp, r.rc, r.err), {"case.os": prog, "input.txt": text})
                yield "input %r" % text, 5, 4, bad, text
    return f


def mixed(length, steps):
    """lines and single characters taken in turn from one input"""
    def f(shard, n):
        i = 0
        for d in range(0, length + 1):
            for t in itertools.product("a \n", repeat=d):
                text = "".join("abcdefgh"[k] if c == "a" else c for k, c in enumerate(t))
                for seq in itertools.product("lc", repeat=steps):
                    i += 1
                    if i % n != shard:
                        continue
                    left, want, code = text, "", ""
                    for k, o in enumerate(seq):
                        if o == "l":
                            code += 'string s%d = cin(); print("<" + s%d + ">"); ' % (k, k)
                            left = left.lstrip(" \t\n")
                            line, _, left = left.partition("\n")
                            want += "<%s>\n" % line
                        else:
                            code += "print(getchar()); "
                            want += "%d\n" % (ord(left[0]) if left else -1)
                            left = left[1:]
                    prog = "public void Main(int argc, string args) modify { %s }\n" % code
                    path = os.path.join(H.scratch(), "case.os")
                    with open(path, "w") as fh:
                        fh.write(prog)
                    r = H.run([H.exe("slang"), path], stdin=text.encode())
                    bad = None
                    if r.rc != 0 or r.out != want or r.err:
                        bad = ("input %r was read as %r, expected %r; status %s, messages %r" % (text, r.out, want, r.rc, r.err), {"case.os": prog, "input.txt": text})
                    yield "input %r by %s" % (text, "".join(seq)), steps + 1, steps, bad, text
    return f


# -- environment -------------------------------------------------------------------------------
PRE = '''public void env(string a, string b) modify { print("[" + getenv(a) + "][" + getenv(b) + "]"); }
'''
EOPS = [("put", "A", "x"), ("put", "A", ""), ("put", "B", "y z"), ("put", "A", "p=q"), ("set", "A", "w", 1), ("set", "A", "v", 0),
        ("set", "B", "", 1), ("set", "B", "u=t", 0), ("bad", "", 1), ("bad", "A=", 0)]


def environment(depth):
    def f(shard, n):
        i = 0
        for d in range(1, depth + 1):
            for seq in itertools.product(EOPS, repeat=d):
                i += 1
                if i % n != shard:
                    continue
                env, code, out = {}, 'env("VA$$", "VB$$"); ', ["[][]"]
                for o in seq:
                    if o[0] == "put":
                        env[o[1]] = o[2]
                        code += 'print(putenv("V%s$$=%s")); ' % (o[1], o[2])
                        out.append("0")
                    elif o[0] == "set":
                        if o[3] or o[1] not in env:
                            env[o[1]] = o[2]
                        code += 'print(setenv("V%s$$", "%s", %d)); ' % (o[1], o[2], o[3])
                        out.append("0")
                    else:
                        code += 'print(setenv("%s", "x", %d)); ' % (("V$$" + o[1]) if o[1] else "", o[2])
                        out.append("-1")
                    code += 'env("VA$$", "VB$$"); '
                    out.append("[%s][%s]" % (env.get("A", ""), env.get("B", "")))
                yield H.Case("environment %s" % (seq,), "public void case$$() modify { %s}\n" % code, [("case$$();", out)], states=d + 1, trans=d)
    return f


def inherited(length, alphabet="a= \t\"\\"):
    prog = 'public void Main(int argc, string args) modify { print("[" + getenv("VERIF_A") + "]"); print(setenv("VERIF_A", "other", 0)); print("[" + getenv("VERIF_A") + "]"); print("[" + getenv("VERIF_") + getenv("VERIF_AA") + getenv("verif_A") + getenv("VERIF_A=x") + getenv("") + "]"); print(setenv("VERIF_A", "new", 1)); print(getenv("VERIF_A")); }\n'

    def f(shard, n):
        i = 0
        for d in range(0, length + 1):
            for t in itertools.product(alphabet, repeat=d):
                i += 1
                if i % n != shard:
                    continue
                v = "".join(t)
                exp = "[%s]\n0\n[%s]\n[]\n0\nnew\n" % (v, v)
                r = H.run_source(prog, env={"VERIF_A": v})
                bad = None if r.rc == 0 and r.out == exp and not r.err else ("inherited value %r: %r, expected %r; status %s, messages %r" % (v, r.out, exp, r.rc, r.err), {"case.os": prog})
                yield "inherited %r" % v, 3, 5, bad, v
    return f


# -- reflection --------------------------------------------------------------------------------
# declared classes: (namespace, kind, default value)
KINDS = {"object": "public object %s { public int v = %d; public int get() const { return v; } }",
         "derived": "public object %sBase { protected int b = %d; } public object %s extends %sBase { public int v = 1; public int get() const { return v + b; } }",
         "generic": "public object %s<T> { public T t; public int v = %d; }",
         "abstract": "public abstract object %s { public int v = %d; public abstract int get(); }",
         "interface": "public interface %s { public int get(); }",
         "enum": "public enum %s { X = %d; }"}


def declared(kind, name, v):
    if kind == "derived":
        return KINDS[kind] % (name, v, name, name)
    return KINDS[kind] % ((name, v) if "%d" in KINDS[kind] else name)


def reflection(th):
    def f(shard, n):
        i = 0
        for spaces in ((), ("N$$",), ("N$$", "M")):
            for kinds in itertools.product(sorted(KINDS), repeat=2):
                for at in range(len(spaces) + 1):
                    # the first type lives in all namespaces, the second one in the first 'at' of them
                    i += 1
                    if i % n != shard:
                        continue
                    first, second = spaces, spaces[:at]
                    decl = ""
                    for ns, kind, nm, v in ((first, kinds[0], "P$$", 4), (second, kinds[1], "Q$$", 7)):
                        decl += "".join("public namespace %s { " % s for s in ns) + declared(kind, nm, v) + " }" * len(ns) + "\n"
                    code, out = "", []
                    names = {".".join(first + ("P$$",)), ".".join(second + ("Q$$",))}
                    for k in range(len(spaces) + 1):
                        for nm in ("P$$", "Q$$", "R$$", "P$$x", "p$$"):
                            q = ".".join(spaces[:k] + (nm,))
                            code += 'print(isKnownType("%s")); ' % q
                            out.append("1" if q in names else "0")
                    for b in ("int", "string", "bool", "double", "float", "Object"):
                        code += 'print(isKnownType("%s")); ' % b
                        out.append("1")
                    for ns, kind, nm, v in ((first, kinds[0], "P$$", 4), (second, kinds[1], "Q$$", 7)):
                        q = ".".join(ns + (nm,))
                        x = nm[0].lower()
                        if kind in ("object", "derived"):
                            val = v if kind == "object" else v + 1
                            base = 0 if kind == "object" else v
                            code += ('Object %so = createInstance("%s"); %s %s1 = %s %so; print(%s1.get()); %s1.v = 50; Object %sp = createInstance("%s"); %s %s2 = %s %sp; print(%s2.get()); print(%s1.get()); print(%s1 is %s); '
                                     % (x, q, q, x, q, x, x, x, x, q, q, x, q, x, x, x, x, q))
                            out += [str(val), str(val), str(50 + base), "1"]
                        elif kind in ("abstract", "interface"):
                            code += 'try { Object %so = createInstance("%s"); print("made"); } catch { print("refused"); } ' % (x, q)
                            out.append("refused")
                    code += 'try { Object r = createInstance("%s"); print("made"); } catch { print("refused"); } print("end"); ' % ".".join(spaces + ("R$$",))
                    out += ["refused", "end"]
                    yield H.Case("reflection %s %s %d" % ("/".join(kinds), ".".join(spaces), at), decl + "public void case$$() modify throws { %s}\n" % code, [("case$$();", out)], states=len(out), trans=len(out))
    return f


def characters(shard, n):
    printable = [k for k in range(32, 127)]
    for i, k in enumerate(printable):
        if i % n == shard:
            yield H.Case("character %d" % k, "", [("print(\"<\" + ascii(%d) + \">\" + strlen(ascii(%d)));" % (k, k), ["<%c>1" % k])], states=1, trans=1)
    for i, (a, b) in enumerate(itertools.product(printable, repeat=2)):
        if i % n == shard:
            yield H.Case("characters %d %d" % (a, b), "", [("print(ascii(%d) + ascii(%d));" % (a, b), ["%c%c" % (a, b)])], states=2, trans=1)


def main():
    c = H.Check("C33", assumptions=["line ends before the first text, putenv without a value, and instances of enumerations and built-in types by name are not constrained",
                                    "no run of an initialiser or constructor is demanded of instances made by name"])
    H.build(("slang",))
    th = c.thorough
    c.bounds = {"output operations in a row": 7 if th else 6, "length of inputs": 7 if th else 6, "environment operations in a row": 5 if th else 4, "length of inherited values": 4 if th else 3}
    c.run_judged(output(c.bounds["output operations in a row"]))
    if not c.violations:
        c.run_judged(reading(c.bounds["length of inputs"]))
    if not c.violations:
        c.run_judged(mixed(6 if c.thorough else 5, 3))
    if not c.violations:
        c.run_cases(environment(c.bounds["environment operations in a row"]), nshards=48, prelude=PRE, batch=200)
    if not c.violations:
        c.run_judged(inherited(c.bounds["length of inherited values"]))
    if not c.violations:
        c.run_cases(reflection(th), nshards=16, batch=20)
    if not c.violations:
        c.run_cases(characters, nshards=16)
    c.finish()


if __name__ == "__main__":
    H.main(main)

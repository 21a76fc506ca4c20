"""C21: debugging shows the program's real execution without changing it."""
import sys, os, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

FULL = False
NAMES = ("x", "g", "i", "k", "r", "n", "m", "by", "e")
LEAVES = ("asg", "prt", "call", "meth", "rec", "two", "new")
NESTS = ("if", "else", "for", "while", "try", "thr", "tcall", "switch", "block", "fin")


class Throw(Exception):
    pass


class Return(Exception):
    pass


class Break(Exception):
    pass


class Program:
    """source text with one statement per line, and the events its execution consists of"""

    HEAD = ["public int g = 1;",
            "public int f(int n) modify throws {",        # 2
            "int r = n * 2;",                             # 3
            "g = g + r;",                                 # 4
            "return r;",                                  # 5
            "}",
            "public int h(int n) modify throws {",        # 7
            "if ( n == 0 ) {",                            # 8
            "return 1;",                                  # 9
            "}",
            "return h(n - 1) + 1;",                       # 11
            "}",
            "public void t(int n) modify throws {",       # 13
            "g = g + n;",                                 # 14
            "throw \"et\";",                              # 15
            "}",
            "public object C {",
            "public int m;",
            "public void Constructor(int v) {",           # 19
            "m = v;",                                     # 20
            "}",
            "public void inc(int by) modify {",           # 22
            "m = m + by;",                                # 23
            "}",
            "}",
            "public int Main(int argc, string args) modify throws {"]

    def __init__(self, body):
        self.lines = list(self.HEAD)
        self.ev = []
        self.scopes = []
        self.tree = [("line", self.put("int x = 3;"), self.do_init), ("line", self.put("C c = new C(4);"), self.do_new)]
        self.cstmt = self.tree[1][1]
        for b in body:
            self.tree += self.build(b)
        self.tree.append(("line", self.put("return x;"), self.do_return))
        self.put("}")
        self.g, self.m = 1, None
        self.run()

    # -- source
    def put(self, s):
        self.lines.append(s)
        return len(self.lines)

    def build(self, b):
        kind, sub = b[0], b[1:]
        if kind == "asg":
            return [("line", self.put("x = x + 1;"), self.do_asg)]
        if kind == "prt":
            return [("line", self.put("print(x);"), self.do_prt)]
        if kind == "call":
            return [("line", self.put("x = f(x);"), self.do_call)]
        if kind == "two":
            return [("line", self.put("x = f(x) + f(1);"), self.do_two)]
        if kind == "meth":
            return [("line", self.put("c.inc(x);"), self.do_meth)]
        if kind == "new":
            return [("line", self.put("c = new C(x);"), self.do_new2)]
        if kind == "rec":
            return [("line", self.put("x = x + h(1);"), self.do_rec)]
        if kind in ("if", "else"):
            l = self.put("if ( x %s 0 ) {" % (">" if kind == "if" else "<"))
            a = self.block(sub)
            self.put("}")
            self.put("else {")
            o = self.block([("asg",)])
            self.put("}")
            return [("if", l, a if kind == "if" else o)]
        if kind == "for":
            l = self.put("for ( int i = 0; i < 2; i++ ) {")
            a = self.block(sub)
            self.put("}")
            return [("for", l, a)]
        if kind == "while":
            d = ("line", self.put("int k = 0;"), lambda: self.scopes[-1].__setitem__("k", 0))
            l = self.put("while ( k < 2 ) {")
            a = [("line", self.put("k = k + 1;"), lambda: self.set("k", self.get("k") + 1))]
            for s in sub:
                a += self.build(s)
            self.put("}")
            return [d, ("while", l, a)]
        if kind in ("try", "thr", "tcall", "fin"):
            l = self.put("try {")
            a = []
            for s in sub:
                a += self.build(s)
            if kind == "thr":
                a.append(("throw", self.put("throw \"em\";"), "em"))
            if kind == "tcall":
                a.append(("line", self.put("t(x);"), self.do_tcall))
            self.put("}")
            if kind == "fin":
                self.put("finally {")
                b = [("line", self.put("x = x + 2;"), lambda: self.set("x", self.get("x") + 2))]
                self.put("}")
                return [("fin", l, a, b)]
            self.put("catch ( string e ) {")
            b = [("line", self.put("print(e);"), lambda: self.out(self.get("e")))]
            self.put("}")
            return [("try", l, a, b)]
        if kind == "switch":
            l = self.put("switch ( x > 0 ) {")
            self.put("case true: {")
            a = []
            for s in sub:
                a += self.build(s)
            a.append(("break", self.put("break;")))
            self.put("}")
            self.put("default: {")
            self.put("break;")
            self.put("}")
            self.put("}")
            return [("switch", l, a)]
        if kind == "block":
            l = self.put("{")
            a = self.block(sub)
            self.put("}")
            return [("block", l, a)]
        raise H.HarnessError(kind)

    def block(self, sub):
        out = []
        for s in sub:
            out += self.build(s)
        return out

    # -- execution
    def get(self, n):
        for s in reversed(self.scopes):
            if s is None:
                break
            if n in s:
                return s[n]
        return {"g": self.g}[n]

    def set(self, n, v):
        for s in reversed(self.scopes):
            if s is None:
                break
            if n in s:
                s[n] = v
                return
        self.g = v

    def view(self):
        """values that are visible now, with those of the calling frames under ' '"""
        frames = []
        for s in self.scopes:
            if s is None:
                frames.append({"g": self.g})
            else:
                frames[-1].update(s)
        for f in frames:
            if f.pop("this", None):
                f["m"] = self.m
        out = dict(frames[-1])
        out[" "] = list(zip(self.names, frames))
        return out

    def stop(self, line, opt=False):
        self.ev.append(("S", line, opt, self.view()))

    def out(self, v):
        self.ev.append(("O", str(v)))

    def enter(self, name, **params):
        self.scopes += [None, dict(params)]
        self.names.append(name)
        self.ev.append(("E", name, False, self.view()))

    def leave(self, name):
        self.ev.append(("X", name, False, self.view()))
        self.scopes = self.scopes[:-2]
        self.names.pop()

    def do_init(self):
        self.scopes[-1]["x"] = 3

    def construct(self, v):
        self.enter("Constructor", v=v, this=True)
        self.stop(20)
        self.m = v
        self.leave("Constructor")

    def do_new(self):
        self.m = 0
        self.construct(4)

    def do_new2(self):
        old, self.m = self.m, 0
        self.construct(self.get_main("x"))

    def get_main(self, n):
        return self.get(n)

    def do_asg(self):
        self.set("x", self.get("x") + 1)

    def do_prt(self):
        self.out(self.get("x"))

    def f(self, v):
        self.enter("f", n=v)
        self.stop(3)
        self.scopes[-1]["r"] = v * 2
        self.stop(4)
        self.g += v * 2
        self.stop(5)
        self.leave("f")
        return v * 2

    def do_call(self):
        self.set("x", self.f(self.get("x")))

    def do_two(self):
        a = self.f(self.get("x"))
        self.set("x", a + self.f(1))

    def h(self, n):
        self.enter("h", n=n)
        self.stop(8)
        if n == 0:
            self.stop(9, "block")
            self.stop(9)
            self.leave("h")
            return 1
        self.stop(11)
        r = self.h(n - 1) + 1
        self.leave("h")
        return r

    def do_rec(self):
        x = self.get("x")
        self.set("x", x + self.h(1))

    def do_meth(self):
        x = self.get("x")
        self.enter("inc", by=x, this=True)
        self.stop(23)
        self.m += x
        self.leave("inc")

    def throw(self, v):
        self.ev.append(("T", v, False, self.view()))
        raise Throw(v)

    def do_tcall(self):
        self.enter("t", n=self.get("x"))
        self.stop(14)
        self.g += self.get("n")
        self.stop(15)
        try:
            self.throw("et")
        finally:
            self.leave("t")

    def do_return(self):
        raise Return(self.get("x"))

    def body(self, stmts):
        """a block of its own"""
        self.scopes.append({})
        n = len(self.scopes)
        try:
            for s in stmts:
                self.exec(s)
        finally:
            del self.scopes[n - 1:]

    def exec(self, s):
        k = s[0]
        if k == "line":
            self.stop(s[1])
            s[2]()
        elif k == "throw":
            self.stop(s[1])
            self.throw(s[2])
        elif k == "break":
            self.stop(s[1])
            raise Break
        elif k == "if":
            self.stop(s[1])
            self.stop(first(s[2]), "block")
            self.body(s[2])
        elif k == "for":
            self.stop(s[1])
            self.scopes.append({})
            self.stop(s[1])
            self.scopes[-1]["i"] = 0
            while self.get("i") < 2:
                self.stop(first(s[2]), "block")
                n = len(self.scopes)
                self.body(s[2])
                self.stop(s[1], "iter")
                self.scopes[n - 1]["i"] += 1
            self.scopes.pop()
        elif k == "while":
            self.stop(s[1])
            while self.get("k") < 2:
                self.stop(first(s[2]), "block")
                self.body(s[2])
        elif k in ("try", "fin"):
            self.stop(s[1])
            n = len(self.scopes)
            try:
                self.body(s[2])
            except Throw as e:
                self.scopes.append({"e": e.args[0]})
                self.body(s[3])
                self.scopes.pop()
            if k == "fin":
                self.body(s[3])
        elif k == "switch":
            self.stop(s[1])
            try:
                self.body(s[2])
            except Break:
                pass
        elif k == "block":
            self.stop(first(s[2]), "block")
            self.body(s[2])

    def run(self):
        self.scopes, self.names = [None, {}], ["Main"]
        self.ev.append(("E", "Main", False, self.view()))
        try:
            for s in self.tree:
                self.exec(s)
        except Return as r:
            self.rc = r.args[0]
        self.ev.append(("X", "Main", False, self.view()))

    def text(self):
        return "\n".join(self.lines) + "\n"


def first(stmts):
    return stmts[0][1]


PROMPT = "slang-dbg> "


class Run:
    """one program run in the debugger: commands that are sent and stops that are expected"""

    def __init__(self, p, cmds, answers):
        self.cmds, self.answers = cmds, answers


def holds(cond, view):
    if cond is None:
        return True
    n, op, v = cond
    a = view[n]
    return {"==": a == v, "!=": a != v, "<": a < v, "<=": a <= v, ">": a > v, ">=": a >= v}[op]


def predict(p, events, bps, seq):
    """-> (commands, expected answers, stops).  bps: {line: condition}"""
    cmds, exp = [], []
    bps = dict(bps)
    pos, mode = 0, "i"
    out = []
    todo = list(seq)
    frames = "F" in todo
    watch = [x[1:] for x in todo if x[0] == "W"]
    todo = [x for x in todo if x[0] not in "FW"]
    for w in watch:
        cmds.append("watch " + w)
        exp.append(("none",))
    cmds.append("r")
    head = "[Starting program"
    nstops = 0
    while True:
        stop = None
        while pos < len(events):
            e = events[pos]
            pos += 1
            if e[0] == "O":
                out.append(e[1])
                continue
            if e[0] == "T":
                stop = ("T", None)
            elif e[0] == "S" and (mode == "n" or mode != "q" and e[1] in bps and holds(bps[e[1]], e[3])):
                stop = ("S", e[1])
            elif e[0] == "E" and mode == "i" or e[0] == "X" and mode == "o":
                stop = (e[0], e[1])
            if stop:
                break
        if not stop:
            exp.append(("end", head, list(out), p.rc))
            for w in watch:
                cmds.append("unwatch " + w)
                exp.append(("none",))
            return cmds, exp, nstops
        nstops += 1
        view = e[3]
        exp.append(("stop", head, list(out), stop, [(w, view.get(w)) for w in sorted(watch)]))
        head, out = None, []
        if frames:
            cmds.append("bt")
            exp.append(("frames", [n for n, _ in view[" "]]))
            for d in list(range(len(view[" "]))) + [len(view[" "]) - 1]:
                cmds.append("frame %d" % d)
                exp.append(("none",))
                for n in NAMES:
                    cmds.append("p " + n)
                    exp.append(("value", n, view[" "][d][1].get(n)))
        for n in NAMES:
            cmds.append("p " + n)
            exp.append(("value", n, view.get(n)))
        while True:
            c = todo.pop(0) if todo else "q"
            if c == "D":
                cmds.append("d 1")
                exp.append(("none",))
                if bps:
                    del bps[min(bps)]
                continue
            if c[0] == "A":
                cmds.append("b p.os " + c[1:])
                exp.append(("none",))
                bps[int(c[1:])] = None
                continue
            if c == "L":
                cmds.append("breakpoints")
                exp.append(("list", dict(bps)))
                continue
            break
        mode = c
        cmds.append({"c": "c", "n": "n", "i": "i", "o": "o", "q": "ignore"}[c])


def judge(exp, got):
    """compare one answer of the debugger -> message or None"""
    lines = got.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if exp[0] == "none":
        return None if not lines else "unexpected answer %r" % got
    if exp[0] == "list":
        want = ["%d" % l if c is None else "%d [%s %s %s]" % ((l,) + c) for l, c in sorted(exp[1].items())]
        have = [re.sub(r"^\d+: \S*p\.os ", "", x) for x in lines[1:]]
        return None if want == have else "breakpoints %s listed instead of %s" % (have, want)
    if exp[0] == "frames":
        have = [re.sub(r"^.*Frame \d+: (?:.*\.)?(\w+)\(.*$", r"\1", x) for x in lines]
        return None if have == exp[1] else "frames %s instead of %s" % (have, exp[1])
    if exp[0] == "value":
        if exp[2] is None:
            return None if lines and "could not resolve" in lines[0] else "%s is shown as %r but is not visible" % (exp[1], got)
        m = re.search(r"= '?(.*?)'?$", lines[0]) if len(lines) == 1 else None
        return None if m and m.group(1) == str(exp[2]) else "%s is shown as %r instead of %s" % (exp[1], got, exp[2])
    if exp[1]:
        if not lines or not lines[0].startswith(exp[1]):
            return "program not started: %r" % got
        lines = lines[1:]
    if exp[0] == "stop" and exp[4]:
        shown, lines = lines[-len(exp[4]):], lines[:-len(exp[4])]
        for (w, v), l in zip(exp[4], shown):
            ok = re.match(r"\[Watch\] %s: (?:.*= '?(.*?)'?|(<not accessible>))$" % w, l)
            if not ok or (ok.group(1) != str(v) if v is not None else not ok.group(2)):
                return "watched %s is shown as %r instead of %s" % (w, l, v)
    if not lines:
        return "no answer"
    last, before = lines[-1], lines[:-1]
    if before != exp[2]:
        return "output %s instead of %s" % (before, exp[2])
    if exp[0] == "end":
        return None if last == "[Process finished with exit code %d]" % exp[3] else "%r instead of the end with %d" % (last, exp[3])
    k, w = exp[3]
    ok = {"S": lambda: re.match(r"\[Breakpoint \S*p\.os %s( \[.*\])? reached\]$" % w, last),
          "T": lambda: last.startswith("[Exception has been thrown"),
          "E": lambda: re.match(r"\[Stepping into .*\b%s\(" % w, last),
          "X": lambda: re.match(r"\[Stepping out of .*\b%s\(" % w, last)}[k]()
    return None if ok else "%r instead of a stop at %s %s" % (last, k, w)


def session(p, cmds):
    d = H.scratch()
    path = os.path.join(d, "p.os")
    with open(path, "w") as f:
        f.write(p.text())
    r = H.run([H.exe("slang-dbg"), "p.os"], cwd=d, stdin=("\n".join(cmds + ["quit"]) + "\n").encode(), timeout=60)
    return r


def align(p):
    """the events of a program, without the optional stops this debugger does not have"""
    n = sum(1 for e in p.ev if e[0] in "ST") + 1
    r = session(p, ["r"] + ["n"] * n)
    seen = [int(x) for x in re.findall(r"\[Breakpoint \S*p\.os (\d+) reached\]", r.out)]
    for has in (("block", "iter"), ("block",), ("iter",), ()):
        ev = [e for e in p.ev if e[0] != "S" or not e[2] or e[2] in has]
        if [e[1] for e in ev if e[0] == "S"] == seen:
            return ev
    return p.ev


def stop_lines(events):
    return sorted({e[1] for e in events if e[0] == "S"})


def main_view(events, line):
    return [e[3]["x"] for e in events if e[0] == "S" and e[1] == line and "x" in e[3]]


def plans(p, events, kind):
    """breakpoints and command sequences for one program"""
    ls = stop_lines(events)
    if kind == "traces":
        total = sum(1 for e in events if e[0] in "ST") + 2
        for c in "nio":
            yield {}, [c] * total
        yield {}, []
        yield {}, ["F"] + ["n"] * total
        yield {}, ["Wx", "Wg", "Wn", "Wm"] + ["n"] * total
        yield {}, ["Wi"] + ["i"] * total
        yield {l: None for l in ls}, ["c"] * total
        for l in ls:
            yield {l: None}, ["c"] * total
            yield {l: None}, ["c", "L", "D", "L", "c"]
        dead = [l for l in range(1, len(p.lines) + 1) if l not in ls]
        yield {l: None for l in dead}, ["c", "L"]
        for l in ls:
            vs = main_view(events, l)
            if not vs:
                continue
            for op in ("==", "!=", "<", "<=", ">", ">="):
                for v in sorted(set(vs))[:3] + [max(vs) + 1]:
                    yield {l: ("x", op, v)}, ["c", "L"] + ["c"] * total
    else:
        depth = 4 if FULL else 3
        inner = [l for l in ls if l < 26]
        own = [l for l in ls if l >= 26]
        sets = [{}] + [{l: None} for l in ls] + [{a: None, b: None} for a, b in itertools.combinations((inner[-1:] + own[2:4]), 2)]
        for b in sets:
            cs = ["c", "n", "i", "o", "D", "A%d" % own[-1]]
            for seq in itertools.product(cs, repeat=depth):
                yield b, list(seq)


def programs():
    for a in LEAVES:
        yield [(a,)]
    for n in NESTS:
        for a in LEAVES:
            yield [(n, (a,))]
    for n in NESTS:
        for m in NESTS:
            if (n, m) in (("while", "while"),):
                continue
            yield [(n, (m, ("asg",)))]
    for a, b in itertools.product(LEAVES, repeat=2):
        yield [(a,), (b,)]
    for n in NESTS:
        for a in LEAVES:
            yield [(n, ("asg",), (a,)), ("prt",)]
    if FULL:
        for n, m, o in itertools.product(("if", "for", "try", "thr", "tcall", "switch"), repeat=3):
            yield [(n, (m, (o, ("call",))))]


def name(b):
    return "+".join(x[0] + ("(" + name(x[1:]) + ")" if len(x) > 1 else "") for x in b)


def replay(p, todo, runs, r):
    return {"p.os": p.text(), "commands.txt": "\n".join(todo) + "\n", "output.txt": r.out + "\n--- stderr\n" + r.err}


def work(shard, ns):
    k = 0
    for kind in ("traces", "commands"):
        for i, b in enumerate(programs()):
            if kind == "commands" and not (len(b) == 1 and (len(b[0]) == 1 or b[0][1][0] in ("call", "meth") and len(b[0]) == 2 and len(b[0][1]) == 1)):
                continue
            k += 1
            if k % ns != shard:
                continue
            p = Program(b)
            events = align(p)
            groups = {}
            for bp, seq in plans(p, events, kind):
                groups.setdefault(tuple(sorted(bp.items())), []).append(seq)
            for bp, seqs in groups.items():
                yield from one_group(p, events, name(b), dict(bp), seqs)
    # programs run on their own show the same output and status
            r = H.run_source(p.text())
            want = "".join(e[1] + "\n" for e in p.ev if e[0] == "O")
            bad = None if (r.out == want and r.rc == p.rc & 255) else ("the program itself prints %r and returns %d" % (r.out, r.rc), {"p.os": p.text()})
            yield name(b) + " without debugger", len(events), len(events), bad, None


def one_group(p, events, pname, bp, seqs):
    for c in range(0, len(seqs), 150):
        todo, parts = [], []
        for seq in seqs[c:c + 150]:
            add = ["b p.os %d%s" % (l, "" if cond is None else " %s %s %d" % cond) for l, cond in sorted(bp.items())]
            cmds, exp, n = predict(p, events, bp, seq)
            # breakpoints that are left are removed before the next run
            left = dict(bp)
            for x in cmds:
                if x == "d 1" and left:
                    del left[min(left)]
                if x.startswith("b p.os "):
                    left[int(x.split()[2])] = None
            clean = ["d 1"] * len(left)
            full = add + cmds + clean
            fexp = [("none",)] * len(add) + exp + [("none",)] * len(clean)
            parts.append((seq, full, fexp, n))
            todo += full
        r = session(p, todo)
        got = r.out.split(PROMPT)[1:]
        pos = 0
        for seq, full, fexp, n in parts:
            msg = None
            for x, e in zip(full, fexp):
                a = got[pos] if pos < len(got) else "<debugger ended with status %s%s>" % (r.rc, " (no answer in time)" if r.timeout else "")
                pos += 1
                msg = judge(e, a)
                if msg:
                    msg = "after '%s': %s" % (x, msg)
                    break
            nm = "%s break %s: %s" % (pname, ",".join("%d%s" % (l, "" if q is None else "[%s%s%d]" % q) for l, q in sorted(bp.items())) or "-", " ".join(seq)[:80])
            if msg:
                # once more on its own
                r2 = session(p, full)
                got2 = r2.out.split(PROMPT)[1:]
                for x, e, a in itertools.zip_longest(full, fexp, got2[:len(full)], fillvalue="<no answer>"):
                    m2 = judge(e, a)
                    if m2:
                        yield nm, n, len(full), ("after '%s': %s" % (x, m2), replay(p, full, None, r2)), None
                        return
                yield nm, n, len(full), (msg + " (in a session with further runs)", replay(p, todo, None, r)), None
                return
            yield nm, n, len(full), None, None
        if pos == len(got) - 1 and r.rc != 0:
            yield pname + " quit", 1, 1, ("debugger ended with status %d" % r.rc, replay(p, todo, None, r)), None


def main():
    global FULL
    c = H.Check("C21", assumptions=["one thread", "programs with one statement per line",
                                    "whether entering a block or counting up a loop is a stop of its own is up to the debugger"])
    H.build(("slang", "slang-dbg"))
    FULL = c.thorough
    c.bounds = {"commands after the start of a program": 4 if FULL else 3, "nested constructs": 3 if FULL else 2}
    c.run_judged(work, nshards=64)
    c.finish()


if __name__ == "__main__":
    H.main(main)

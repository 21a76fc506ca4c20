"""C22: files behave like the C file model."""
import sys, os, itertools, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

EX = "ex"
FULL = False


class Undefined(Exception):
    """the C standard leaves this step open: the sequence is not a trace"""


class Stream:
    def __init__(self, disk, name, mode):
        self.disk, self.name, self.mode = disk, name, mode
        self.ok = True
        if mode[0] == "r" and name not in disk:
            self.ok = False
            return
        if mode[0] == "w" or name not in disk:
            disk[name] = b""
        self.pos = len(disk[name]) if mode == "a" else 0
        self.eof = self.err = False
        self.last = None
        self.back = b""

    def data(self):
        return self.disk[self.name]

    def key(self):
        return (self.ok, bytes(self.disk.get(self.name, b"")), getattr(self, "pos", 0), getattr(self, "eof", 0), getattr(self, "err", 0), self.last if self.ok else None)

    # -- primitive steps
    def get(self, n):
        """read up to n characters"""
        if self.mode in ("w", "a"):
            self.err = True
            return b""
        if n == 0:
            return b""
        if self.last == "w":
            raise Undefined
        self.last = "r"
        d = self.data()[self.pos:]
        d = self.back + d
        r = d[:n]
        if len(r) < n:
            self.eof = True
        nb = min(len(r), len(self.back))
        self.back = self.back[nb:]
        self.pos += len(r) - nb
        return r

    def put(self, b):
        """write characters, False if the stream cannot be written"""
        if self.mode == "r":
            self.err = True
            return False
        if not b:
            return True
        if self.last == "r" and not self.eof or self.back:
            raise Undefined
        self.last = "w"
        d = self.data()
        p = len(d) if self.mode[0] == "a" else self.pos
        if p > len(d):
            raise Undefined
        self.disk[self.name] = d[:p] + b + d[p + len(b):]
        self.pos = p + len(b)
        return True

    def seek(self, off, whence):
        base = {"SET": 0, "CUR": self.pos - len(self.back), "END": len(self.data())}[whence]
        if base + off < 0:
            if self.back:
                raise Undefined
            return False
        self.pos, self.eof, self.back, self.last = base + off, False, b"", None
        return True

    def line(self, n):
        if n <= 1:
            return b""
        out = b""
        while len(out) < n - 1:
            c = self.get(1)
            if not c:
                break
            out += c
            if c == b"\n":
                break
        return out


def br(b):
    return "[" + b.decode("latin-1") + "]"


def flat(line):
    """a printed text with line breaks takes several output lines"""
    return line.split("\n")


# operation -> (slang code printing one result, model: stream -> text)
def w_count(s, b, failed):
    return "1" if s.put(b) else failed


def m_seek(off, wh):
    return lambda s: "0" if s.seek(off, wh) else EX


def m_unget(s):
    if s.mode in ("w", "a"):
        raise Undefined
    if s.last == "w" or s.back or s.pos == 0 or s.last is None:
        raise Undefined
    s.back, s.eof = b"x", False
    return "120"


def m_tell(s):
    return str(s.pos - len(s.back))


def m_rewind(s):
    s.seek(0, "SET")
    s.err = False
    return "ok"


def m_clear(s):
    s.eof = s.err = False
    return "ok"


def m_readi(s):
    if s.mode in ("w", "a"):
        s.get(4)
        return "0"
    left = max(0, len(s.data()) - s.pos) + len(s.back)
    if 0 < left < 4:
        raise Undefined
    d = s.get(4)
    return str(int.from_bytes(d, "little", signed=True)) if len(d) == 4 else "0"


def m_flush(s):
    if s.last == "w":
        s.last = None
    elif s.last == "r":
        raise Undefined
    return "0"


def m_getc(s):
    c = s.get(1)
    return str(c[0]) if c else "-1"


def m_putc(s):
    return "113" if s.put(b"q") else "-1"


OPS = {
    "r1": ("px(freads(gH, 1));", lambda s: br(s.get(1))),
    "r3": ("px(freads(gH, 3));", lambda s: br(s.get(3))),
    "ra": ("px(freads(gH, -1));", lambda s: br(s.get(1 << 20))),
    "g3": ("px(fgets(gH, 3));", lambda s: br(s.line(3))),
    "g9": ("px(fgets(gH, 9));", lambda s: br(s.line(9))),
    "gc": ("print(fgetc(gH));", m_getc),
    "ri": ("print(freadi(gH));", m_readi),
    "un": ("print(ungetc(120, gH));", m_unget),
    "pu": ('print(fputs("xy", gH) >= 0);', lambda s: "1" if s.put(b"xy") else "0"),
    "ws": ('print(fwrites(gH, "z") >= 0);', lambda s: "1" if s.put(b"z") else EX),
    "wi": ("print(fwritei(gH, 1684234849));", lambda s: "1" if s.put(b"abcd") else "0"),
    "pc": ("print(fputc(113, gH));", m_putc),
    "s0": ("print(fseek(gH, 0));", m_seek(0, "SET")),
    "s2": ("print(fseek(gH, 2, SEEK_SET));", m_seek(2, "SET")),
    "sm": ("print(fseek(gH, -1, SEEK_SET));", m_seek(-1, "SET")),
    "cp": ("print(fseek(gH, 1, SEEK_CUR));", m_seek(1, "CUR")),
    "cm": ("print(fseek(gH, -1, SEEK_CUR));", m_seek(-1, "CUR")),
    "e0": ("print(fseek(gH, 0, SEEK_END));", m_seek(0, "END")),
    "em": ("print(fseek(gH, -2, SEEK_END));", m_seek(-2, "END")),
    "te": ("print(ftell(gH));", m_tell),
    "rw": ('rewind(gH); print("ok");', m_rewind),
    "ce": ('clearerr(gH); print("ok");', m_clear),
    "fl": ("print(fflush(gH));", m_flush),
}
CLOSE = ("print(fclose(gH));", None)
MODES = ("r", "w", "a", "r+", "w+", "a+")
INIT = {"none": None, "empty": b"", "text": b"ab\ncd", "long": b"abcdefghijkl"}

PRE = '''import System.IO.File;
public int gH; public int gI;
public void px(string s) { print("[" + s + "]"); }
public void setup(string name, string text, bool exists) modify throws { remove(name); if ( exists ) { int h = fopen(name, "w"); fputs(text, h); fclose(h); } }
public string nl() { return LINEBREAK_UNIX; }
public void open(string name, string mode) modify throws { gH = fopen(name, mode); print(gH != 0); }
public void line(int n) modify throws { string l = fgets(gH, n); print(strlen(l)); print(strfind(l, nl()) >= 0); print(ftell(gH)); }
public void flags() modify throws { try { print(feof(gH) != 0); print(ferror(gH) != 0); } catch { print("ex"); } }
public void opClose() modify throws { try { print(fclose(gH)); } catch { print("ex"); } }
public void content(string name) modify throws { int h = fopen(name, "r"); if ( h == 0 ) { print("none"); } else { px(freads(h, -1)); fclose(h); } }
''' + "\n".join("public void op%s() modify throws { try { %s } catch { print(\"ex\"); } flags(); }" % (k, v[0]) for k, v in OPS.items())


def setup(name, c):
    if c is None:
        return 'setup("%s", "", false); ' % name
    return 'setup("%s", %s, true); ' % (name, " + nl() + ".join('"%s"' % p for p in c.decode().split("\n")))


def run_seq(mode, init, seq):
    """-> expected lines and distinct states, or None if a step is undefined"""
    disk = {} if INIT[init] is None else {"f": INIT[init]}
    s = Stream(disk, "f", mode)
    out, states = ["1" if s.ok else "0"], {s.key()}
    closed = not s.ok
    try:
        for op in seq:
            if op == "cl":
                out.append(EX if closed else "0")
                closed = True
                continue
            if closed:
                out += [EX, EX]
                continue
            out += flat(OPS[op][1](s))
            out += ["1" if s.eof else "0", "1" if s.err else "0"]
            states.add(s.key())
    except Undefined:
        return None
    if not closed:
        out.append("0")
    out += flat(br(disk["f"])) if "f" in disk else ["none"]
    return out, len(states)


def do_seqs(shard, ns):
    k = 0
    names = list(OPS) + ["cl"]
    depth = 4 if FULL else 3
    for mode in MODES:
        for init in INIT:
            if depth == 4 and init == "long" and mode not in ("r", "r+", "a+"):
                continue
            ops = names if init != "none" or mode != "r" else ["r1", "ws", "te", "cl", "s0", "gc", "g3", "ri", "rw", "ce", "fl", "un", "pc"]
            for d in range(0, depth + 1):
                if d == 4 and init not in ("text",):
                    continue
                for seq in itertools.product(ops, repeat=d):
                    k += 1
                    if k % ns != shard:
                        continue
                    r = run_seq(mode, init, seq)
                    if r is None:
                        continue
                    code = setup("f", INIT[init]) + 'open("f", "%s"); ' % mode + " ".join("op%s();" % o if o != "cl" else "opClose();" for o in seq)
                    opened = mode[0] != "r" or INIT[init] is not None
                    if "cl" not in seq and opened:
                        code += " opClose();"
                    code += ' content("f");'
                    yield H.Case("%s %s %s" % (mode, init, " ".join(seq)), "", [(code, r[0])], states=r[1], trans=len(seq) + 1)


# --- several handles ---------------------------------------------------------

HOPS = ["oA", "oB", "cA", "cB", "wA", "wB", "rA", "rB", "cA0", "x"]
HPRE = '''
public int hA; public int hB; public int old;
public void hreset() modify throws { hA = 0; hB = 0; old = 0; remove("A"); remove("B"); }
public void hoA() modify throws { hA = fopen("A", "a+"); print(hA != 0); print(hA != hB); }
public void hoB() modify throws { hB = fopen("B", "a+"); print(hB != 0); print(hA != hB); }
public void hcA() modify throws { old = hA; try { print(fclose(hA)); } catch { print("ex"); } hA = 0; }
public void hcB() modify throws { try { print(fclose(hB)); } catch { print("ex"); } hB = 0; }
public void hcA0() modify throws { try { print(fclose(old)); } catch { print("ex"); } }
public void hx() modify throws { try { fputs("o", old); print("ok"); } catch { print("ex"); } }
public void hwA() modify throws { try { fputs("a", hA); print(ftell(hA)); } catch { print("ex"); } }
public void hwB() modify throws { try { fputs("b", hB); print(ftell(hB)); } catch { print("ex"); } }
public void hrA() modify throws { try { fseek(hA, 0); px(freads(hA, -1)); } catch { print("ex"); } }
public void hrB() modify throws { try { fseek(hB, 0); px(freads(hB, -1)); } catch { print("ex"); } }
'''


def run_handles(seq):
    disk, op, st = {}, {"A": None, "B": None}, set()
    out = []
    for o in seq:
        k = o[1:2]
        if o == "cA0" or o == "x":
            out.append(EX)  # the handle last closed is never valid again
        elif o[0] == "o":
            if op[k]:
                return None
            op[k] = Stream(disk, k, "a+")
            out += ["1", "1"]
        elif o[0] == "c":
            out.append("0" if op[k] else EX)
            op[k] = None
        elif not op[k]:
            out.append(EX)
        elif o[0] == "w":
            if op[k].last == "r" and not op[k].eof:
                return None
            op[k].put(k.lower().encode())
            out.append(str(op[k].pos))
        else:
            op[k].seek(0, "SET")
            out.append(br(op[k].get(1 << 20)))
        st.add((tuple(sorted(disk.items())), op["A"] is not None, op["B"] is not None))
    return out, len(st)


def do_handles(shard, ns):
    k = 0
    for d in range(1, (7 if FULL else 6)):
        for seq in itertools.product(HOPS, repeat=d):
            k += 1
            if k % ns != shard:
                continue
            r = run_handles(seq)
            if r is None:
                continue
            code = "hreset(); " + " ".join("h%s();" % o for o in seq)
            code += ' try { fclose(hA); } try { fclose(hB); }'
            yield H.Case("handles " + " ".join(seq), "", [(code, r[0])], states=r[1], trans=d)


# --- names: remove and rename ------------------------------------------------

NOPS = {"ca": 'setup("A", "1", true); print("ok");', "cb": 'setup("B", "2", true); print("ok");', "da": 'print(remove("A"));', "db": 'print(remove("B"));',
        "ab": 'print(rename("A", "B"));', "ba": 'print(rename("B", "A"));', "ea": 'print(System.IO.File.Exists("A"));', "eb": 'print(System.IO.File.Exists("B"));'}


def run_names(seq):
    d, out, st = {}, [], set()
    for o in seq:
        x = o[1].upper()
        if o[0] == "c":
            d[x] = {"A": "1", "B": "2"}[x]
            out.append("ok")
        elif o[0] == "d":
            out.append("0" if x in d else "-1")
            d.pop(x, None)
        elif o[0] == "e":
            out.append("1" if x in d else "0")
        else:
            y, x = x, o[0].upper()
            if x in d:
                d[y] = d.pop(x)
                out.append("0")
            else:
                out.append("-1")
        st.add(tuple(sorted(d.items())))
    return out + ["[%s]" % d[x] if x in d else "none" for x in "AB"], len(st)


def do_names(shard, ns):
    k = 0
    for n in range(1, 6 if FULL else 5):
        for seq in itertools.product(NOPS, repeat=n):
            k += 1
            if k % ns == shard:
                out, st = run_names(seq)
                yield H.Case("names " + " ".join(seq), "", [("hreset(); " + " ".join(NOPS[o] for o in seq) + ' content("A"); content("B");', out)], states=st, trans=n)


# --- typed values and the File class -----------------------------------------

VALS = {"i": ("int", ["0", "-7", "2147483647"]), "b": ("bool", ["true", "false"]), "d": ("double", ["0.25d", "-1.5d"]), "f": ("float", ["0.5f", "-8.f"]), "s": ("string", ['"ab"', '"x"'])}
RD = {"i": "readInt()", "b": "readBool()", "d": "readDouble()", "f": "readFloat()"}
SHOW = {"0": "0", "-7": "-7", "2147483647": "2147483647", "true": "1", "false": "0", "0.25d": "0.25", "-1.5d": "-1.5", "0.5f": "0.5", "-8.f": "-8", '"ab"': "ab", '"x"': "x"}


def do_typed(shard, ns):
    k = 0
    items = [(t, v) for t, (_, vs) in VALS.items() for v in vs]
    size = {"i": 4, "b": 1, "d": 8, "f": 4}
    for n in range(1, 4 if FULL else 4):
        for seq in itertools.product(items, repeat=n):
            k += 1
            if k % ns != shard:
                continue
            total = sum(size.get(t, len(SHOW[v])) for t, v in seq)
            w = "".join('print(o.write(%s)); ' % v for t, v in seq)
            r = "".join('print(i.%s); ' % (RD[t] if t != "s" else "readString(%d)" % len(SHOW[v])) for t, v in seq)
            code = 'remove("A"); System.IO.File o = new System.IO.File("A", System.IO.File.AccessMode.WriteOnly); print(o.isOpen()); %sprint(o.close()); print(o.isOpen()); ' % w
            code += 'System.IO.File i = new System.IO.File("A", "r"); print(i.getSize()); %sprint(i.isEOF()); px(i.readChar()); print(i.isEOF()); print(i.rewind()); print(i.isEOF()); print(i.close());' % r
            out = ["1"] + ["1"] * n + ["1", "0", str(total)] + [SHOW[v] for _, v in seq] + ["0", "[]", "1", "1", "0", "1"]
            yield H.Case("typed " + " ".join(v for _, v in seq), "", [("{ %s }" % code, out)], states=n + 1, trans=2 * n)
            lo = [("fwrite%s(h, %s)" % (t, v), "freads(g, %d)" % len(SHOW[v]) if t == "s" else "fread%s(g)" % t) for t, v in seq]
            code = 'int h = fopen("A", "w+"); ' + "".join("print(%s > 0); " % x for x, _ in lo) + "rewind(h); int g = h; " + "".join("print(%s); " % y for _, y in lo) + "print(ftell(h)); print(fclose(h));"
            yield H.Case("typed functions " + " ".join(v for _, v in seq), "", [("{ %s }" % code, ["1"] * n + [SHOW[v] for _, v in seq] + [str(total), "0"])], states=n + 1, trans=2 * n)


def do_lines(shard, ns):
    """lines around multiples of the sizes buffers usually have"""
    k = 0
    near = [b + d for b in (256, 512, 1024, 2048, 4096) for d in (-2, -1, 0, 1, 2)]
    for n in near:
        for size in [1, 2] + near:
            k += 1
            if k % ns != shard:
                continue
            disk = {"A": b"a" * n + b"\nbc"}
            s, out = Stream(disk, "A", "r"), []
            for _ in range(3):
                d = s.line(size)
                out += [str(len(d)), "1" if d.endswith(b"\n") else "0", str(s.pos)]
            code = 'setup("A", strlpad("", %d, "a") + nl() + "bc", true); gH = fopen("A", "r"); line(%d); line(%d); line(%d); fclose(gH);' % (n, size, size, size)
            yield H.Case("line of %d read with %d" % (n, size), "", [(code, out)], states=4, trans=3)


def do_class(shard, ns):
    """a File object that is opened, used and closed in every order"""
    F = "System.IO.File"
    k = 0
    ops = {"or": 'print(o.open("A", "r"));', "ow": 'print(o.open("A", %s.AccessMode.WriteOnly));' % F, "oa": 'print(o.open("A", %s.AccessMode.Append));' % F, "om": 'print(o.open("nofile", "r"));',
           "c": "print(o.close());", "w": 'print(o.write("ab"));', "r": "px(o.readChar());", "s": "print(o.seek(1));", "o": "print(o.isOpen());", "z": "print(o.getSize());"}
    pre = "".join('public void k%s(%s o) modify throws { try { %s } catch { print("ex"); } }\n' % (n, F, c) for n, c in ops.items())
    for n in range(1, 5):
        for seq in itertools.product(ops, repeat=n):
            k += 1
            if k % ns != shard:
                continue
            disk, s, out, st = {"A": b"xyz"}, None, [], set()
            size = None
            try:
                for o in seq:
                    if o[0] == "o" and len(o) == 2:
                        if s:
                            out.append(EX)
                        elif o == "om":
                            out.append("0")
                            size = None
                        else:
                            s = Stream(disk, "A", {"or": "r", "ow": "w", "oa": "a"}[o])
                            s.pos = 0
                            size = len(disk["A"])
                            out.append("1")
                    elif o == "c":
                        out.append("1")
                        s = None
                        size = None
                    elif o == "o":
                        out.append("1" if s else "0")
                    elif o == "z":
                        if size is None:
                            raise Undefined
                        out.append(str(size))
                    elif not s:
                        out.append(EX)
                    elif o == "w":
                        out.append("1" if s.put(b"ab") else EX)
                    elif o == "r":
                        out.append(br(s.get(1)))
                    else:
                        s.seek(1, "SET")
                        out.append("1")
                    st.add((disk["A"], s is not None and s.pos))
            except Undefined:
                continue
            code = '{ setup("A", "xyz", true); %s o = new %s(); %s o.close(); content("A"); }' % (F, F, " ".join("k%s(o);" % o for o in seq))
            yield H.Case("class " + " ".join(seq), "", [(code, out + flat(br(disk["A"])))], states=len(st), trans=n)
    do_class.pre = pre


def class_pre():
    for _ in do_class(-1, 1 << 60):
        pass
    return do_class.pre


def main():
    global FULL
    c = H.Check("C22", assumptions=["between reading and writing a stream is positioned or flushed, as C requires", "nothing is written behind the end of a file",
                                    "no two streams are open on one file", "numbers are read completely or not at all"])
    H.build(("slang",))
    H.RUN_USER = 65534
    FULL = c.thorough
    c.bounds = {"operations on one stream": 4 if FULL else 3, "operations on two handles": 6 if FULL else 5, "remove/rename steps": 5 if FULL else 4, "typed values in a row": 3, "operations on a File object": 4}
    p = PRE + HPRE + class_pre()
    for f in (do_seqs, do_handles, do_names, do_typed, do_lines, do_class):
        if not c.violations:
            c.run_cases(f, prelude=p, batch=1000)
    c.finish()


if __name__ == "__main__":
    H.main(main)

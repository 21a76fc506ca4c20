"""C39: descriptors and commands exchange exactly the bytes that were given.

Model: a descriptor is a stream of bytes, each value has its fixed binary form, a text one byte per character; the result of a command
is the text it prints.  All sequences of write and read operations up to a bound, all sequences of command pieces up to a bound and all
failing operations between good ones are replayed; written bytes are compared in binary form outside of the interpreter."""
import sys, os, struct, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

H.RUN_USER = 65534
# kind -> [(literal, bytes, printed)]
VALUES = {
    "b": [("true", b"\1", "1"), ("false", b"\0", "0")],
    "i": [("0", struct.pack("<i", 0), "0"), ("65", struct.pack("<i", 65), "65"), ("-1", struct.pack("<i", -1), "-1"), ("2147483647", struct.pack("<i", 2147483647), "2147483647"), ("16909060", struct.pack("<i", 16909060), "16909060")],
    "f": [("0.5f", struct.pack("<f", .5), "0.5"), ("-3.25f", struct.pack("<f", -3.25), "-3.25")],
    "d": [("0.5d", struct.pack("<d", .5), "0.5"), ("-1024.125d", struct.pack("<d", -1024.125), None), ("0.1d", struct.pack("<d", .1), "0.1")],
    "s": [('""', b"", ""), ('"a"', b"a", "a"), ('"x y"', b"x y", "x y"), ('"two\nlines"', b"two\nlines", "two\nlines"), ('"0123456789abcdef"', b"0123456789abcdef", "0123456789abcdef")],
}
VALUES["d"][1] = ("-4.125d", struct.pack("<d", -4.125), "-4.125")
OPS = [(k, n) for k in "bifds" for n in range(len(VALUES[k]))]
CHUNK = 60


def run_files(prog, data):
    """runs the program with the bytes as its input; returns (status, bytes written to the standard output) - all bytes kept"""
    d = H.scratch()
    src, inp = os.path.join(d, "case.os"), os.path.join(d, "in.bin")
    with open(src, "w") as f:
        f.write(prog)
    with open(inp, "wb") as f:
        f.write(data)
    os.chmod(src, 0o644), os.chmod(inp, 0o644)
    r = H.run(["/bin/sh", "-c", '{ "$0" "$1" < "$2"; echo "rc=$?" >&2; } | od -An -v -tx1 -w4096', H.exe("slang"), src, inp], timeout=30)
    status = [l for l in r.err.splitlines() if l.startswith("rc=")]
    return (int(status[-1][3:]) if status and not r.timeout else None), bytes.fromhex(r.out.replace("\n", " ")), r


def sequences(n):
    for l in range(1, n + 1):
        yield from itertools.product(OPS, repeat=l)


def judge(name, prog, data, expect, st, tr):
    rc, out, r = run_files(prog, data)
    if rc == 0 and out == expect:
        return (name, st, tr, None, None)
    k = next((i for i, (a, b) in enumerate(zip(out, expect)) if a != b), min(len(out), len(expect)))
    return (name, st, tr, ("%s: status %s, output differs at byte %d: %r instead of %r" % (name, rc, k, out[max(0, k - 8):k + 16], expect[max(0, k - 8):k + 16]),
                           {"case.os": prog, "in.bin": data.hex(), "expected": expect.hex(), "got": out.hex()}), None)


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def expand_streams(th):
    def f(shard, ns):
        for i, part in enumerate(chunks(sequences(4 if th else 3), CHUNK)):
            if i % ns != shard:
                continue
            tr = sum(len(s) for s in part)
            # writing: value, then the returned number of bytes
            code, exp = "", b""
            for s in part:
                for k, n in s:
                    lit, raw, _ = VALUES[k][n]
                    code += 'r = write%s(1, %s); t = t + r + ",";\n' % (k, lit)
                    exp += raw
                code += 'writes(1, "|" + t + "|"); t = "";\n'
                exp += b"|" + b"".join(b"%d," % len(VALUES[k][n][1]) for k, n in s) + b"|"
            yield judge("write %s.." % (part[0],), "public void Main(int argc, string args) modify throws { int r; string t;\n%s}\n" % code, b"", exp, tr + len(part), tr)
            # reading: the same streams are the input
            code, exp, data = "", b"", b""
            for s in part:
                for k, n in s:
                    lit, raw, shown = VALUES[k][n]
                    code += 'print(read%s(0%s));\n' % (k, ", %d" % len(raw) if k == "s" and len(raw) != 1 else "")
                    data += raw
                    exp += shown.encode() + b"\n"
            code += 'print("[" + reads(0, -1) + "]"); print(readi(0)); print("[" + reads(0) + "]");\n'
            for rest in (b"", b"r\nest"):
                yield judge("read %s.. %r" % (part[0], rest), "public void Main(int argc, string args) modify throws {\n%s}\n" % code, data + rest, exp + b"[" + rest + b"]\n0\n[]\n", tr + len(part), tr)
    return f


PIECES = [("echo a", "a\n"), ("printf b", "b"), ("echo", "\n"), ("true", ""), ("false", ""), ("echo x 1>&2", ""), ("printf %0126d 0", "0" * 126), ("printf %0127d 0", "0" * 127), ("printf %0128d 0", "0" * 128),
          ("printf %0300d 0", "0" * 300), ("echo  two  words", "two words\n"), ("echo $VP", "val\n"), ("(exit 3)", "")]
BAD = [("readb(%d)", 0), ("readi(%d)", 0), ("readf(%d)", 0), ("readd(%d)", 0), ("reads(%d, 1)", 0), ("reads(%d, -1)", 0), ("writeb(%d, true)", 0), ("writei(%d, 5)", 0), ("writef(%d, 1.5f)", 0), ("writed(%d, 1.5d)", 0), ('writes(%d, "abc")', 0), ('writes(%d, "")', "0"),
       ("close(%d)", "-1"), ("shutdown(%d, 2)", "-1")]
GOOD = [('readi(0)', "65", struct.pack("<i", 65)), ('reads(0, 2)', "xy", b"xy"), ('readb(0)', "1", b"\1")]


def expand_commands(th):
    def f(shard, ns):
        # commands
        seqs = [s for l in range(1, 5 if th else 4) for s in itertools.product(PIECES, repeat=l)]
        for i, part in enumerate(chunks(seqs, 40)):
            if i % ns != shard:
                continue
            code = "".join('print("[" + system("%s") + "]");\n' % "; ".join(p[0] for p in s) for s in part)
            exp = "".join("[%s]\n" % "".join(p[1] for p in s) for s in part).encode()
            tr = sum(len(s) for s in part)
            yield judge("commands %s.." % [p[0] for p in part[0]], 'public void Main(int argc, string args) modify throws { setenv("VP", "val", 1);\n%s}\n' % code, b"", exp, tr + len(part), tr)
        # failing operations between good ones, as many as fit in the bound
        j = 0
        for l in range(1, 4):
            for bads in itertools.product(BAD, repeat=l):
                for h in (99, -1):
                    j += 1
                    if j % ns != shard:
                        continue
                    code, exp, data = "", b"", b""
                    for n, (b, res) in enumerate(bads):
                        code += 'try { print(%s); } catch { print("failed"); }\n' % (b % h)
                        exp += (res if res else "failed").encode() + b"\n"
                        g = GOOD[(j + n) % len(GOOD)]
                        code += "print(%s);\n" % g[0]
                        exp += g[1].encode() + b"\n"
                        data += g[2]
                    code += "print(close(0)); print(close(0));\n"
                    exp += b"0\n-1\n"
                    yield judge("failing %s" % [b[0] % h for b in bads], "public void Main(int argc, string args) modify throws {\n%s}\n" % code, data, exp, 2 * l + 2, 2 * l + 2)
    return f


def main():
    c = H.Check("C39", assumptions=["a value of which the stream holds only a part, and input that is read both through descriptors and through the console, are not constrained", "sockets are not connected, descriptors refer to files and pipes"])
    H.build(("slang",))
    c.bounds = {"operations on a descriptor": 4 if c.thorough else 3, "values": len(OPS), "pieces of a command": 4 if c.thorough else 3, "failing operations": 3}
    c.run_judged(expand_streams(c.thorough), nshards=48)
    if not c.violations:
        c.run_judged(expand_commands(c.thorough), nshards=48)
    c.finish()


if __name__ == "__main__":
    H.main(main)

"""C37: JSON builders produce exactly the document that was described to them.

Model: a document under construction (a stack of open arrays and objects).  Every well-formed sequence of builder calls up to a
bound is replayed on each of the three builders; the resulting text is parsed by an independent parser
(repeated names kept) and compared with the model."""
import sys, os, itertools, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

# scalar -> (code, value, builders that offer it as element, ... as value)
SCALARS = {
    "int": ("7", 7, "BYS", "BYS"), "negative": ("-3", -3, "BYS", "BYS"), "zero": ("0", 0, "BYS", "BYS"),
    "text": ('"t x"', "t x", "BYS", "BYS"), "empty": ('""', "", "BYS", "BYS"), "digits": ('"12"', "12", "BYS", "BYS"), "braces": ('"{[,:]}"', "{[,:]}", "BYS", "BYS"),
    "true": ("true", True, "BYS", "BYS"), "false": ("false", False, "BYS", "BYS"),
    "float": ("2.5f", 2.5, "YS", "S"), "double": ("-0.25d", -0.25, "YS", "S"), "object text": (None, {"q": 1}, "S", "S"),
}
NAMES = {"B": ("b$$.", ("addElement", "addValue", "beginArray", "beginObject", "endArray", "endObject", "getString")),
         "Y": ("b$$.", ("addElement", "addValue", "beginArray", "beginObject", "endArray", "endObject", "getString")),
         "S": ("Json.", ("AddElement", "AddValue", "BeginArray", "BeginObject", "EndArray", "EndObject", "GetString"))}


def docs(budget, depth, scal):
    """all lists of (kind, payload) members with at most budget nodes; a container's payload is such a list"""
    yield ()
    if budget == 0:
        return
    for k in scal:
        for rest in docs(budget - 1, depth, scal):
            yield (("s", k),) + rest
    if depth:
        for kind in "ao":
            for used in range(0, budget):
                for inner in exact(used, depth - 1, scal):
                    for rest in docs(budget - 1 - used, depth, scal):
                        yield ((kind, inner),) + rest


def exact(n, depth, scal):
    if n == 0:
        yield ()
        return
    for k in scal:
        for rest in exact(n - 1, depth, scal):
            yield (("s", k),) + rest
    if depth:
        for kind in "ao":
            for used in range(0, n):
                for inner in exact(used, depth - 1, scal):
                    for rest in exact(n - 1 - used, depth, scal):
                        yield ((kind, inner),) + rest


def code(doc, builder, keyed, lvl=0):
    """(calls, value) of the members of an object (keyed) or array"""
    pre, (el, va, ba, bo, ea, eo, gs) = NAMES[builder]
    out, val = [], []
    for i, (k, p) in enumerate(doc):
        key = "abc"[i % 3] * (1 + lvl)
        arg = '"%s", ' % key if keyed else ""
        if k == "s":
            c, v = SCALARS[p][0], SCALARS[p][1]
            if p == "object text":
                out.append('%sAddObject(%s"{ \\"q\\": 1 }");' % (pre, arg))
                v = [("q", 1)]
            else:
                out.append("%s%s(%s%s);" % (pre, el if keyed else va, arg, c))
        else:
            inner, v = code(p, builder, k == "o", lvl + 1)
            out += ["%s%s(%s);" % (pre, bo if k == "o" else ba, arg[:-2])] + inner + ["%s%s();" % (pre, eo if k == "o" else ea)]
            v = (k, v)
        val.append((key, v) if keyed else v)
    return out, val


def plain(v):
    """comparable form: bools may be written as numbers, objects are lists of pairs"""
    if isinstance(v, tuple) and v and v[0] == "a":
        return ["a"] + [plain(x) for x in v[1]]
    if isinstance(v, tuple) and v and v[0] == "o":
        return ["o"] + [[k, plain(x)] for k, x in v[1]]
    if isinstance(v, list) and v and isinstance(v[0], tuple):
        return ["o"] + [[k, plain(x)] for k, x in v]
    if isinstance(v, bool):
        return int(v)
    return v


def parse(text):
    def conv(v):
        if isinstance(v, Pairs):
            return ["o"] + [[k, conv(x)] for k, x in v.p]
        if isinstance(v, list):
            return ["a"] + [conv(x) for x in v]
        return int(v) if isinstance(v, bool) else v
    return conv(json.loads(text, object_pairs_hook=Pairs))


class Pairs:
    def __init__(self, p):
        self.p = p


def usable(doc, b, keyed):
    return all(b in SCALARS[p][2 if keyed else 3] if k == "s" else usable(p, b, k == "o") for k, p in doc)


def nodes(doc):
    return sum(1 if k == "s" else 2 + nodes(p) for k, p in doc)


def space(th):
    seen = set()
    for budget, depth, scal in ((2, 2, tuple(SCALARS)), (6 if th else 5, 3, ("int", "text")), (3, 2, ("int", "empty", "false", "double"))):
        for d in docs(budget, depth, scal):
            if d not in seen:
                seen.add(d)
                yield d


def expand(th):
    def f(shard, ns):
        mine = {"B": [], "Y": [], "S": []}
        i = 0
        for d in space(th):
            for b in "BYS":
                if usable(d, b, True):
                    i += 1
                    if i % ns == shard:
                        mine[b].append(d)
        for b, ds in mine.items():
            for at in range(0, len(ds), 60):
                yield from batch(b, ds[at:at + 60])
    return f


def batch(b, part):
    """the structured builder has one state for the whole program: its document grows, the others start anew"""
    src = ["import libJsonBuilder.%s;" % {"B": "Builder", "Y": "StyledBuilder", "S": "StructuredBuilder"}[b]]
    want, total, calls = [], [], []
    for n, d in enumerate(part):
        c, v = code(d, b, True)
        total = total + v if b == "S" else v
        want.append(plain(("o", list(total))))
        new = {"B": "Json.Builder b = new Json.Builder(); ", "Y": "Json.StyledBuilder b = new Json.StyledBuilder(); ", "S": ""}[b]
        calls.append("public void c%d() modify { %s%s print(%s%s()); print(\"%%%%%%%%\"); }" % (n, new, " ".join(c).replace("b$$", "b"), "Json." if b == "S" else "b.", NAMES[b][1][6]))
    src += calls + ["public void Main(int argc, string args) modify { %s }" % " ".join("c%d();" % n for n in range(len(part)))]
    text = "\n".join(src)
    r = H.run_source(text, timeout=60)
    outs = r.out.split("%%%%\n")
    for n, d in enumerate(part):
        name = "%s builder: %s" % ({"B": "plain", "Y": "styled", "S": "structured"}[b], d)
        st = nodes(d)
        bad = None
        if n + 1 >= len(outs):
            bad = "no document was produced: %s" % (r.err or r.out)[-300:]
        else:
            try:
                got = parse(outs[n])
                if got != want[n]:
                    bad = "document %r instead of %r" % (got, want[n])
            except ValueError as e:
                bad = "no valid document: %s" % e
        yield name, st + 1, st, None if bad is None else (bad, {"case.os": text, "expected.txt": json.dumps(want[n]), "actual.txt": outs[n] if n < len(outs) else r.out + r.err}), None
        if bad and b == "S":
            return


def main():
    c = H.Check("C37", assumptions=["truth values may be written as numbers", "texts hold neither quotes nor backslashes (the builders do not escape)"])
    H.build(("slang",))
    c.bounds = {"nodes of a document": 6 if c.thorough else 5, "nesting": 3, "kinds of values": len(SCALARS)}
    c.run_judged(expand(c.thorough), nshards=48)
    c.finish()


if __name__ == "__main__":
    H.main(main)

"""C19: JSON values survive writing and reading unchanged."""
import sys, os, itertools, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

FULL = False

PRE = r'''import System.Collections.Pair;
import libJson.Reader; import libJson.Writer;
public string dump(JsonValue v) throws {
	if ( v.isNull() ) { return "N"; }
	if ( v.isBool() ) { return v.asBool() ? "T" : "F"; }
	if ( v.isNumber() ) { return "#" + cast<string>(v.asDouble()); }
	if ( v.isString() ) { return "'" + v.asString() + "'"; }
	string r;
	if ( v.isArray() ) {
		JsonArray a = v.asArray();
		foreach ( JsonValue x : a ) { r += dump(x) + ","; }
		return "[" + cast<string>(a.size()) + r + "]";
	}
	if ( v.isObject() ) {
		JsonObject o = v.asObject();
		foreach ( Pair<string, JsonValue> p : o ) { r += "'" + p.first + "':" + dump(p.second) + ","; }
		return "{" + cast<string>(o.size()) + r + "}";
	}
	return "?";
}
public string rd(string text) modify throws {
	try { JsonReader r = new JsonReader(); JsonValue v = r.parse(text); return dump(v); }
	catch ( string e ) { return "ex"; }
	catch ( IException e ) { return "ex"; }
	return "??";
}
public void pr(string text) modify throws { print(rd(text)); }
public void tx(string text) modify throws { print("T<" + text + ">T"); print(rd(text)); }
public void all(JsonValue v) modify throws {
	print(dump(v));
	tx(v.toString());
	JsonWriter w = new JsonWriter(); tx(w.toString(v));
	JsonStyledWriter s = new JsonStyledWriter(); tx(s.toString(v));
	print(rd(v.toString()) == rd(cast<string>(v)));
}
public string nl() { return LINEBREAK_UNIX; }
public string cr() { return substr(LINEBREAK_DOS, 0, 1); }
public string tab() { return TABULATOR; }
'''


# -- values: None, bool, Num(text), str, list, Obj(pairs)
class Num:
    def __init__(self, text):
        self.text = text


class Obj:
    def __init__(self, pairs):
        self.pairs = pairs


def fmt(x):
    """a double as it is printed"""
    t = "%.6f" % x
    return t.rstrip("0").rstrip(".")


def dump(v):
    if v is None:
        return "N"
    if v is True or v is False:
        return "T" if v else "F"
    if isinstance(v, Num):
        return "#" + fmt(float(v.text))
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, list):
        return "[%d%s]" % (len(v), "".join(dump(x) + "," for x in v))
    return "{%d%s}" % (len(v.pairs), "".join("'%s':%s," % (k, dump(x)) for k, x in v.pairs))


def text(v, sep=("", "")):
    """JSON text of a value as list of tokens"""
    if isinstance(v, Num):
        return [v.text]
    if isinstance(v, list):
        out = ["["]
        for i, x in enumerate(v):
            out += ([","] if i else []) + text(x)
        return out + ["]"]
    if isinstance(v, Obj):
        out = ["{"]
        for i, (k, x) in enumerate(v.pairs):
            out += ([","] if i else []) + [json.dumps(k), ":"] + text(x)
        return out + ["}"]
    return [json.dumps(v)]


class Duplicate(Exception):
    pass


def pairs(p):
    if len({k for k, _ in p}) != len(p):
        raise Duplicate
    return Obj(p)


def parse(t):
    """independent reading of a JSON text, ValueError if it is none"""
    def no(x):
        raise ValueError(x)
    return json.loads(t, object_pairs_hook=pairs, parse_int=Num, parse_float=Num, parse_constant=no)


def lit(s):
    """slang expression for a text"""
    if s == "":
        return '""'
    out = []
    for part in re.findall(r"[^\n\r\t]+|[\n\r\t]", s):
        out.append({"\n": "nl()", "\r": "cr()", "\t": "tab()"}.get(part) or '"%s"' % part.replace("\\", "\\\\").replace('"', '\\"'))
    return " + ".join(['""'] + out if out[0][0] != '"' else out)


def lines(s):
    return s.replace("\r\n", "\n").split("\n") if "\r" in s else s.split("\n")


def canon(m):
    try:
        return "T:" + dump(parse(m.group(1)))
    except (ValueError, Duplicate):
        return "T:invalid"


def norm(out):
    """written texts are compared by the value they denote"""
    return re.sub(r"T<(.*?)>T", canon, out.replace("\r\n", "\n"), flags=re.S)


def build(v, var, code):
    """statements that build v in variable var -> expression of type JsonValue"""
    if v is None:
        return "new JsonValue()"
    if isinstance(v, bool):
        return "new JsonValue(%s)" % ("true" if v else "false")
    if isinstance(v, Num):
        return "new JsonValue(%s)" % (v.text + "d" if "." in v.text else v.text)
    if isinstance(v, str):
        return "new JsonValue(%s)" % lit(v)
    n = "v%d" % var[0]
    var[0] += 1
    if isinstance(v, list):
        code.append("JsonArray %s = new JsonArray();" % n)
        for x in v:
            e = build(x, var, code)
            code.append("%s.addMember(%s);" % (n, e))
    else:
        code.append("JsonObject %s = new JsonObject();" % n)
        for k, x in v.pairs:
            e = build(x, var, code)
            if isinstance(x, (list, Obj)) or x is None or var[1] == 0:
                code.append("%s.addMember(%s, %s);" % (n, lit(k), e))
            else:
                code.append("%s.addMember(%s, %s);" % (n, lit(k), e[len("new JsonValue("):-1]))
    return n


def values(depth, scalars, keys, width):
    """all values up to the depth and width"""
    if depth == 0:
        return list(scalars) + [[], Obj([])]
    sub = values(depth - 1, scalars, keys, width)
    out = list(scalars)
    for w in range(width + 1):
        for c in itertools.product(sub, repeat=w):
            out.append(list(c))
            for ks in itertools.permutations(keys, w):
                out.append(Obj(list(zip(ks, c))))
    return out


SC = [None, True, False, Num("0"), Num("-7"), Num("1.5"), "", "a", 'q"q', "b\\n", "l\nl", "t\tr\rn", "null"]
KEYS = ["k", "", 'x"\\', "n\n"]


def sets():
    yield "wide", values(1, SC, KEYS[:2] if not FULL else KEYS, 2)
    yield "keys", values(1, [Num("1"), "s"], KEYS, 2)
    yield "deep", values(2, [Num("1"), "s"], ["k", "m"], 2 if FULL else 1)
    yield "deepest", values(4, [Num("1")], ["k"], 1)
    yield "long", values(1, [Num("1"), None, True], ["k", "m", "n"], 3)


def do_values(shard, ns):
    k = 0
    for name, vs in sets():
        for i, v in enumerate(vs):
            for style in (0, 1):
                k += 1
                if k % ns != shard:
                    continue
                if style and not isinstance(v, Obj):
                    continue
                code, var = [], [0, style]
                e = build(v, var, code)
                t = "T<" + "".join(text(v)) + ">T"
                d = lines(dump(v))
                exp = list(d)
                for _ in range(3):
                    exp += t.split("\n") + d
                exp += ["1"]
                arg = e if not isinstance(v, (list, Obj)) else "JsonValue " + e
                yield H.Case("%s %d style %d: %s" % (name, i, style, "".join(text(v))[:60]), "",
                             [("{ " + " ".join(code) + " all(%s); }" % arg, exp)], states=1 + len(code), trans=7)
                # the text itself, with different white space between the tokens
            tk = text(v)
            for sep in (("", " ", "\n", "\t", "\r\n") if name == "wide" else ("",)):
                k += 1
                if k % ns != shard:
                    continue
                s = sep + sep.join(tk) + sep
                yield H.Case("read %r" % s, "", [("pr(%s);" % lit(s), lines(dump(v)))], states=len(tk) + 1, trans=len(tk))


TOKENS = ["[", "]", "{", "}", ",", ":", "1", '"a"', '"b"', "true"]


def expected(t):
    """-> lines of dump, 'ex', or None where the reader may choose"""
    try:
        return lines(dump(parse(t)))
    except Duplicate:
        return None
    except ValueError:
        return ["ex"]


def do_tokens(shard, ns):
    k = 0
    for n in range(1, (6 if FULL else 4) + 1):
        for tk in itertools.product(TOKENS[:8] if n == 6 else TOKENS, repeat=n):
            k += 1
            if k % ns != shard:
                continue
            t = " ".join(tk)
            e = expected(t)
            if e is None:
                continue
            yield H.Case("tokens " + t, "", [("pr(%s);" % lit(t), e)], states=n + 1, trans=n)


def do_corrupt(shard, ns):
    """every deletion, duplication, exchange and insertion of a token"""
    k = 0
    seen = set()
    for v in values(2, [Num("1"), "a"], ["k", "m"], 1) + values(1, [Num("1"), None], ["k", "m"], 2) + values(3, [True], ["k"], 1):
        tk = text(v)
        for i in range(len(tk)):
            alts = [tk[:i] + tk[i + 1:], tk[:i + 1] + tk[i:], tk[:i] + tk[i + 1:i + 2] + tk[i:i + 1] + tk[i + 2:]]
            alts += [tk[:i] + [x] + tk[i:] for x in TOKENS] + [tk[:i] + [x] + tk[i + 1:] for x in TOKENS]
            if i == len(tk) - 1:
                alts += [tk + [x] for x in TOKENS]
            for a in alts:
                t = " ".join(a)
                if not t or t in seen:
                    continue
                seen.add(t)
                k += 1
                if k % ns != shard:
                    continue
                e = expected(t)
                if e is None:
                    continue
                yield H.Case("corrupted " + t, "", [("pr(%s);" % lit(t), e)], states=len(a) + 1, trans=len(a))


def do_strings(shard, ns):
    k = 0
    for n in range(0, (6 if FULL else 4) + 1):
        for cs in itertools.product('a"\\nrt/' if n < 6 else 'a"\\n', repeat=n):
            k += 1
            if k % ns != shard:
                continue
            body = "".join(cs)
            # escape sequences JSON does not have are up to the reader
            if re.search(r"\\[^\"\\nrt/]", re.sub(r"\\\\", "", body)):
                continue
            for t in ('"%s"' % body, '[ "%s" ]' % body, '{ "%s": "%s" }' % (body, body)):
                e = expected(t)
                if e is None:
                    continue
                yield H.Case("string " + t, "", [("pr(%s);" % lit(t), e)], states=n + 2, trans=n + 2)


def do_numbers(shard, ns):
    k = 0
    for n in range(1, (6 if FULL else 4) + 1):
        for cs in itertools.product("01-+.eE" if n < 6 else "01-.e", repeat=n):
            k += 1
            if k % ns != shard:
                continue
            t = "".join(cs)
            if t[0] in "eE":
                continue
            e = expected(t)
            if e == ["ex"] and re.fullmatch(r"[+-]?\d+(\.\d+)?([eE][+-]?\d+)?", t):
                continue    # a plus sign or leading zeros: up to the reader
            if e != ["ex"] and abs(float(t)) > 1e9:
                continue
            yield H.Case("number " + t, "", [("pr(%s);" % lit(t), e), ("pr(%s);" % lit("[" + t + "]"), e if e == ["ex"] else ["[1" + e[0] + ",]"])], states=n + 2, trans=n * 2 + 2)


# -- members of objects and elements of arrays as they are changed
def do_ops(shard, ns):
    OPS = [("a", k, v) for k in "km" for v in ("1", '"s"')] + [("s", k, v) for k in "km" for v in ("2", "true")]
    look = ('print(o.size()); print(o.isMember("k")); print(o.isMember("m")); print(dump(JsonValue o)); '
            'try { print(dump(o["k"])); } catch { print("ex"); } try { print(dump(o[1])); } catch { print("ex"); }')
    val = {"1": Num("1"), '"s"': "s", "2": Num("2"), "true": True}
    k = 0
    for n in range(0, (5 if FULL else 3) + 1):
        for seq in itertools.product(OPS, repeat=n):
            k += 1
            if k % ns != shard:
                continue
            m, code, exp, bad = [], "JsonObject o = new JsonObject(); ", [], False

            def observe():
                keys = [x for x, _ in m]
                out = [str(len(m)), str(int("k" in keys)), str(int("m" in keys)), dump(Obj(m))]
                out.append(dump(dict(m)["k"]) if "k" in keys else "ex")
                out.append(dump(m[1][1]) if len(m) > 1 else "ex")
                return out

            for op, key, v in seq:
                keys = [x for x, _ in m]
                if op == "a":
                    if key in keys:
                        bad = True
                        break
                    m.append((key, val[v]))
                    code += 'o.addMember("%s", %s); ' % (key, v)
                else:
                    code += 'o.set("%s", new JsonValue(%s)); ' % (key, v)
                    if key in keys:
                        m[keys.index(key)] = (key, val[v])
                    else:
                        m.append((key, val[v]))
            if bad:
                continue
            yield H.Case("object " + " ".join("".join(x) for x in seq), "", [("{ " + code + look + " }", observe())], states=n + 1, trans=n + 6)
    # a value that is set again and again
    SETS = [("setValue(1)", Num("1")), ("setValue(2.5d)", Num("2.5")), ('setValue("x")', "x"), ("setValue(false)", False),
            ("setValue(new JsonValue(3))", Num("3")), ('setValue(new JsonValue("y"))', "y"), ("setValue(new JsonValue())", None)]
    for n in range(1, (5 if FULL else 4)):
        for seq in itertools.product(SETS, repeat=n):
            k += 1
            if k % ns != shard:
                continue
            code, exp = "JsonValue v = new JsonValue(); ", []
            for c, x in seq:
                code += "v.%s; print(dump(v)); pr(v.toString()); " % c
                exp += [dump(x), dump(x)]
            yield H.Case("value " + " ".join(c for c, _ in seq), "", [("{ " + code + " }", exp)], states=n + 1, trans=n * 3)
    # numbers of every width, built and set
    for c, t in [(x + "d", x) for x in ("0.5", "0.25", "123456.789", "16777217.5", "2147483647.5", "0.000001", "1234567890.125", "99999.999999")] + \
            [(x + "f", x) for x in ("0.5", "0.25", "1024.125", "4095.5")] + [(x, x) for x in ("7", "65535", "65536", "16777217", "2147483647")]:
        for sign in ("", "-"):
            k += 1
            if k % ns != shard:
                continue
            x = Num(sign + t)
            code = "JsonValue v = new JsonValue(%s%s); all(v); JsonValue w = new JsonValue(); w.setValue(%s%s); all(w); JsonObject o = new JsonObject(); o.addMember(\"n\", %s%s); all(JsonValue o); " % ((sign, c) * 3)
            n = fmt(float(x.text))
            exp = []
            for y, tx in ((x, n), (x, n), (Obj([("n", x)]), '{"n":%s}' % n)):
                exp += [dump(y)] + ["T<" + tx + ">T", dump(y)] * 3 + ["1"]
            yield H.Case("number %s%s" % (sign, c), "", [("{ " + code + " }", exp)], states=3, trans=12)
    # elements by index
    for n in range(0, 4):
        for vs in itertools.product((("1", Num("1")), ('"s"', "s"), ("true", True)), repeat=n):
            k += 1
            if k % ns != shard:
                continue
            code, exp = "JsonArray a = new JsonArray(); ", []
            for c, x in vs:
                code += "a.addMember(new JsonValue(%s)); " % c
            code += "print(a.size()); "
            exp.append(str(n))
            for i in range(-1, n + 2):
                code += 'try { print(dump(a[%d])); } catch { print("ex"); } ' % i
                exp.append(dump(vs[i][1]) if 0 <= i < n else "ex")
            code += "JsonValue w = new JsonValue(a); all(w); "
            d = dump([x for _, x in vs])
            t = "T<" + "".join(text([x for _, x in vs])) + ">T"
            exp += [d, t, d, t, d, t, d, "1"]
            yield H.Case("array %s" % (vs,), "", [("{ " + code + " }", exp)], states=n + 1, trans=2 * n + 3)


def main():
    global FULL
    c = H.Check("C19", assumptions=["member names of an object differ", "numbers keep six decimals when they are printed",
                                    "escape sequences by character code are left out", "texts that only differ from JSON by unquoted names, letter case of true, false and null, plus signs or leading zeros are up to the reader"])
    H.build(("slang",))
    FULL = c.thorough
    c.bounds = {"value depth and width": "1x2 over 13 scalars, 2x%d, 4x1" % (2 if FULL else 1), "tokens of a text": 6 if FULL else 4,
                "characters of a string": 6 if FULL else 4, "characters of a number": 6 if FULL else 4, "object operations": 5 if FULL else 3}
    for f in (do_values, do_tokens, do_corrupt, do_strings, do_numbers, do_ops):
        if not c.violations:
            c.run_cases(f, prelude=PRE, batch=200, norm=norm)
    c.finish()


if __name__ == "__main__":
    H.main(main)

"""Payload id and custom field lists: parsing, downloading, falling back."""


class Answer:
    def __init__(self, text): self.text = text


def lookup(e, d, k):
    """(found, value) of k in d, forking on symbolic keys"""
    for q in list(d):
        if q == k: return True, d[q]
    return False, None


def line_of(e, k, kind):
    """(text, (id, callsign) or None)"""
    tag = "l%d" % k
    if kind == "blank": return "", None
    if kind == "spaces": return "  ", None
    if kind == "comment":
        t = e.str(tag + "_c", 3, 32, 126)
        return "#" + t, None
    if kind == "one field":
        t = e.str(tag + "_c", 3, 36, 126)
        for i in range(3): e.assume(t[i] != ",")
        return t, None
    if kind == "three fields": return "2" + str(k) + "7,AB,C", None
    if kind == "no number":
        t = e.str(tag + "_c", 2, 58, 94)
        return t + ",NAME", None
    n = e.params.get("digits", 3)
    ds = [e.int("%s_d%d" % (tag, i), 0, 9) for i in range(n)]
    v = 0
    for x in ds: v = v * 10 + x
    text = "".join([chr(48 + x) for x in ds])
    call = e.str(tag + "_n", e.params.get("call", 2), 45, 122)
    return text + "," + {"plain": "", "spaced": " "}[kind] + call + {"plain": "", "spaced": " \r"}[kind], (v, call)


KINDS = ["plain", "spaced", "blank", "spaces", "comment", "one field", "three fields", "no number"]


def payload_lines(e):
    """the list has the built-in payloads and every well-formed line's, later lines winning; other lines change nothing"""
    m = e.mod("payloads")
    n = e.params["n"]
    base = dict(m.HORUS_PAYLOAD_LIST)
    parts, want = [], [(q, base[q]) for q in base]
    for k in range(n):
        t, entry = line_of(e, k, e.pick("kind%d" % k, e.params.get("kinds", KINDS)))
        parts.append(t)
        if entry: want.append(entry)
    text = "\n".join(parts)
    if e.params.get("end", True): text = text + "\n"
    out = m.parse_payload_list(text)
    for i in range(len(want)):
        k, v = want[i]
        if any(bool(want[j][0] == k) for j in range(i + 1, len(want))):
            e.cover("replaced")
            continue
        found, got = lookup(e, out, k)
        e.check(found, "a listed payload is missing")
        e.check(got == v, "callsign of a payload")
    for q in list(out): e.check(any(bool(q == k) for k, v in want), "a payload from nowhere")
    e.check(e.same(dict(m.HORUS_PAYLOAD_LIST), base), "the built-in list is left alone")
    e.cover("done")


def payload_any(e):
    """arbitrary text: nothing raised, the built-in payloads kept"""
    m = e.mod("payloads")
    base = dict(m.HORUS_PAYLOAD_LIST)
    out = m.parse_payload_list(e.str("t", e.params["n"], e.params.get("lo", 1), 127))
    for q in base:
        found, v = lookup(e, out, q)
        e.check(found, "a built-in payload is missing")
    e.cover("done")


def world(e, m, valid, invalid):
    """requests and open as stand-ins that fail at will"""
    w = type("W", (), {})()
    w.written, w.opened, w.gets = [], [], []
    w.down = e.pick("download", ["fault", "invalid", "valid"])
    w.text = {"fault": None, "invalid": invalid, "valid": valid}[w.down]

    def get(url, *a, **k):
        w.gets.append(k.get("timeout"))
        if w.down == "fault": raise RuntimeError("no network")
        return Answer(w.text)

    class File:
        def __init__(self, name, mode): self.name, self.mode = name, mode
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def close(self): pass
        def read(self): return w.local
        def write(self, t): w.written.append((self.name, t))

    def opener(name, mode="r", *a, **k):
        n = len(w.opened)
        w.opened.append((name, mode))
        if e.flag("open%d_fails" % n): raise OSError("cannot open")
        return File(name, mode)
    e.patch(m, "open", opener)
    e.patch(m.requests, "get", get)
    return w


def refreshed(e):
    """init_*: a valid download is used (and saved); otherwise the local list; otherwise the packaged one; otherwise the built-in one"""
    req = e.fake("requests")
    m = e.mod("payloads")
    custom = e.params["custom"]
    if custom:
        new, old = '{"HORUSTEST": {"struct": "<9B", "fields": [["n", "none"]]}, "NEWONE": {"struct": "<9s", "fields": []}}', '{"OLDONE": {"struct": "<9s", "fields": []}}'
        bad = '{"NEWONE": {"struct": "<9s", "fields": []}}'
    else:
        new, old, bad = "# HORUS BINARY PAYLOAD ID LIST\n777,NEWONE\n", "777,OLDONE\n", "777,NEWONE\n"
    w = world(e, m, new, bad)
    w.local = old
    nodl = e.flag("nodownload")
    fn = m.init_custom_field_list if custom else m.init_payload_id_list
    out = fn(filename="list.file", nodownload=nodl)
    names = set(out) if custom else set(out.values())
    e.check(({"HORUSTEST", "4FSKTEST-V2"} if custom else {"4FSKTEST", "HORUSBINARY", "4FSKTEST-V2"}) <= names, "the built-in entries are kept")
    reads = [o for o in w.opened if "w" not in o[1]]
    good = not nodl and w.down == "valid"
    e.check(len(w.gets) == (0 if nodl else 1), "one request at most")
    e.check(all(t is not None for t in w.gets), "the request has a time limit")
    if good:
        e.check("NEWONE" in names and "OLDONE" not in names, "the downloaded list is used")
        e.check(not reads, "no local list needed")
        e.check(not w.written or "".join(t for f, t in w.written) == new and {f for f, t in w.written} == {"list.file"}, "what was downloaded is saved")
        e.cover("downloaded")
    else:
        e.check(w.written == [], "nothing is saved without a valid download")
        e.check("NEWONE" not in names, "an invalid download is not used")
        e.check(len(reads) in (1, 2) and reads[0][0] == "list.file", "the local list is tried first")
        if "OLDONE" in names: e.cover("local")
        else: e.cover("built in")
        ok = [not e.flag("open%d_fails" % i) if i < len(w.opened) else False for i in range(0)]
    if nodl: e.cover("no download")


STRUCTS = [("<9s", True), ("<BbBfH", True), ("<hhBHxx", True), ("<8s", False), ("<d", False), ("nonsense", False), ("", False), (9, False), (None, False)]


def custom_entries(e):
    """each entry stands alone: taken when its struct is 9 bytes and it has fields, with the payloads it names; otherwise it changes nothing"""
    m = e.mod("payloads")
    n = e.params["n"]
    base = {q: dict(m.HORUS_CUSTOM_FIELDS[q]) for q in m.HORUS_CUSTOM_FIELDS}
    doc, want = {}, dict(base)
    for k in range(n):
        name = e.pick("name%d" % k, ["PAY%d" % k, "HORUSTEST2"]) if k == 0 else "PAY%d" % k
        kind = e.pick("kind%d" % k, ["entry", "no struct", "no fields", "number", "null", "list", "text"])
        if kind in ("number", "null", "list", "text"):
            doc[name] = {"number": 5, "null": None, "list": [1, "struct"], "text": "struct fields"}[kind]
            e.cover("malformed")
            continue
        s, good = e.pick("struct%d" % k, e.params.get("structs", STRUCTS)) if kind == "entry" else ("<9s", False)
        d = {"struct": s, "fields": [["f%d" % k, "none"]]}
        if kind != "entry": d.pop(kind[3:])
        others = e.pick("others%d" % k, e.params.get("others", ["absent", "names", "empty", "number"]))
        if others != "absent": d["other_payloads"] = {"names": ["X%d" % k, "4FSKTEST-V2"], "empty": [], "number": 7}[others]
        doc[name] = d
        if good:
            ent = {"struct": s, "fields": [["f%d" % k, "none"]]}
            want[name] = ent
            if others == "names":
                want["X%d" % k] = ent
                want["4FSKTEST-V2"] = ent

    class Json:
        @staticmethod
        def loads(t, *a, **k):
            e.check(t == "text", "the text is parsed")
            return doc
    e.patch(m, "json", Json)
    out = m.parse_custom_field_list("text")
    e.check(set(out) == set(want), "payloads with custom fields")
    for q in want: e.check(out.get(q) == want[q], "custom fields of %s" % q)
    e.cover("done")


def custom_size(e):
    """the struct decides by its size alone, 9 bytes"""
    m = e.mod("payloads")
    a, b = e.int("a", 0, 9), e.int("b", 0, 9)
    s = "<" + chr(48 + a) + e.pick("c1", ["B", "h", "x", "s"]) + chr(48 + b) + e.pick("c2", ["b", "H", "f", "d"])
    size = a * {"B": 1, "h": 2, "x": 1, "s": 1}[s[2]] + b * {"b": 1, "H": 2, "f": 4, "d": 8}[s[4]]

    class Json:
        @staticmethod
        def loads(t, *a, **k): return {"PAY": {"struct": s, "fields": []}}
    e.patch(m, "json", Json)
    out = m.parse_custom_field_list("text")
    e.check(("PAY" in out) == (size == 9), "an entry is taken iff its struct is 9 bytes")
    e.cover("taken" if "PAY" in out else "refused")


def custom_text(e):
    """text that is no JSON object: the built-in entries"""
    m = e.mod("payloads")
    base = {q: dict(m.HORUS_CUSTOM_FIELDS[q]) for q in m.HORUS_CUSTOM_FIELDS}
    out = m.parse_custom_field_list(e.pick("t", ["", "{", "[]", "5", "null", "\"struct\"", "{\"a\":}", "[{\"struct\": \"<9s\", \"fields\": []}]"]))
    e.check(out == base, "the built-in entries")
    e.cover("done")

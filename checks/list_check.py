"""C14: list columns."""
import json, os

PUNCT = {"[", "]", "{", "}", ",", "sp"}
NUM = {"zero", "one", "neg", "max", "min", "over", "under", "frac", "huge", "word", "null", "quoted", "plus", "lead0"}
SYMBOLS = {
    ("json", "str"): {"[", "]", ",", "sp", '"', "\\", "a", "eacute", "n", "ctrl", "bad", "u00e9", "u000a", "/", "null", "{"},
    ("pg", "str"): {"{", "}", ",", "sp", '"', "\\", "a", "eacute", "NULL", "ctrl", "[", "nul"},
    ("json", "int"): PUNCT | NUM, ("json", "uint"): PUNCT | NUM, ("json", "float"): PUNCT | NUM | {"exp", "nan", "inf", "ninf"},
    ("pg", "int"): PUNCT | NUM, ("pg", "uint"): PUNCT | NUM, ("pg", "float"): PUNCT | NUM | {"exp", "nan", "inf", "ninf"},
    ("json", "bool"): PUNCT | {"true", "false", "t", "one", "null", "word"},
    ("pg", "bool"): PUNCT | {"true", "false", "t", "f", "one", "null", "word"},
    ("pg", "bytea"): PUNCT | {"hexempty", "hexab", "plain", "octal", "back", "hexodd", "hexbad", "octover", "octshort", "octbad", "null"},
}


def c14(c):
    b = c.ws.build(c.ws.harness("list"), "list", generated=False)
    c.log("built")
    d = os.path.join(c.tmp, "texts")
    os.makedirs(d)
    jobs = []
    for (syn, kind), sy in SYMBOLS.items():
        n = (7 if c.thorough else 6) if kind == "str" else (7 if c.thorough else 6)
        k = dict(Syn=syn, Kind=kind, Symbols=sy, MaxLen=n, MaxElems=3, Out=os.path.join(d, syn + "." + kind))
        jobs.append(("ListCodec", k, dict(invariants=["Lossless", "Whole"], properties=["Refused"], constraints=["Emit"], mem="6g", timeout=2400)))
    c.tlc_all(jobs)
    c.log("specification checked")
    tr, rj = os.path.join(c.tmp, "made"), os.path.join(c.tmp, "rejected")
    c.replay(b, [tr, d], timeout=3000)
    c.log("texts replayed")
    recs = [json.loads(l) for l in open(tr)]
    r = c.tlc("ListTrace", dict(In=tr, Out=rj), invariants=["Judge"], mem="8g", timeout=2400)
    if r["states"] < len(recs) + 1:
        raise RuntimeError("the recorded texts were not all read: %d of %d" % (r["states"], len(recs)))
    c.cov["texts_checked_against_spec"] = len(recs)
    if os.path.exists(rj):
        for l in open(rj):
            x = recs[int(json.loads(l)) - 1]
            c.violation("the text of a list is malformed or denotes another list", x["w"], "the text of a list is malformed or denotes another list",
                        x["x"], "list " + json.dumps(x["l"]))

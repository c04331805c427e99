"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))

TB = ("Trusted: rustc's MIR construction, the models of core/alloc/smallvec functions in analysis/models.py, and the "
      "specification tables in the check. What the analysis cannot follow is reported as undecided, in the output and in the evidence; on the current tree nothing is.")

prop("C01", "Every import added to a token stream stays reachable",
     "Enumerating the imports of a token stream yields every language item that was ever added to it exactly once, most recently added first, whether it was inserted, only registered, or arrived as part of another stream that was appended, extended or collected. No operation on a stream removes an import or makes the enumeration miss it.",
     ["inputs", "histories"], "All sequences of stream operations, starting from every reachable stream, with every kind of item.",
     "The tests register a handful of imports in fresh streams; the link structure depends on the whole history of appends, drops of pending whitespace and merges of streams.",
     ["src/tokens/tokens.rs", "src/tokens/format_into.rs", "src/tokens/internal.rs", "src/tokens/item.rs"],
     [("back-linked chain of language items and its head", "src/tokens/tokens.rs"), ("enumeration of imports", "src/tokens/tokens.rs")],
     "abstract interpretation of MIR: inductive invariant of the import chain",
     "Inductive: every function that touches the representation is run on an arbitrary stream that satisfies the chain invariant, all paths, all iteration counts, and has to re-establish it; the enumeration is shown to follow the chain. " + TB)

prop("C02", "Whitespace requests collapse and never disturb content",
     "Asking a token stream for whitespace never leaves redundant requests behind: line breaks and blank lines in a row collapse to one (a blank line wins), spaces in a row collapse to one, spaces before a plain line break and all pending whitespace before a change of indentation are absorbed, and adjacent changes of indentation merge into their sum and vanish if they cancel out. The same holds for whitespace arriving with another stream, and content and imports in the stream are never removed, reordered or altered by it.",
     ["inputs", "histories"], "All streams and all sequences of whitespace requests and appended items.",
     "Tests compare a few literal sequences; the collapse depends on what is pending, in any order and any number.",
     ["src/tokens/tokens.rs", "src/tokens/item.rs"],
     [("push, line, space, indentation and item dispatch", "src/tokens/tokens.rs")],
     "abstract interpretation of MIR: effect of each request on an arbitrary stream against a table",
     "Each request is run on an arbitrary stream; the dropped, kept and appended items of every path are compared with the specification, sums of indentation by affine equality (saturation at the limits of the counter is not distinguished from addition). " + TB)

prop("C07", "Quoted text decodes to the original text in every language",
     "For every language, quoting a text produces the body of a string literal which, read by the rules of that language, denotes exactly the original text: no character ends the literal early, starts an interpolation, merges with a neighbour into another escape, or is lost or changed. This holds for each possible sequence of characters.",
     ["inputs"], "All texts (all sequences of Unicode scalar values) and all supported languages which quote text.",
     "Tests quote a dozen fixed strings; the escape tables cover 1.1 million code points and their adjacency.",
     ["src/lang/mod.rs", "src/lang/js.rs", "src/lang/dart/mod.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/go.rs",
      "src/lang/c.rs", "src/lang/nix.rs", "src/lang/python.rs", "src/lang/rust.rs", "src/lang/swift.rs"],
     [("escape tables per language", "src/lang/*.rs"), ("shared C-like escaping", "src/lang/mod.rs")],
     "abstract interpretation of MIR over character classes against per-language lexer tables",
     "Every path of the quoting loops is followed for an arbitrary character (as sets of code points) with its successor; the emitted fragments are decoded by tables of each language's literal grammar. The tables restate the language references and are trusted. " + TB)

import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 analysis/facts.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 analysis/main.py %s quick" % p["id"],
                 "thorough_cmd": "python3 analysis/main.py %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in P if p["technique"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["technique"]],
     "notes": "Static analysis only: facts are extracted from the compiler's MIR of the current tree by driver/, the deciding analyses are in analysis/. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties", len(m["checks"]), "checks")

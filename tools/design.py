"""Writes DESIGN.md from DESIGN.in.md, the jobs and the table of seeded bugs."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import jobs as J

HOW = {
 "C01": "Text with a symbolic hole is compiled under symbolic or custom syntaxes; the error, if any, is displayed in all three "
        "forms. Assertion: no panic, no overflow, no bad slice, an end within the step limit, `source()` is the given text. "
        "Tests cannot reach every byte next to every token; here every byte value in every surrounding is one path condition.",
 "C02": "Everything that compiles is rendered with values whose type and content are symbolic; also includes whose body refers to "
        "its includer's bindings, and recursion in seven forms. Assertion: text or a displayable error.",
 "C03": "Templates of up to three tags, with every combination of `-`, around symbolic text; oracle: `str::trim_*` applied to exactly "
        "the adjacent segments. Whitespace is decided over Unicode's own table as compiled into `core`.",
 "C04": "The real Aho-Corasick automaton is built by the crate from each delimiter set, also from *symbolic* delimiters, and run over "
        "symbolic text; oracle: the naive search of the reference. Failure-link and match-kind errors show up as a "
        "text which the two read differently.",
 "C05": "The characters of the literal are symbolic; oracle: 128-bit arithmetic with range checks (integers), the standard library on "
        "the listed spellings (floats), a direct unescape (strings). Any wrap or lost digit is a satisfiable inequality.",
 "C06": "Names in the programs are symbolic, so one program stands for every pattern of equality between its names: shadowing, "
        "capture, prefix names. Oracle: environment lookup of the reference interpreter.",
 "C07": "Each condition is a symbolic value of symbolic type (all 2^64 integers and floats); the reference computes truth "
        "independently, and markers show which bodies were rendered.",
 "C08": "Collections with symbolic length and items; the loop state is compared for every iteration. Long loops run concretely "
        "through the counter widths at which a narrower type would wrap.",
 "C09": "Acceptance by the crate == acceptance by the reference grammar for symbolic text, tokens, identifiers and sequences of tags; "
        "accepted templates are rendered and compared too, which makes this the widest relation of the set.",
 "C10": "Function names and operands are symbolic; every filter and formatter logs its name and arguments; the log and the output "
        "are compared with the reference.",
 "C11": "The writer's answer to every call is symbolic (short write, interruption, error of two kinds, zero, full): a fault schedule. "
        "Assertions: taken bytes are a prefix of the text of a string render, success iff no fault, the error's source is "
        "the injected one, no write after a fatal fault.",
 "C12": "Length and form of include chains, maximum depths on engine and renderer, and include names are symbolic; oracle: the depth rule of "
        "the documentation and an exact-name map, with calls of the template function logged.",
 "C13": "Symbolic histories of operations with symbolic names, compared step by step with a map.",
 "C14": "Each erroneous program is surrounded by symbolic text; the displayed error is parsed in the harness: name, line, "
        "column counted in characters, source line, marker range against the known offending text.",
 "C15": "Every serializer method with symbolic data, wrapped in containers; oracle: direct construction of the value; includes "
        "keys, duplicates, size hints, and integers out of range, which must be refused.",
 "C16": "Every parameter type over symbolic values from every place a value can come from; oracle: conversion rules of the documentation; "
        "155 signatures called with every arity.",
 "C18": "The harness crate is also built against `upon` without its features; the reference then knows no filters, only ASCII names and "
        "columns of characters. The same harnesses as for C01 to C09 and C14 run on that IR.",
 "C17": "The same program through every entry point, twice, with symbolic names; a value function logs the paths it is asked for.",
}
out = []
ev = lambda p, t: None
times = json.load(open(os.path.join(ROOT, "tools", "times.json"))) if os.path.exists(os.path.join(ROOT, "tools", "times.json")) else {}
for pid in sorted(J.PROPERTIES):
    p = J.PROPERTIES[pid]
    q, t = times.get(pid, ["?", "?"])
    hs = []
    for h, _, _ in p.jobs("thorough"):
        if h not in hs:
            hs.append(h)
    out.append("### %s %s\n%s\n\n* harnesses: %s; jobs: %d quick, %d thorough; q %s s, t %s s\n* bounds: %s\n* outside: %s\n" % (
        pid, p.title, HOW[pid], ", ".join("`%s`" % h for h in hs), len(p.jobs("quick")), len(p.jobs("thorough")), q, t,
        p.bounds, p.outside))
rows = ["| seeded bug | needs | caught by |", "|---|---|---|"]
cpath = os.path.join(ROOT, "tools", "caught.json")
caught = json.load(open(cpath)) if os.path.exists(cpath) else {}
sd = os.path.join(ROOT, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "\\|"), caught.get(i, "?")))
s = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
s = s.replace("@@PROPS@@", "\n".join(out).rstrip()).replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)

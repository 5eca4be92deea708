"""The jobs (harness and parameters) and bounds of every property."""

ASSUMPTIONS = [
    "rustc 1.79.0 compiles the crate to LLVM IR faithfully (release profile with debug assertions and overflow "
    "checks on, no vectorisation); counterexamples are confirmed and sampled paths compared in the dev and release "
    "profiles of the native build",
    "the symbolic executor (/verif/symex) interprets LLVM IR and its memory model correctly, Z3 4.8.12 is sound; every "
    "model is re-evaluated, and sampled paths are replayed natively and must give the same observations",
    "allocation never fails; hash seeds are fixed; default features of the crate (but see C18)",
    "the unicode-ident and unicode-width crates decide which characters are letters and how wide they are (the reference uses them as well)",
    "the reference in harness/src/model.rs states the intended language (SYNTAX.md and the API documentation)",
]


class Prop:
    def __init__(self, title, quick, thorough, reach, bounds, outside, assumptions=()):
        self.title, self.quick, self.thorough = title, quick, thorough
        self.reach, self.bounds, self.outside, self.assumptions = reach, bounds, outside, list(assumptions)

    def jobs(self, tier):
        js = self.quick() if tier == "quick" else self.quick() + self.thorough()
        seen, out = set(), []
        for j in js:
            k = (j[0], tuple(j[1]), j[2] if len(j) > 2 else "full")
            if k not in seen:
                seen.add(k)
                out.append((j[0], list(j[1]), k[2]))
        return out


PROPERTIES = {}


def prop(pid, **kw):
    PROPERTIES[pid] = Prop(**kw)


NCTX = 37
SIZES, MANY = (15, 63, 127, 255), 65535
CHEAP = (0, 1, 2, 3, 4, 6, 14, 23, 24)


def long(*kinds):
    """Programs of great size."""
    return ([("h_long", (k, n)) for k in kinds for n in SIZES] + [("h_long", (k, 1023)) for k in kinds if k in CHEAP + (5, 10, 12, 17, 18, 20, 21, 22)]
            + [("h_long", (k, MANY)) for k in kinds if k in CHEAP])


NPROG = 33

# -- C01 ----------------------------------------------------------------------
prop("C01",
     title="compiling never panics",
     quick=lambda: [("h_total", (c, 1, 2, 0, 0)) for c in range(NCTX)]
     + [("h_total", (c, 2, 2, 0, 0)) for c in (0, 1, 2, 5, 7, 13, 14, 17, 30)]
     + [("h_total", (c, 2, 3, 0, 0)) for c in (0, 1, 14, 17)]
     + [("h_total", (c, 2, 4, 0, 0)) for c in (0, 13)]
     + [("h_total", (c, 3, 4, 0, 0)) for c in (0, 1, 7, 14, 28)]
     + [("h_total", (0, 1, 2, s, 0)) for s in range(1, 8)]
     + [("h_total", (0, 3, 3, s, 0)) for s in range(1, 8)]
     + [("h_total", (c, 4, 11, 0, 0)) for c in range(NCTX)]
     + [("h_blocks", (3, 4))]
     + [("h_long", (k, 255)) for k in range(25)] + [("h_long", (k, MANY)) for k in CHEAP[:6]] + [("h_deep", (k, 40000)) for k in range(3)] + [("h_flat", (k, 20000)) for k in (0, 1, 5)] + [("h_flat", (k, 1000)) for k in (2, 3, 4)],
     thorough=lambda: [("h_total", (c, 1, 3, 0, 0)) for c in range(NCTX)]
     + [("h_total", (c, 0, 3, 0, 0)) for c in (0, 1, 5, 14, 17)]
     + [("h_total", (c, 2, 2, 0, 0)) for c in range(NCTX)]
     + [("h_total", (c, 3, 5, 0, 0)) for c in (0, 1, 7, 14)],
     reach={"h_total": [0, 1], "h_flat": [0, 1]},
     bounds="templates with a hole: 37 surroundings (every tag kind, literals, paths, blocks, comments, unclosed tags), 7 "
            "custom syntaxes; the hole is any 2 ASCII bytes, any one 2-, 3- or 4-byte character, any 4 (3) of the 18 "
            "lexer symbols, or one of 8 characters of 2 to 4 bytes between any two symbols (thorough: 3 bytes, any UTF-8 of 3 bytes, 5 symbols); any sequence of 3 out of 18 tags; "
            "up to 40000 nested blocks and 20000 tags in a row or left open (a path on which calls nest more than 6000 deep counts as a stack overflow if the real code overflows 8 MB there)",
     outside="longer unconstrained text")

R = range

def rendering():
    """A part of all that renders."""
    return ([("h_lookup", (p, 1, 0)) for p in R(NLOOK)] + [("h_nest", (1, w, 99, n)) for w in R(12) for n in (0, 4)] + [("h_access", (2, 2))]
            + [("h_if", (2, e, f, 0)) for e in (0, 1) for f in (0, 3)] + [("h_if_nested", (p,)) for p in R(7)]
            + [("h_loop", (f, 4)) for f in R(7)] + [("h_loop_nested", (p,)) for p in R(6)] + [("h_loop_kinds", (f,)) for f in R(4)]
            + [("h_loop_long", (f, n)) for f in R(4) for n in (127, 255)] + [("h_loop_long", (0, 65534)), ("h_loop_long", (3, 65534)), ("h_loop_type", (2,))]
            + [("h_format", (p, d, 1)) for p in R(NFMT) for d in (0, 1)] + [("h_default_format", (f,)) for f in R(5)]
            + [("h_writer", (p, f, 2, h)) for p in R(NWR) for f in (0, 4) for h in R(4)]
            + [("h_template_fn", (p,)) for p in R(8)] + [("h_include_deep", (256, f, w)) for f in R(3) for w in (0, 1)]
            + [("h_filter_call", (v, n, f)) for v in R(3) for n in R(4) for f in (0, 1)] + [("h_filter_return", (k,)) for k in R(16)]
            + [("h_filter_state", (t, 1)) for t in R(4)]
            + [("h_entry", (p, 0, 1)) for p in R(NENT)] + [("h_value_fn", (p, 0)) for p in R(NENT)]
            + [("h_error", (c, p, 1, 0, 0)) for c in AT_RENDER2 for p in (0, 6, 8)]
            + [("h_long", (k, n)) for k in R(6, 25) for n in (15, 255)] + [("h_long", (k, MANY)) for k in (6, 14, 23, 24, 25, 26)])


# -- C02 ----------------------------------------------------------------------
prop("C02",
     title="rendering never panics",
     quick=lambda: [("h_render_total", (p, 1)) for p in R(NPROG)]
     + [("h_include_total", (b,)) for b in R(6)]
     + [("h_total", (c, 1, 1, 0, 1)) for c in R(NCTX)]
     + [("h_total", (c, 3, 3, 0, 1)) for c in (1, 3, 4, 8, 10, 19, 20, 27)]
     + [("h_total", (c, 4, 11, 0, 1)) for c in R(NCTX)]
     + [("h_include_depth", (f, w)) for f in R(7) for w in R(4)]
     + [("h_total", (1, 2, 2, 0, 1)), ("h_total", (0, 2, 3, 0, 1))] + rendering(),
     thorough=lambda: [("h_render_total", (p, 2)) for p in R(NPROG)]
     + [("h_total", (c, 1, 2, 0, 1)) for c in R(NCTX)]
     + [("h_total", (c, 3, 4, 0, 1)) for c in (1, 3, 4, 8, 10, 19, 20, 27)],
     reach={"h_render_total": [0, 1], "h_include_total": [0, 1], "h_total": [0, 1, 2, 3], "h_include_depth": [0, 1]},
     bounds="33 programs over any value of depth 1 (thorough: 2) with symbolic integers, booleans, NaN, empty and "
            "one-element collections; an included template that refers to names bound by its includer: 6 bindings, any "
            "of 5 one-letter names on both sides, 3 paddings, 12 bodies; every template of the 37 surroundings of C01 "
            "with any ASCII byte, 3 lexer symbols or one of 8 wider characters between two symbols in the hole that compiles; "
            "inclusion cycles of up to 5 templates written in 7 ways; parts of the programs of C06 to C08, C10 to C12, C14, C16 and C17, and programs and data of great size",
     outside="stack exhaustion by deeply nested templates or values; user functions that panic")

# -- C03 ----------------------------------------------------------------------
NPAT = 22
prop("C03",
     title="raw text and whitespace control",
     quick=lambda: [("h_trim", (p, 1, 2, s, 0)) for p in R(NPAT) for s in R(3)]
     + [("h_trim", (p, 0, 2, s, 0)) for p in (0, 5, 7) for s in R(3)]
     + [("h_trim", (p, 2, 4, s, 0)) for p in (0, 3, 9) for s in R(2)]
     + [("h_trim", (p, 3, 4, s, 0)) for p in (0, 10) for s in R(2)]
     + [("h_trim", (0, 5, n, s, 0)) for n in (2, 3) for s in R(2)]
     + [("h_trim", (p, 4, 0, s, d)) for p in R(NPAT) for s in (0, 1, 2) for d in R(3)]
     + [("h_trim", (p, 4, 0, 9, 0)) for p in R(NPAT)]
     + [("h_trim", (p, 1, 1, 9, d)) for p in (1, 2, 5, 7, 10) for d in R(3)]
     + [("h_raw", (1, 3, s)) for s in R(3)] + [("h_raw", (2, k, s)) for k in (2, 3, 4) for s in R(3)]
     + long(0, 1, 2),
     thorough=lambda: [("h_trim", (p, 1, 3, s, d)) for p in R(NPAT) for s in R(4) for d in R(3)]
     + [("h_trim", (p, 0, 2, s, 0)) for p in R(NPAT) for s in R(4)]
     + [("h_trim", (p, 0, 3, s, 0)) for p in (0, 5, 7) for s in R(2)]
     + [("h_trim", (p, 2, 4, s, d)) for p in R(NPAT) for s in R(3) for d in R(3)]
     + [("h_trim", (p, 3, 4, s, 0)) for p in (0, 3, 9, 10) for s in R(2)] + [("h_trim", (0, 5, 4, s, 0)) for s in R(2)]
     + [("h_trim", (p, 1, 1, 9, d)) for p in R(NPAT) for d in R(3)]
     + [("h_raw", (0, 3, s)) for s in R(3)] + [("h_raw", (1, 4, 0))],
     reach={"h_trim": [0], "h_raw": [0, 1], "h_long": [0]},
     bounds="22 templates with up to 3 tags of every kind, with and without blanks inside, every choice of `-` on every side of every tag, 3 syntaxes; "
            "one text segment is any 2 (thorough: 3) characters of a whitespace-heavy alphabet, any 2 ASCII bytes but "
            "braces, any character of 2 or 3 (thorough: 4) bytes, between blanks; or all "
            "segments one symbolic byte; text without delimiters: any 3 ASCII bytes and any one character; segments and comments of 15 to 65537 characters with symbolic ends",
     outside="longer segments")

# -- C04 ----------------------------------------------------------------------
NSETS = 28
prop("C04",
     title="delimiters: leftmost, longest, no interference",
     quick=lambda: [("h_delims", (s, 0, 4)) for s in R(NSETS)]
     + [("h_delims", (s, k, 3)) for s in R(NSETS) for k in (1, 2)]
     + [("h_sym_delims", (1, 1, 1, 1, 3)), ("h_sym_delims", (2, 1, 1, 1, 3)), ("h_sym_delims", (1, 1, 2, 1, 3)),
        ("h_sym_delims", (1, 2, 1, 1, 3)), ("h_sym_delims", (1, 1, 1, 2, 3)),
        ("h_sym_begin", (1, 4, 0, 4)), ("h_sym_begin", (1, 2, 3, 3))]
     + [("h_long_delims", (s, n, 3)) for s in R(4) for n in (7, 15, 31, 63, 127, 255)] + [("h_long_delims", (s, 7, 4)) for s in R(4)],
     thorough=lambda: [("h_delims", (s, 0, 6)) for s in R(NSETS)]
     + [("h_delims", (s, 0, 5)) for s in R(NSETS)]
     + [("h_delims", (s, k, 5)) for s in R(NSETS) for k in (1, 2)]
     + [("h_delims", (s, k, 4)) for s in R(NSETS) for k in (1, 2)]
     + [("h_sym_delims", p) for p in [(2, 1, 1, 2, 3), (1, 1, 1, 1, 4), (2, 2, 1, 1, 3), (1, 2, 2, 1, 3), (2, 1, 2, 1, 3)]]
     + [("h_sym_begin", p) for p in [(1, 4, 0, 5), (2, 4, 0, 4), (1, 5, 0, 4), (1, 2, 4, 3)]]
     + [("h_long_delims", (s, n, 4)) for s in R(4) for n in (63, 127, 255, 511)] + [("h_long_delims", (s, 15, 5)) for s in R(4)],
     reach={"h_long_delims": [0, 1, 2], "h_delims": [0, 1, 2], "h_sym_delims": [0, 1], "h_sym_begin": [0, 1, 2]},
     bounds="28 delimiter sets (shared prefixes and suffixes, one a prefix, suffix or infix of another, whitespace, "
            "non-ASCII, missing kinds) with any text of 4 (thorough: 6) symbols of the set's alphabet, alone and inside "
            "an expression or comment; any expression and comment delimiters of 1-2 bytes over 4 symbols with any text "
            "of 3 (4) symbols over 6; any begin delimiters over 3 symbols of lengths 1 and 4 (thorough: also 5), or 1, 2 and 3 "
            "(1, 2 and 4), with any text of 4 (5) or 3 symbols before the end of a tag; delimiters of 7 to 512 symbols that share "
            "beginnings, ends or periods, with any text of 3 (4) parts of them",
     outside="two delimiters with the same text; delimiters of other lengths")

# -- C05 ----------------------------------------------------------------------
prop("C05",
     title="literals denote their exact values",
     quick=lambda: [("h_literal", (0, p, 0, 3, 0)) for p in (0, 1, 2, 3, 8)]
     + [("h_literal", (0, p, 1, 3, 0)) for p in (4, 5, 9, 11, 13)]
     + [("h_literal", (0, p, 0, 2, 0)) for p in (5, 6, 7, 11, 12, 14, 15)]
     + [("h_literal", (2, p, 0, 2, 0)) for p in (0, 1, 2, 3, 5, 6, 7, 11, 12)]
     + [("h_literal", (2, p, 1, 2, 0)) for p in (0, 4, 9, 13)]
     + [("h_literal", (1, 0, k, 3, 0)) for k in (2, 4)] + [("h_literal", (1, 10, 2, 2, 0)), ("h_literal", (1, 0, 4, 5, 0))]
     + [("h_literal", (1, 0, 3, n, 0)) for n in (1, 2, 3)]
     + [("h_literal", (f, 0, 5, 0, 0)) for f in (0, 2)]
     + [("h_literal", (f, 0, 6, n, 0)) for f in (0, 2) for n in R(19)]
     + [("h_literal", (f, 0, k, 2, pl)) for pl in R(1, 14) for f, k in ((0, 0), (0, 5), (1, 4), (2, 1)) if (f, pl) != (2, 6)]
     + long(3, 4, 5),
     thorough=lambda: [("h_literal", (f, p, 0, 4, 0)) for f in (0, 2) for p in (0, 1, 2, 3, 8, 14, 15)]
     + [("h_literal", (f, p, 1, 5, 0)) for f in (0, 2) for p in (0, 4, 9, 11, 13)]
     + [("h_literal", (f, p, 0, 3, 0)) for f in (0, 2) for p in (5, 6, 7, 11, 12)]
     + [("h_literal", (1, p, 2, 4, 0)) for p in (0, 10)] + [("h_literal", (1, 0, 4, 7, 0))]
     + [("h_literal", (1, 0, 3, 4, 0))]
     + [("h_literal", (f, 0, k, 3, pl)) for pl in R(1, 14) for f, k in ((0, 0), (0, 5), (1, 4), (2, 1)) if (f, pl) != (2, 6)],
     reach={"h_literal": [0, 1, 2, 3], "h_long": [0]},
     bounds="integer literals: 14 prefixes (each radix, near both ends of the 64-bit range, leading zeros, underscores) "
            "followed by any 2-3 (thorough: 3-5) digits, letters a-g and underscores, with and without a sign; strings: any "
            "3 (4) ASCII bytes, any 5 (7) symbols of escapes, quotes and delimiters, any UTF-8 text of 3 (4) bytes; 23 "
            "float spellings and 19 more (long mantissas, exponents of either sign, near the limits, malformed) with any 1 to 3 digits; 14 places a literal can be written in; strings of 15 to 65537 and numbers of 15 to 1025 characters",
     outside="other spellings of floats; `0x` without digits is zero; decimal integers "
             "beyond 64 bits become floats (as specified by the reference)")

# -- C06 ----------------------------------------------------------------------
NLOOK = 28
prop("C06",
     title="variables resolve to the innermost scope",
     quick=lambda: [("h_lookup", (p, n, 0)) for p in R(NLOOK) for n in (0, 1, 3, 4)]
     + [("h_lookup", (p, n, i)) for p in R(14, 21) for n in (0, 2) for i in R(1, 6)]
     + [("h_lookup", (27, 2, i)) for i in R(6)]
     + [("h_nest", (1, w, 99, n)) for w in R(12) for n in (0, 1, 4, 5)] + [("h_nest", (2, w, 99, 2)) for w in R(12)]
     + [("h_access", (1, 1)), ("h_access", (1, 2)), ("h_access", (2, 2))]
     + long(6, 7, 8, 14),
     thorough=lambda: [("h_lookup", (p, n, i)) for p in R(14, 21) for n in (1, 3) for i in R(1, 6)]
     + [("h_nest", (2, w, 99, n)) for w in R(12) for n in (0, 1)]
     + [("h_nest", (2, w, 99, n)) for w in R(12) if w not in (2, 5, 10) for n in (4, 5)]
     + [("h_nest", (3, w, x, 3)) for w in R(12) for x in R(12)]
     + [("h_access", (2, 3)), ("h_access", (3, 2))],
     reach={"h_lookup": [0, 2], "h_nest": [0, 2], "h_access": [0, 1], "h_long": [0, 2]},
     bounds="28 programs with up to 3 nested bindings (`with`, `for` over lists and maps, borrowed and computed values, "
            "`include` with and without a scope) where every name is any of 3 to 9 one-letter names, or of 4 names one of which begins, ends or contains another, and every access is required or "
            "optional; any nesting of 1 or 2 (thorough: 3) of 12 binding statements around any of 7 accesses, with any names of a set; member access of up to 2 (thorough: 3) steps on any value of depth 2 (3); names of up to 65537 letters that differ in the last or in length, paths of up to 257 members, up to 257 nested scopes, positions in lists of up to 65537 items",
     outside="other names; deeper nesting")

# -- C07 ----------------------------------------------------------------------
prop("C07",
     title="conditionals take exactly the first true branch",
     quick=lambda: [("h_if", (1, e, f, 1)) for e in (0, 1) for f in R(4)]
     + [("h_if", (2, e, f, 1)) for e in (0, 1) for f in (0, 1)]
     + [("h_if", (3, e, f, 0)) for e in (0, 1) for f in (0, 2, 3)]
     + [("h_if_nested", (p,)) for p in R(7)]
     + long(9, 10, 11) + [("h_long", (25, n)) for n in (251, MANY)],
     thorough=lambda: [("h_if", (2, e, f, 1)) for e in (0, 1) for f in R(4)]
     + [("h_if", (4, e, f, 0)) for e in (0, 1) for f in R(4)]
     + [("h_if", (3, e, f, 1)) for e in (0, 1) for f in R(4)],
     reach={"h_if": [0, 1], "h_if_nested": [0], "h_long": [0]},
     bounds="chains of 1 to 3 (thorough: 4) conditions with and without `not` and `else`, each over any value: every "
            "64-bit integer, every 64-bit float, booleans, none, empty and non-empty strings, lists, maps; conditions that "
            "are paths, members, filtered values or take arguments; 7 programs of nested conditionals and loops; up to 257 nested conditionals, chains of up to 1025 conditions, branches of up to 65539 tags",
     outside="longer chains")

# -- C08 ----------------------------------------------------------------------
prop("C08",
     title="loops visit every item once, in order",
     quick=lambda: [("h_loop", (f, 4)) for f in R(7)] + [("h_loop_nested", (p,)) for p in R(6)]
     + [("h_loop_long", (f, n)) for f in R(4) for n in (9, 99, 127, 255)]
     + [("h_loop_kinds", (f,)) for f in R(4)] + [("h_nest", (2, w, 99, 3)) for w in (3, 4, 5, 6, 10)]
     + [("h_loop_long", (f, 65534)) for f in (0, 3)] + [("h_loop_type", (d,)) for d in (0, 1, 2)]
     + long(12, 13) + [("h_long", (26, n)) for n in (251, MANY)],
     thorough=lambda: [("h_loop", (f, 8)) for f in R(7)] + [("h_loop_type", (3,))] + [("h_loop_long", (f, n)) for f in (1, 2) for n in (4095, 65534)],
     reach={"h_loop": [0, 1], "h_loop_nested": [0], "h_loop_long": [0], "h_loop_kinds": [0], "h_loop_type": [0, 1], "h_long": [0]},
     bounds="lists and maps of 0 to 4 (thorough: 8) items, items symbolic or of any type, borrowed and computed, `loop` used directly, "
            "bound, after an inner loop and in an included template; 6 programs of nested loops over collections of 0 to 2 "
            "items; collections of 9 to 11, 99 to 101, 127 to 129, 255 to 257 and 65534 to 65536 concrete items; one or two loop variables over any value of depth 2 (3); bodies of up to 65539 tags, up to 257 nested loops",
     outside="collections of other lengths")

# -- C09 ----------------------------------------------------------------------
prop("C09",
     title="a template is accepted iff it is in the language, and means what it says",
     quick=lambda: [("h_hole", (c, 1, 2)) for c in R(NCTX)]
     + [("h_hole", (c, 3, 4)) for c in (0, 1, 2, 3, 4, 7, 8, 14)]
     + [("h_hole", (c, 4, 11)) for c in R(NCTX)]
     + [("h_hole", (c, 2, 2)) for c in R(NCTX)] + [("h_hole", (c, 2, 3)) for c in (1, 2)]
     + [("h_blocks", (3, 4)), ("h_blocks", (4, 1)), ("h_blocks", (4, 2)), ("h_blocks", (5, 3)), ("h_blocks", (5, 5))]
     + [("h_ident", (p, k)) for p in R(16) for k in (0, 1, 2, 3, 4, 5, 7)]
     + [("h_tokens", (p, 2, 0)) for p in R(14)] + [("h_tokens", (9, 3, 3)), ("h_tokens", (0, 3, 1)), ("h_tokens", (3, 3, 2))]
     + long(21, 22),
     thorough=lambda: [("h_hole", (c, 1, 3)) for c in R(NCTX)]
     + [("h_hole", (c, 2, 3)) for c in R(NCTX)] + [("h_hole", (c, 2, 4)) for c in (1, 2)]
     + [("h_hole", (c, 4, 22)) for c in R(NCTX)]
     + [("h_hole", (c, 3, 5)) for c in (0, 1, 7)]
     + [("h_blocks", (4, 0)), ("h_blocks", (5, 1)), ("h_blocks", (5, 2)), ("h_blocks", (6, 3)), ("h_blocks", (4, 4))]
     + [("h_ident", (p, 8)) for p in R(16) if p not in (6, 8, 9)] + [("h_ident", (0, 9))]
     + [("h_tokens", (p, 3, 0)) for p in R(14)] + [("h_tokens", (p, 3, 4)) for p in (7, 8)]
     + [("h_tokens", (0, 5, 1)), ("h_tokens", (9, 4, 3))],
     reach={"h_hole": [0, 1, 2], "h_ident": [0, 1, 2], "h_blocks": [0, 1], "h_tokens": [0, 1, 2], "h_long": [0, 1, 2]},
     bounds="37 surroundings with any 2 (thorough: 3) ASCII bytes, any 4 (5) of 18 lexer symbols, one of 8 characters of 2 to "
            "4 bytes between any two (four) symbols, or any character of 2 bytes (in two surroundings 3; thorough: 3, in two 4) in a hole; any sequence "
            "of 3 out of 18 tags, 4 out of 6 and 5 out of 5 (thorough: 4 out of 18, 5 out of 6, 6 out of 5); any sequence of 2 "
            "(3) out of 31 tokens in 14 positions of expressions and statements; in 16 places a keyword, `loop`, one of these with any byte before or "
            "after, any character replaced, in any case, two at once or with two more characters, or any word of 2 (3) characters; up to 1025 blanks in a tag and tags in a row",
     outside="longer unconstrained text")

# -- C10 ----------------------------------------------------------------------
NFMT = 15
prop("C10",
     title="values are formatted exactly once, by the right function",
     quick=lambda: [("h_format", (p, d, 1)) for p in R(NFMT) for d in R(3)] + [("h_format", (p, 0, 0)) for p in R(NFMT)]
     + [("h_default_format", (f,)) for f in R(5)] + [("h_min_format", (p, d)) for p in R(14) for d in R(3)]
     + long(15, 23, 24) + [("h_config", (3,))],
     thorough=lambda: [("h_format", (p, d, 0)) for p in R(NFMT) for d in R(3)] + [("h_config", (4,))],
     reach={"h_config": [0, 1], "h_format": [0, 2], "h_default_format": [0], "h_min_format": [0, 2], "h_long": [0]},
     bounds="15 programs with up to 3 functions each, which are any of 7 names (4 filters, 2 formatters, 1 unknown), applied to "
            "any of 3 to 8 members of a context, under 3 default formatters; calls, their order and arguments are logged; the "
            "default formatter on booleans, none, every integer of up to 3 digits and 6 boundary ones, 8 floats, any 2-byte "
            "character; up to 257 functions in a row, texts of up to 65537 characters; every history of 3 (thorough: 4) settings of an engine out of 13 after 5 programs were compiled",
     outside="formatters that ignore the error of a write; the digits of arbitrary floats and 64-bit integers (rendered by the "
             "standard library)")

# -- C11 ----------------------------------------------------------------------
NWR = 16
prop("C11",
     title="writer failures are reported and never corrupt the output",
     quick=lambda: [("h_writer", (p, f, n, h)) for p in R(NWR) for f, n in ((0, 2), (2, 2), (4, 2)) for h in R(4)],
     thorough=lambda: [("h_writer", (p, 0, 5, h)) for p in R(NWR) for h in R(4)]
     + [("h_writer", (p, f, 3, h)) for p in R(NWR) for f in (3, 6) for h in R(4)],
     reach={"h_writer": [0, 1, 2]},
     bounds="16 programs (raw text, escapes, loops, includes, formatters and filters that fail, non-ASCII text, texts of 54000 characters), 4 ways to render "
            "to a writer; each of up to 6 (thorough: 9) consecutive writes may accept everything, 1 to 4 bytes, all but one, be interrupted, fail with any "
            "kind of error or one of the operating system, or accept nothing",
     outside="a formatter that ignores the error of a write; writers that lie about the bytes they took")

# -- C12 ----------------------------------------------------------------------
prop("C12",
     title="includes resolve by exact name and are bounded in depth",
     quick=lambda: [("h_include_depth", (f, w)) for f in R(7) for w in R(4)] + [("h_template_fn", (p,)) for p in R(8)]
     + [("h_include_deep", (n, f, w)) for n, f in ((100, 0), (256, 1), (256, 2)) for w in (0, 1)]
     + [("h_include_name", (n, m, 0)) for n in R(5) for m in R(5)] + [("h_include_name", (n, n, h)) for n in R(5) for h in (1, 2)]
     + [("h_include_total", (b,)) for b in R(6)]
     + long(17, 18, 19, 20) + [("h_config", (3,))],
     thorough=lambda: [("h_include_deep", (1024, f, 0)) for f in R(3)] + [("h_config", (4,))],
     reach={"h_config": [0, 1], "h_include_depth": [0, 1], "h_template_fn": [0, 1], "h_include_total": [0, 1], "h_include_deep": [0, 1], "h_include_name": [0, 1], "h_long": [0, 2]},
     bounds="chains and cycles of 1 to 5 templates written in 7 ways (with and without a scope, with one that contains itself, inside loops, conditionals and "
            "`with`), every maximum from 0 to 6 set on the engine, the renderer, both or neither; 8 programs of includes of any of 4 "
            "names or of any 1 to 3 of 6 characters with blanks, dots and slashes, also nested, with and without a template function; "
            "included and registered names of no or one character of any length in UTF-8, with a letter before and after; templates that include "
            "themselves to depths of 100 and 256 (thorough: 1024) and one less and more; up to 1025 templates, names of up to 1025 characters, and inclusions one after the other; every history of 3 (thorough: 4) settings of an engine out of 13, with 5 programs compiled before",
     outside="other depths above 6")

# -- C13 ----------------------------------------------------------------------
prop("C13",
     title="the registry reflects the last successful change",
     quick=lambda: [("h_registry", (3, s)) for s in R(3)]
     + [("h_registry_names", (3, 0, k)) for k in R(3)] + [("h_registry_names", (2, 1, k)) for k in (1, 2)]
     + [("h_registry_names", (3, 1, 1)), ("h_registry_names", (4, 0, 1))]
     + [("h_registry_names", (3, 2, k)) for k in (2, 3, 4)] + [("h_config", (3,))],
     thorough=lambda: [("h_config", (4,))] + [("h_registry", (4, s)) for s in R(3)] + [("h_registry_names", (4, 1, 1)), ("h_registry_names", (5, 0, 1))],
     reach={"h_registry": [0, 1], "h_registry_names": [0, 1], "h_config": [0, 1]},
     bounds="every history of 3 (thorough: 4) operations out of 8 (add and replace templates, add one that does not compile, "
            "remove, add filters and formatters, remove functions) on 2 names, observed after every step through lookup, "
            "rendering and inclusion; every history of 2 to 4 (5) additions and removals with any ASCII names of up to 2 bytes, or one wider character "
            "(functions: lower case names); every history of 3 (4) settings (default formatter, depth of inclusion, templates, functions) made "
            "after 5 programs were compiled, rendered in 4 ways",
     outside="longer histories")

# -- C14 ----------------------------------------------------------------------
NCASE = 58
NCASE2 = 179
AT_TAG = [4, 7, 10, 11, 18, 21, 22, 25, 26, 33] + list(R(52, 58))
AT_TAG2 = [61, 64, 65, 67, 68, 70, 71, 72, 73, 84, 85, 90, 104, 106, 107, 108, 112, 115, 116, 117, 128, 138, 139, 140, 141,
           142, 145, 146, 147, 150, 168, 173, 177]
AT_RENDER2 = list(R(132, NCASE2))
prop("C14",
     title="errors name the template, the place and the cause",
     quick=lambda: [("h_error", (c,) + q) for c in R(NCASE) for q in ((0, 2, 1, 0), (0, 2, 2, 0), (2, 2, 1, 0), (3, 2, 0, 0), (4, 2, 0, 0), (9, 1, 1, 0), (10, 1, 1, 0), (2, 2, 3, 0), (0, 1, 1, 9))]
     + [("h_error", (c, 1, 2, f, 0)) for c in AT_TAG for f in (1, 2)]
     + [("h_error", (c, p, 1, 6, 0)) for c in R(NCASE) for p in (0, 1, 2)]
     + [("h_error", q) for q in ((2, 0, 1, 4, 0), (52, 2, 1, 4, 0), (7, 1, 1, 4, 0))]
     + [("h_error", (c, p, 1, 0, 0)) for c in R(27, NCASE) for p in R(5, 9)]
     + [("h_error", (c,) + q) for c in R(NCASE, NCASE2) for q in ((0, 1, 1, 9), (2, 1, 1, 0), (0, 1, 2, 0), (2, 1, 6, 0))]
     + [("h_error", (c, 1, 1, f, 0)) for c in AT_TAG2 for f in (1, 2)]
     + [("h_error", (c, p, 1, 0, 0)) for c in AT_RENDER2 for p in R(5, 9)]
     + [("h_error", (c, p, 1, 0, 0)) for p in (11, 12) for c in R(0, NCASE2, 5)] + [("h_error", (c, 13, 1, 0, 0)) for c in R(NCASE2)]
     + [("h_error_name", (f,)) for f in R(6)],
     thorough=lambda: [("h_error", (c, p, 1, 0, 0)) for p in (11, 12) for c in R(NCASE2)] + [("h_error", (c, p, 2, f, w)) for c in R(NCASE, NCASE2) for p in (0, 2, 3) for f in R(3) for w in (0, 9)]
     + [("h_error", (c, 1, 2, f, 0)) for c in AT_TAG2 for f in R(3)]
     + [("h_error", (c, p, 1, f, w)) for c in AT_RENDER2 for p in R(5, 9) for f in R(3) for w in (0, 9)]
     + [("h_error", (c, p, 3, f, w)) for c in R(NCASE) for p in (0, 2, 3) for f in R(3) for w in (0, 9)]
     + [("h_error", (c, 1, 3, f, 0)) for c in AT_TAG for f in R(3)] + [("h_error", (c, 0, 2, 6, 0)) for c in R(NCASE)]
     + [("h_error", (c, p, 1, 4, 0)) for c in R(0, NCASE, 4) for p in (0, 1)] + [("h_error", (52, 0, 1, 5, 0))]
     + [("h_error", (c, p, 1, f, w)) for c in R(27, NCASE) for p in R(5, 9) for f in R(3) for w in (0, 9)],
     reach={"h_error": [0], "h_error_name": [0]},
     bounds="179 erroneous templates (every message of the compiler and renderer, wherever it can come from; 121 of them with holes half as long), preceded, followed or interrupted by any 2 "
            "(thorough: 3) printable ASCII bytes, blanks or line ends, or one- and two-byte letters, also after 8, 98 or 1009 line ends or 260 columns of a line, or 65535 to 65537 of either (some); under names of 255 to 65536 letters; followed by tabs and carriage returns; with any one (thorough: two) of 7 characters of width 0, 1 and 2 in all these places, and any 3-byte (thorough: 4-byte) character in some; with the values of the context also "
            "bound by `with` and `for`, borrowed and computed; anonymous, named, included and nested templates; template names of any 2 bytes",
     outside="columns of other wide characters and of tabs; the wording of messages about values of another origin")

# -- C15 ----------------------------------------------------------------------
NKIND = 34
prop("C15",
     title="conversion of Rust data to values is exact or an error",
     quick=lambda: [("h_to_value", (k, 1)) for k in R(NKIND)] + [("h_map_key", (k, f)) for k in R(NKIND) if k != 22 for f in R(5)]
     + [("h_value_identity", (d,)) for d in R(2)] + [("h_from", (f,)) for f in R(7)]
     + [("h_long_value", (k, n)) for k in R(7) for n in SIZES + (MANY,) if (k, n) != (5, MANY)] + [("h_long_value", (5, 1023))],
     thorough=lambda: [("h_to_value", (k, 2)) for k in (18, 22, 23, 25, 26, 27, 30, 31)] + [("h_value_identity", (2,))],
     reach={"h_to_value": [0, 1], "h_map_key": [0, 1], "h_value_identity": [0], "h_from": [0], "h_long_value": [0]},
     bounds="every method of a serializer, over every value of its argument (all integers and floats of every width, all "
            "characters, any 2 ASCII bytes, any 2 raw bytes), in sequences, tuples, structures, variants and maps of up to 2 parts of "
            "any kind, with right and wrong size hints; every kind of map key (integers: boundary values), plain, wrapped, and with "
            "other keys it may be equal to; every value of depth 1 (thorough: 2); 42 `From` conversions and uses of `value!`; data of up to 65537 parts, nested to depths of up to 1025",
     outside="128-bit integers beyond 64 bits are rejected by type, so only sampled; deeper data; hash maps with symbolic keys")

# -- C16 ----------------------------------------------------------------------
prop("C16",
     title="filters get exactly their arguments, converted exactly or refused",
     quick=lambda: [("h_arg", (t, 0, 0)) for t in R(24)] + [("h_arg", (t, 1, 0)) for t in R(21)]
     + [("h_arg", (t, x, 1)) for t in (0, 1, 2, 14, 15, 16, 17, 18, 19, 20) for x in (0, 1)]
     + [("h_arg", (t, 2, 0)) for t in R(24)]
     + [("h_filter_call", (v, n, f)) for v in R(5) for n in R(5) for f in (0, 1)]
     + [("h_filter_return", (k,)) for k in R(16)] + [("h_filter_state", (t, 1)) for t in R(4)]
     + long(16) + [("h_long", (16, 1))],
     thorough=lambda: [("h_arg", (t, x, 1)) for t in R(24) for x in (0, 1) if t < 21 or x == 0],
     reach={"h_arg": [0, 1], "h_filter_call": [0, 1], "h_filter_return": [0, 1], "h_filter_state": [0], "h_long": [0, 2]},
     bounds="all 24 parameter types as the value and (where possible) as an argument, over any value of depth 1 with symbolic "
            "64-bit integers and floats, from 9 borrowed and owned places each and from 28 literals; all 155 signatures of a value and up to "
            "4 integer or string arguments, called with 0 to 5 arguments of any of the two types and any content; 16 return types; 23 "
            "programs whose filters take and change their arguments, over strings, lists and maps; up to 257 arguments",
     outside="string references as arguments that are computed values may be refused, as documented")

# -- C17 ----------------------------------------------------------------------
NENT = 19
prop("C17",
     title="all entry points agree; value functions see exactly the paths written",
     quick=lambda: [("h_entry", (p, n, d)) for p in R(NENT) for n in R(3) for d in (0, 1)] + [("h_value_fn", (p, n)) for p in R(NENT) for n in R(3)],
     thorough=lambda: [("h_entry", (p, 3, d)) for p in R(NENT) for d in (0, 1)] + [("h_value_fn", (p, 3)) for p in R(NENT)],
     reach={"h_entry": [0, 1], "h_value_fn": [0, 2]},
     bounds="19 programs with up to 4 names, each any of 3, 6 or 8 (thorough: 11) names, with `.` and `?.` access by name or position; 13 ways to compile and "
            "render, and 4 with a value function; calls of the value function are logged and compared",
     outside="other programs")


# -- C18 ----------------------------------------------------------------------
def in_build(variant, js):
    return [(h, q, variant) for h, q in js]


NMIN = 14
SMALL = ([("h_total", (c, 1, 1, 0, 1)) for c in R(NCTX)] + [("h_hole", (c, 1, 1)) for c in R(NCTX)]
         + [("h_hole", (c, 4, 11)) for c in R(NCTX)] + [("h_blocks", (3, 4))]
         + [("h_ident", (p, k)) for p in R(16) for k in (0, 3, 7)]
         + [("h_tokens", (p, 2, 0)) for p in (0, 3, 7, 8, 9)]
         + [("h_trim", (p, 4, 0, 0, 0)) for p in R(NPAT)] + [("h_delims", (s, 0, 3)) for s in R(NSETS)]
         + [("h_lookup", (p, 1, 0)) for p in R(NLOOK)] + [("h_nest", (1, w, 99, 1)) for w in R(12)] + [("h_access", (1, 2))]
         + [("h_if", (2, e, f, 1)) for e in (0, 1) for f in (0, 2)] + [("h_if_nested", (p,)) for p in R(7)]
         + [("h_loop", (f, 3)) for f in (0, 2, 3, 4, 6)] + [("h_loop_nested", (p,)) for p in R(6)]
         + [("h_loop_kinds", (f,)) for f in (0, 2)] + [("h_loop_type", (1,))]
         + [("h_literal", (f, 0, 0, 2, p)) for f, p in ((0, 0), (0, 3), (0, 6), (2, 0), (2, 3))] + [("h_literal", (1, 0, 4, 2, p)) for p in (0, 3, 6)]
         + [("h_min_format", (p, d)) for p in R(NMIN) for d in R(3)]
         + [("h_error", (c, p, 1, 1, 0)) for c in R(NCASE2) for p in (0, 2)]
         + [("h_error", (c, 1, 1, 2, 0)) for c in AT_TAG]
         + [("h_error", (c, p, 1, 0, 0)) for c in AT_RENDER2 for p in R(5, 9)]
         + [("h_error_name", (f,)) for f in R(6)]
         + [("h_render_total", (p, 1)) for p in R(NPROG)] + [("h_include_total", (b,)) for b in R(6)])
MORE = ([("h_hole", (c, 1, 2)) for c in R(NCTX)] + [("h_hole", (c, 3, 4)) for c in (0, 1, 2, 3, 4, 7, 8, 14)]
        + [("h_hole", (c, 2, 2)) for c in R(NCTX)]
        + [("h_ident", (p, k)) for p in R(16) for k in (1, 2, 4, 5)]
        + [("h_tokens", (p, 2, 0)) for p in R(14)]
        + [("h_trim", (p, 1, 2, 0, 0)) for p in R(NPAT)] + [("h_trim", (p, 4, 0, 0, d)) for p in R(NPAT) for d in (1, 2)]
        + [("h_delims", (s, k, 3)) for s in R(NSETS) for k in (1, 2)]
        + [("h_lookup", (p, n, 0)) for p in R(NLOOK) for n in (0, 3)] + [("h_nest", (2, w, 99, 2)) for w in R(12)]
        + [("h_if", (3, e, f, 0)) for e in (0, 1) for f in (0, 2)]
        + [("h_loop_long", (f, n)) for f in (0, 2) for n in (9, 255)]
        + [("h_literal", (0, p, 0, 3, 0)) for p in (0, 1, 2, 3)] + [("h_literal", (0, p, 1, 3, 0)) for p in (4, 5, 9)]
        + [("h_error", (c, p, 1, f, 0)) for c in R(NCASE2) for p in (0, 2) for f in (2, 6)]
        + [("h_error", (c, 0, 1, 1, 9)) for c in R(NCASE2)])
TINY = ([("h_total", (c, 1, 1, 0, 1)) for c in R(0, NCTX, 4)] + [("h_hole", (c, 4, 11)) for c in (0, 1, 2, 7, 14)]
        + [("h_ident", (p, k)) for p in (0, 3, 7) for k in (0, 3)] + [("h_trim", (p, 4, 0, 0, 0)) for p in (0, 5, 10)]
        + [("h_lookup", (p, 1, 0)) for p in R(0, NLOOK, 3)] + [("h_loop", (0, 3))]
        + [("h_min_format", (p, d)) for p in R(NMIN) for d in (0, 2)]
        + [("h_error", (c, 0, 1, 1, 0)) for c in R(0, NCASE2, 3)] + [("h_error", (c, 6, 1, 0, 0)) for c in AT_RENDER2]
        + [("h_render_total", (p, 1)) for p in R(0, NPROG, 3)])
FEATURES = ("filters", "serde", "unicode", "filters+serde", "filters+unicode", "serde+unicode")
prop("C18",
     title="leaving out features changes nothing else",
     quick=lambda: in_build("none", SMALL + MORE) + [j for v in FEATURES for j in in_build(v, TINY)]
     + in_build("filters", [("h_arg", (t, x, 0)) for t in R(0, 21, 4) for x in (0, 1)]
                + [("h_filter_call", (v, n, f)) for v in R(2) for n in R(3) for f in (0, 1)] + [("h_filter_return", (k,)) for k in R(16)]),
     thorough=lambda: [j for v in FEATURES for j in in_build(v, SMALL)],
     reach={"h_min_format": [0, 2], "h_hole": [0, 1, 2], "h_ident": [0, 1], "h_trim": [0], "h_delims": [0, 1], "h_lookup": [0, 2],
            "h_if": [0, 1], "h_loop": [0, 1], "h_error": [0], "h_literal": [0, 1, 2, 3], "h_render_total": [0, 1]},
     bounds="the crate built without its features (with each one and each two of them: a part of it; thorough: more), with values given as such: the programs of "
            "C01 to C09 and C14 with holes of one or two bytes, 4 lexer symbols or one wider character, and 14 programs with any of 4 "
            "function names under 3 default formatters, over any value of depth 1",
     outside="what C01 to C09 and C14 leave out")

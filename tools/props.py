"""The properties, in the format of PROPERTIES.schema.json."""


def P(i, title, statement, over, text, why, files, mech, observe):
    return {
        "id": i, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    }


PROPS = [
    P("C01", "Compiling any text terminates with a template or an error, never a panic",
      "For every source text and every delimiter configuration, compiling returns either a template whose source text is the "
      "given one or an error that can be displayed in its short, alternate and debug forms. It never panics, overflows, hangs "
      "or slices text inside a character.",
      ["inputs", "configurations"], "every UTF-8 source text; every set of delimiters",
      "The tests compile about a hundred fixed templates that were written to be accepted or to hit one error each; the texts "
      "between them, non-ASCII characters next to delimiters and truncated tags are not sampled.",
      ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs", "src/compile/search", "src/error.rs", "src/types/span.rs"],
      [("lexer state machine over delimiter matches", "src/compile/lex.rs"), ("one-token-lookahead parser", "src/compile/parse.rs"),
       ("source excerpt of an error", "src/error.rs")],
      ["Engine::compile", "Display and Debug of Error"]),
    P("C02", "Rendering any compiled template terminates with text or an error, never a panic",
      "For every template that compiles, every context value and every set of included templates, rendering returns the text or "
      "an error that can be displayed. It never panics: missing members, wrong types, wrong filter arguments, names bound by an "
      "including template and recursion through includes are errors.",
      ["programs", "inputs"], "every accepted template and every value of the context",
      "Tests pair each template with one context that suits it; combinations of a program with values of every other shape, and "
      "names shared between an includer and its included template, are not enumerated.",
      ["src/render/core.rs", "src/render/stack.rs", "src/render/value.rs", "src/render/iter.rs", "src/filters/args.rs"],
      [("instruction interpreter", "src/render/core.rs"), ("scope stack", "src/render/stack.rs"), ("value access errors", "src/render/value.rs")],
      ["TemplateRef::render_from", "Template::render_from", "Renderer::to_string"]),
    P("C03", "Raw text is output byte for byte; `-` trims exactly the adjacent whitespace",
      "Text outside of tags is output unchanged, in place and as often as its block is rendered, and comments output nothing. A "
      "`-` just inside a delimiter removes all Unicode whitespace of the text that touches that side of the tag, and nothing "
      "else: not the text on the other side, not text beyond the next tag.",
      ["inputs", "programs", "configurations"], "every raw text, every placement of `-`, every kind of tag, custom delimiters",
      "Tests check a few placements with spaces and newlines; they do not cover both-sided trims of the same segment, non-ASCII "
      "whitespace or delimiters that contain whitespace.",
      ["src/compile/lex.rs", "src/compile/mod.rs", "src/render/core.rs"],
      [("left and right trim of raw tokens", "src/compile/lex.rs")], ["Renderer::to_string"]),
    P("C04", "Delimiters are recognised leftmost and longest, whatever they are",
      "With any configured delimiters, the tag that opens is the leftmost delimiter in the text and, among those starting there, "
      "the longest, with a trailing or leading `-` counted as part of it; delimiters which are prefixes, suffixes or infixes of "
      "one another do not interfere. Delimiter kinds that are not configured are plain text.",
      ["inputs", "configurations"], "every set of distinct delimiters and every text",
      "Tests use the default syntax and a couple of custom ones without overlaps; the multi-pattern search is tested on a "
      "handful of pattern sets.",
      ["src/types/syntax.rs", "src/syntax.rs", "src/compile/search", "src/compile/lex.rs"],
      [("multi-pattern search", "src/compile/search"), ("pattern table of a syntax", "src/types/syntax.rs")],
      ["Engine::with_syntax", "Engine::compile", "Renderer::to_string"]),
    P("C05", "Literals denote exactly the value they spell",
      "Integer literals in every base, with underscores and sign, denote their exact 64-bit value or, when they are not 64-bit "
      "integers, the nearest float, or are rejected; string literals denote their text with the five escapes replaced; this does "
      "not depend on where the literal is written. No literal is silently altered or wrapped.",
      ["inputs"], "every literal text in every position that takes an expression",
      "Tests contain about twenty literals; carries at the 64-bit boundary in each base, backslash runs before a quote and "
      "non-ASCII text are unbounded input spaces.",
      ["src/compile/parse.rs", "src/compile/lex.rs"],
      [("integer and float literals", "src/compile/parse.rs"), ("string escapes", "src/compile/parse.rs"), ("string token scan", "src/compile/lex.rs")],
      ["values received by filters"]),
    P("C06", "Names resolve to the innermost binding and member access is exact",
      "A name refers to the innermost enclosing `with`, `for` or include scope that binds it, else to the context, and the binding "
      "ends with its block; an include without a scope sees its includer's bindings, one with a scope sees only that scope. `.` "
      "selects exactly the named member or position and fails when it is missing, `?.` yields none instead.",
      ["programs", "inputs"], "every nesting of bindings, every choice of names, every shape of value",
      "Tests cover single bindings and a few shadowing cases; which of several nested, borrowed or computed scopes wins is a "
      "product of scope kinds and name coincidences.",
      ["src/render/stack.rs", "src/render/value.rs", "src/render/core.rs"],
      [("lookup from the top of the stack", "src/render/stack.rs"), ("member and index lookup", "src/render/value.rs")],
      ["Renderer::to_string"]),
    P("C07", "A conditional renders exactly the branch of its first true condition",
      "In an `if` / `else if` / `else` chain exactly the body of the first condition that is true (false under `not`) is rendered, "
      "or the `else` body, or nothing. False are none, `false`, zero, and empty strings, lists and maps; everything else is true.",
      ["programs", "inputs"], "every chain and nesting of conditionals over every value",
      "Tests take one or two paths through each chain with one value per type; jump targets of nested chains and the truth of "
      "every number are not settled by samples.",
      ["src/compile/mod.rs", "src/render/core.rs", "src/render/value.rs"],
      [("jump instructions and their patching", "src/compile/mod.rs"), ("truth of a value", "src/render/value.rs")],
      ["Renderer::to_string"]),
    P("C08", "A loop renders its body once per item, in order, with the right variables",
      "`for` renders its body once per list item in order, or once per map entry in key order, with the loop variables bound to that "
      "item and `loop.index`, `loop.first`, `loop.last` to its position in the innermost loop, and nothing for an empty collection. "
      "One variable requires a list and two a map; anything else is an error.",
      ["programs", "inputs"], "every collection, nesting of loops, and way of writing the iterated value",
      "Tests iterate over one or two fixed lists and maps; empty collections inside others, state after an inner loop ends and "
      "owned versus borrowed collections multiply.",
      ["src/render/iter.rs", "src/render/core.rs", "src/render/stack.rs", "src/compile/mod.rs"],
      [("loop state", "src/render/iter.rs"), ("loop instructions", "src/render/core.rs")],
      ["Renderer::to_string"]),
    P("C09", "A template is accepted iff it is in the language, and means what it says",
      "A source text is accepted exactly when it is a well-nested sequence of text and well-formed tags of the documented grammar, "
      "and an accepted template renders what that grammar's meaning gives. In particular unclosed, mismatched or misplaced blocks, "
      "stray delimiters, keywords as names and leftover tokens are rejected.",
      ["inputs", "programs"], "every source text",
      "Tests assert one rejection per error message; the language boundary is a property of all token sequences.",
      ["src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs", "SYNTAX.md"],
      [("grammar", "src/compile/parse.rs"), ("tokens and keywords", "src/compile/lex.rs"), ("code generation", "src/compile/mod.rs")],
      ["Engine::compile", "Renderer::to_string"]),
    P("C10", "Each emitted value is formatted exactly once by the right function",
      "Every `{{ }}` outputs its value through the formatter at the end of its pipeline, or else through the default formatter of "
      "the engine, exactly once and where it stands. Filters are called left to right, once per evaluation, with exactly the piped value and "
      "the written arguments; an unknown function, a formatter before the end or outside of `{{ }}`, or a failing function "
      "is an error.",
      ["programs", "inputs", "configurations"], "every pipeline, default formatter and value",
      "Tests use one filter or formatter at a time and look at the output only, which does not settle how often and in which order "
      "user functions are called in every combination of filters, formatters, borrowed and owned values.",
      ["src/render/core.rs", "src/compile/mod.rs", "src/fmt.rs", "src/filters/mod.rs", "src/render/stack.rs"],
      [("emit instructions", "src/render/core.rs"), ("code generation of calls", "src/compile/mod.rs"), ("default formatter", "src/fmt.rs")],
      ["Renderer::to_string", "calls of the registered functions"]),
    P("C11", "Writer failures are reported, stop rendering and never corrupt the output",
      "Rendering to a writer delivers exactly the text that rendering to a string returns. Whatever the writer does (short or "
      "interrupted writes, errors, zero-length writes) the bytes it took are a prefix of that text; its error ends the rendering "
      "and is returned as the source of an I/O error.",
      ["fault_sequences", "programs"], "every schedule of writer outcomes, every template",
      "Tests use one writer that always fails; partial writes in the middle of formatters, loops and includes are a product of "
      "schedules and programs.",
      ["src/fmt.rs", "src/render/core.rs", "src/render/mod.rs"],
      [("writer that keeps the I/O error", "src/fmt.rs"), ("mapping of write errors", "src/render/core.rs")],
      ["Renderer::to_writer"]),
    P("C12", "Includes resolve by exact name and are bounded in depth",
      "An include renders the template registered under exactly the written name, or what the template function returns for that "
      "name, called once per include in order. A chain of includes renders iff it is not longer than the configured maximum, "
      "counting only nested includes; recursion ends in an error, never in a crash.",
      ["programs", "configurations"], "every include graph, maximum and template function",
      "Tests have one recursive template and two depths; off-by-one behaviour for includes in loops, with scopes and with a limit set "
      "in two places is not sampled.",
      ["src/render/core.rs", "src/render/mod.rs", "src/lib.rs"],
      [("template lookup and depth check", "src/render/core.rs"), ("maximum on engine and renderer", "src/render/mod.rs")],
      ["Renderer::to_string", "Renderer::with_template_fn", "Renderer::with_max_include_depth"]),
    P("C13", "The registry reflects the last successful change to each name",
      "After any history of additions and removals, a name refers to what was added last under it and not removed since, for "
      "lookup, rendering and inclusion alike; other names are unaffected, and a failed addition changes nothing. Additions and removals report "
      "what was there before.",
      ["histories"], "every sequence of registry operations over any names",
      "Tests add or remove once; sequences of replacing, failing and removing over several names are not.",
      ["src/lib.rs"],
      [("template and function maps", "src/lib.rs")],
      ["Engine::get_template", "Engine::add_filter", "Engine::remove_template", "Engine::remove_function"]),
    P("C14", "An error names its template, the exact place in the source, and the cause",
      "Every error of compiling or rendering a template displays its cause on one line, and in the alternate form also the name "
      "of the template it is in (the included one, not the includer), the line and column of the offending text counted as "
      "displayed, the source line itself unchanged, and a marker under exactly that text.",
      ["inputs", "programs"], "every error, every text around it, every name and nesting of templates",
      "The tests compare errors of templates that are one ASCII line; positions after line ends, tabs and non-ASCII letters and "
      "in included templates are functions of unbounded surrounding text.",
      ["src/error.rs", "src/types/span.rs", "src/compile/parse.rs", "src/compile/lex.rs", "src/render/core.rs", "src/render/value.rs"],
      [("line, column and excerpt of a span", "src/error.rs"), ("spans of tokens and expressions", "src/compile/parse.rs"),
       ("enriching errors with template and span", "src/render/core.rs")],
      ["Display and Debug of Error"]),
    P("C15", "Conversion of Rust data to values is exact, or an error",
      "Serializing data gives the value with the same content: every integer that fits 64 bits, every float, character, text, byte, "
      "sequence, structure, variant and map with its keys as text, the last of equal keys winning; a value converts to itself. Data "
      "that a value cannot hold is an error, never altered. `From` and `value!` agree.",
      ["inputs"], "every serializable datum",
      "Tests convert one datum per type; the boundaries of integer types, wrong size hints, keys of unusual types and failing data "
      "inside of nested data are not sampled.",
      ["src/value/ser/mod.rs", "src/value/from.rs", "src/value/mod.rs", "src/macros.rs"],
      [("serializer of values", "src/value/ser/mod.rs"), ("From conversions", "src/value/from.rs")],
      ["upon::to_value", "upon::value!", "From for Value", "Template::render"]),
    P("C16", "Filters get exactly the written arguments, converted exactly or refused",
      "A filter is called iff it is given as many arguments as it has parameters and each value is of its parameter's type "
      "(integers: in range); it then receives the piped value and the arguments in order and unaltered, and what it returns is the "
      "value of the expression. A failing filter's message becomes the error. Changing its arguments affects nothing else.",
      ["inputs", "programs"], "every signature, every value of every argument, every place values come from",
      "Generated code implements 155 signatures and tests call a few; integer ranges of 12 types, and owned, borrowed and literal "
      "origins of each argument multiply.",
      ["src/filters/mod.rs", "src/filters/args.rs", "src/filters/impls.rs", "src/value/cow.rs", "src/render/stack.rs"],
      [("argument types", "src/filters/args.rs"), ("signatures", "src/filters/impls.rs"), ("taking owned values", "src/value/cow.rs")],
      ["Engine::add_filter", "calls of the registered filters"]),
    P("C17", "All ways to compile and render agree; value functions see the written paths",
      "Compiled and registered templates, serializable contexts, values and value functions, strings and writers all give the same "
      "text or error for the same source and data, every time, and change neither template nor context. A value function is called "
      "exactly for the paths whose first name is not bound in the template, with the members as written.",
      ["programs", "histories"], "every program, context and entry point",
      "Tests go through one entry point each; their agreement over all programs is a relation between runs.",
      ["src/lib.rs", "src/render/mod.rs", "src/render/stack.rs", "src/render/core.rs"],
      [("renderer construction", "src/lib.rs"), ("value function lookup", "src/render/stack.rs")],
      ["Template::render", "TemplateRef::render_from", "TemplateRef::render_from_fn", "Renderer::to_writer"]),
    P("C18", "Leaving out optional features changes nothing but what the feature provides",
      "Built without its default features, the crate accepts the same templates, renders the same text from the same values and "
      "reports the same errors at the same places, except that: without `filters` only formatters can be registered (any other "
      "function is unknown, and a formatter is only allowed last in an expression that is emitted); without `unicode` names "
      "consist of ASCII letters, digits and underscores, and columns count characters; without `serde` values are given as such.",
      ["inputs", "programs"], "every template and value, in every set of features",
      "The test suite is built with all features only; the code under `cfg(not(feature = ...))`, and what is left when a match arm "
      "is compiled out, is never executed by it.",
      ["src/render/core.rs", "src/compile/lex.rs", "src/error.rs", "src/lib.rs", "src/render/mod.rs"],
      [("functions without filters", "src/render/core.rs"), ("names without unicode", "src/compile/lex.rs"),
       ("columns without unicode", "src/error.rs")],
      ["upon with default-features = false"]),
]

NOT_APPLICABLE = {}

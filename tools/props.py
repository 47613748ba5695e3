"""The properties and how each is checked.  Writes properties.jsonl and MANIFEST.json.

    python3 tools/props.py
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "dist/vxlisp/vx/core.vxlisp"
NAT = ["dist/vxlisp/vx/core_js.txt", "dist/vxlisp/vx/core_java.txt", "dist/vxlisp/vx/core_cpp.txt"]
COLL = "dist/vxlisp/vx/collection.vxlisp"
TYPE = "dist/vxlisp/vx/type.vxlisp"
EMIT = ["src/vxlisp/lang-func.go", "src/vxlisp/lang-js.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/lang-type.go"]
MC = "model_checking"
TLA = "TLA+ specification (TLC): "
TRUST = ("Trusts TLC, the toolchains and the replayer (lib/machine.py, drivers/), which only renders, runs and compares; "
         "verdicts come only from what the compiled programs print. ")

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, level=MC, state=None, observe=None, hook=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, observe=observe, hook=hook))


prop("P09", "A program's value does not depend on how it is written or on the target",
     "A program built from the arithmetic, comparison, logic, text, list, map, struct, conversion and conditional functions of the standard library gives the same value, the one the meaning of each function prescribes, when compiled to JavaScript, Java or C++. "
     "It does so whichever way the program is laid out: with local bindings, nested calls, separate functions in any order, parameters, functions written in place that capture values, or conditionals around its parts. "
     "Running it again gives the same value, and literal text in the program is never taken for code.",
     ["programs", "inputs", "configurations"],
     "every well-typed program over those functions, every way of arranging its steps, every one of the three targets",
     "The tests compile fixed snippets and compare emitted text, and run each library function on a few inputs; no test composes functions, arranges the same computation differently, or compares targets on programs nobody wrote by hand.",
     EMIT + ["src/vxlisp/value.go", "src/vxlisp/func.go", CORE] + NAT,
     [("expression to target code", "src/vxlisp/lang-func.go, src/vxlisp/lang-js.go, src/vxlisp/lang-cpp.go"),
      ("linking of values and functions", "src/vxlisp/value.go ValueLink, src/vxlisp/func.go FuncLink")],
     TLA + "simulated program traces replayed into compiled JavaScript, Java and C++",
     "Exploration of random behaviours of VxMachine (seeded): each trace is a 10-step program with the value of every step; it is rendered in seven shapes, compiled for three targets, run twice and every step compared. " + TRUST)

prop("P10", "Arithmetic gives the exact mathematical result on every target",
     "Addition, subtraction, multiplication and division of integers and of decimals that are exactly representable, with two or more operands where allowed, and the increment and decrement functions give the mathematical result on the JavaScript, Java and C++ targets. "
     "Division by zero gives not-a-number and never ends the program.",
     ["inputs", "programs", "configurations"],
     "all operand combinations, including zero, negative and mixed integer/decimal operands, whose results stay within a million; alone and inside larger programs",
     "The tests evaluate one or two sums per function, on one target, with positive operands.",
     [CORE] + NAT, [("arithmetic functions and their native bodies", "dist/vxlisp/vx/core.vxlisp"), ("number helpers", "dist/vxlisp/vx/core_java.txt, dist/vxlisp/vx/core_cpp.txt")],
     TLA + "enumerated one-step expressions and simulated programs replayed into the three targets",
     "Exhaustive over the operand table of VxMachine (about 1800 expressions), plus simulated programs. " + TRUST)

prop("P18", "Comparison and equality are consistent and total on every target",
     "Less-than, greater-than, their or-equal forms and the three-way comparison order integers, decimals and texts totally and consistently on the JavaScript, Java and C++ targets, and a comparison of several values holds exactly when it holds between neighbours. "
     "Equality holds exactly between values of the same type with the same content, at any nesting of lists, maps and structs, is symmetric, and values of different types are never equal. "
     "The logical functions follow their truth tables.",
     ["inputs", "configurations"],
     "all pairs (and triples where allowed) of values of each kind, including empty values, on each target",
     "The tests compare a handful of equal or ordered pairs; they never compare empty with non-empty values, texts by character order, different types, or nested values on all targets.",
     [CORE] + NAT, [("comparison functions", "dist/vxlisp/vx/core.vxlisp"), ("vx_compare / vx_eq", "dist/vxlisp/vx/core_js.txt, core_java.txt, core_cpp.txt")],
     TLA + "exhaustive pair and triple tables, with order laws as invariants, replayed into the three targets",
     "Exhaustive over about 3600 comparisons; the laws themselves are invariants of the specification. " + TRUST)

prop("P11", "Text functions agree with their definition for every text and position",
     "Joining, length, taking the start, end or a slice, finding, replacing, splitting, changing case, repeating, trimming and converting between text and integers give the defined result on the JavaScript, Java and C++ targets for every text of printable ASCII characters, tabs and line ends and for every position, including positions outside the text. "
     "Search and replacement text is always taken literally.",
     ["inputs", "programs", "configurations"],
     "all texts up to the bounds, every position from below the start to beyond the end, every separator and search text including empty ones",
     "Each text function has one or two examples with in-range positions; special characters, empty separators and out-of-range positions are not tried.",
     [TYPE, CORE, "dist/vxlisp/vx/type_js.txt", "dist/vxlisp/vx/type_java.txt", "dist/vxlisp/vx/type_cpp.txt"] + NAT,
     [("text functions", "dist/vxlisp/vx/type.vxlisp"), ("string helpers", "dist/vxlisp/vx/core_cpp.txt, core_java.txt")],
     TLA + "enumerated text operations and simulated programs replayed into the three targets",
     "Exhaustive over about 3000 text operations plus simulated programs. " + TRUST)

prop("P12", "List functions agree with their definition for every list, position and function",
     "Building, measuring, indexing, copying with additions, slicing, mapping, filtering, reducing, joining, flattening, searching and looping over lists give the defined result, in order and without losing or repeating items, on the JavaScript, Java and C++ targets. "
     "Positions outside the list give the empty value, never an error.",
     ["inputs", "programs", "configurations"],
     "all lists of the enumerated shapes (empty, single, repeated and empty items), every position from negative to beyond the end, every function given to them including ones that capture values",
     "Each list function is tested on one ordinary list; empty lists, empty items, repeated items and out-of-range positions are not combined.",
     [COLL, CORE, "dist/vxlisp/vx/collection_js.txt", "dist/vxlisp/vx/collection_java.txt", "dist/vxlisp/vx/collection_cpp.txt"] + NAT,
     [("list functions", "dist/vxlisp/vx/collection.vxlisp, dist/vxlisp/vx/core.vxlisp"), ("vx_list helpers", "core_js.txt, core_java.txt, core_cpp.txt")],
     TLA + "enumerated list operations and simulated programs replayed into the three targets",
     "Exhaustive over about 2500 list operations plus simulated programs. " + TRUST)

prop("P13", "Maps and structs give back what was put in, in order",
     "A map gives for each key the value last given for it and the empty value for other keys, and every function over maps (keys, conversion to and from lists, mapping, reducing, selecting and removing keys, slicing, copying) visits the entries in insertion order on the JavaScript, Java and C++ targets. "
     "A struct gives back each property as it was set, the empty value for properties never set, and a copy differs only in the properties named.",
     ["inputs", "programs", "configurations"],
     "all maps and structs of the enumerated shapes, present and absent keys, repeated keys, empty values, nested structs",
     "The tests build one two-entry map per function and read one property; insertion order against sorted order, empty values and repeated keys are not tried.",
     [CORE, COLL] + NAT + ["src/vxlisp/lang-type.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/lang-js.go"],
     [("map and struct classes", "src/vxlisp/lang-type.go, src/vxlisp/lang-cpp.go, src/vxlisp/lang-js.go"), ("map functions", "dist/vxlisp/vx/core.vxlisp, dist/vxlisp/vx/collection.vxlisp")],
     TLA + "enumerated map and struct operations and simulated programs replayed into the three targets",
     "Exhaustive over about 1300 operations plus simulated programs. " + TRUST)

prop("P14", "Nothing a program does changes a value it already has",
     "Values are immutable: after any function has been given a list, map, struct or text, that value, and every value that contains it, still prints exactly as before, and evaluating the same expression again gives the same result. "
     "This holds on the JavaScript, Java and C++ targets for copies, conversions, joins, slices and functions given to other functions.",
     ["programs", "histories", "configurations"],
     "every sequence of operations on shared values, on each target",
     "The tests look at results only; none prints an argument again after a call or evaluates an expression twice.",
     [CORE, COLL] + NAT + ["src/vxlisp/lang-type.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/lang-js.go"],
     [("vx_copy of lists, maps and structs", "src/vxlisp/lang-type.go, src/vxlisp/lang-cpp.go, dist/vxlisp/vx/core_js.txt")],
     TLA + "temporal immutability property of VxMachine; operations replayed with their arguments held and printed before and after",
     "Every kind of operation on held arguments (stratified sample in quick, all in thorough) and simulated programs that print every earlier binding at the end. " + TRUST)

prop("P15", "A typed list or map never holds a value its type does not allow",
     "However a list or map of a type with allowed element types is built (construction, copying with additions, conversion from another list or map, through a function), it holds only values of the allowed types, keeps the allowed ones in order, and later operations never see the others. "
     "A value built without anything disallowed carries no error on any target.",
     ["inputs", "programs", "configurations"],
     "every mixture of allowed and disallowed values, at every position, for every container type and way of building it, on the JavaScript, Java and C++ targets",
     "The tests build containers of the right type; only a few try one wrong value on one target.",
     [CORE, COLL] + NAT + ["src/vxlisp/lang-type.go", "src/vxlisp/lang-cpp.go"],
     [("type check of added values", "src/vxlisp/lang-type.go, src/vxlisp/lang-cpp.go, dist/vxlisp/vx/core_js.txt")],
     TLA + "well-typedness invariant of VxMachine; enumerated mixtures replayed into the three targets",
     "Exhaustive over about 3700 constructions plus simulated programs. " + TRUST)

prop("P16", "Type tests, type names and casts tell the truth and never fail",
     "Type tests, type names, emptiness tests and casts give the defined answer for every value on the JavaScript, Java and C++ targets: a cast to the value's own type (or one it belongs to) gives the value itself, and a cast of a primitive that cannot succeed gives the empty value. "
     "None of them ends the program.",
     ["inputs", "programs", "configurations"],
     "every pairing of a value with a type, including empty values and nested containers",
     "The tests try one matching cast per type; mismatching casts and tests across kinds are not enumerated.",
     [CORE] + NAT, [("any<-any, typename, is- functions", "dist/vxlisp/vx/core.vxlisp"), ("vx_any_from_any", "core_js.txt, core_java.txt, core_cpp.txt")],
     TLA + "enumerated value/type pairs and simulated programs replayed into the three targets",
     "Exhaustive over about 870 pairs plus simulated programs. " + TRUST)

prop("P17", "The printed form of a value is source text for that value",
     "Printing a value gives the same text on the JavaScript, Java and C++ targets, and that text, put back into a program, is an expression whose value prints identically. "
     "This holds for texts with quotes, brackets, comment marks, line ends and code-like content, and for nested lists, maps and structs.",
     ["inputs", "programs", "configurations"],
     "every value up to the nesting bound, every text of printable ASCII characters without backslashes",
     "The tests print a few values on one target and never compile what was printed.",
     [CORE] + NAT + ["src/vxlisp/textblock.go", "src/vxlisp/value.go"],
     [("string<-any", "dist/vxlisp/vx/core_js.txt, core_java.txt, core_cpp.txt"), ("text literals", "src/vxlisp/lang-native.go, src/vxlisp/textblock.go")],
     TLA + "Show operator of VxData; printed texts recompiled and compared on the three targets",
     "Exhaustive over about 1300 values plus values computed by simulated programs. " + TRUST)

prop("P23", "A finished C++ program has given back every value it made",
     "In C++ programs values are reference counted: when a call of any program built from the standard library has returned and its result has been dropped, no value made during the call is still held, and no value is given back while something still uses it.",
     ["programs", "inputs"],
     "every program over the library functions in every arrangement, every argument",
     "The library tests check the count for the fixed test expressions only.",
     ["src/vxlisp/lang-cpp.go", "dist/vxlisp/vx/core_cpp.txt", CORE, COLL],
     [("reserve and release around calls", "src/vxlisp/lang-cpp.go"), ("reference counts", "dist/vxlisp/vx/core_cpp.txt vx_reserve, vx_release")],
     TLA + "VxMachine programs replayed into C++ with the count of live values measured around each second call",
     "Stratified tables of all operations and simulated programs; a use after release shows as a crash or a wrong value, which other properties' checks also report. " + TRUST,
     state=[{"name": "refcount", "meaning": "number of live values", "where": "dist/vxlisp/vx/core_cpp.txt"}])

prop("P29", "Conditionals give the first branch that applies",
     "A conditional gives the value of its first branch whose condition holds, else of its else branch, else the empty value of its type, and a case distinction likewise gives the first case equal to the value or, for a list, containing it; clauses that are not chosen, and conditions after the chosen one, are not evaluated. "
     "This holds on the JavaScript, Java and C++ targets for conditions and branches of every type, nested in any way.",
     ["inputs", "programs", "configurations"],
     "every combination of conditions, cases and branch values, nested to any depth",
     "The tests have one example per form with constant branches; order of overlapping cases and evaluation of branches not taken are not tried.",
     [CORE] + NAT + ["src/vxlisp/lang-func.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/lang-js.go"],
     [("if, switch, then, case, else", "dist/vxlisp/vx/core.vxlisp"), ("thenelse evaluation", "core_js.txt, core_java.txt, core_cpp.txt")],
     TLA + "enumerated conditionals and simulated programs replayed into the three targets",
     "Exhaustive over about 1000 conditionals plus simulated programs. " + TRUST)

SETUP = "bash tools/setup.sh"
HOOKS = {"guard": "none", "enable": "No hooks: the checks drive the compiler and the generated programs through their ordinary interfaces.", "source_commits": []}
NOT_APPLICABLE = []
NOTES = "See DESIGN.md. Findings that are recorded rather than repaired are in KNOWN_FINDINGS.txt."


def load_more():
    import glob
    import importlib.util
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "props_*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        m.__dict__.update({k: v for k, v in globals().items() if not k.startswith("__")})
        spec.loader.exec_module(m)


def main():
    load_more()
    P.sort(key=lambda p: p["pid"])
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            if p["hook"]:
                a["hook_needed"] = p["hook"]
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": SETUP, "hooks": HOOKS,
         "checks": [{"property": p["pid"], "quick_cmd": "python3 checks/run.py " + p["pid"],
                     "thorough_cmd": "python3 checks/run.py " + p["pid"], "evidence_file": "evidence/%s.json" % p["pid"],
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"].strip()} for p in P if p["technique"]],
         "not_applicable": NOT_APPLICABLE, "notes": NOTES}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()

PURE = "A pure function of its input: no schedule, clock, peer, I/O or failure takes part, so that there is nothing for a simulator to decide; generating inputs would be a different technique."
def na(id, title, statement, quantifier, why, files, mechanism, observe, reason):
    prop(id, title, statement, ["inputs"], quantifier, why, files, mechanism, observe, "")
    NA.append(dict(property=id, reason=reason))
na("N01", "Formatting source code preserves its meaning and is stable",
 "Formatting a valid module gives a valid module with the same syntax tree and the same comments in the same places, and formatting the result again changes nothing. A module that does not parse is reported as an error with the position of the fault.",
 "every valid module, with comments anywhere, and every invalid text",
 "The space of modules is infinite; tests have some dozens of snippets.",
 ["lib/format/src/lib.rs", "lib/parse/src/lib.rs"], [("printing of documents", "lib/format/src/lib.rs"), ("parsing", "lib/parse/src/lib.rs")],
 ["text printed by pen format", "errors of the parser"], PURE)
na("N02", "Accepted programs are type safe, rejected ones have an error",
 "A module that the type checker accepts never gets stuck: no operation is applied to a value of another type, unions and any values are only used after they have been narrowed, and generic operations are instantiated consistently. Inference gives every expression the least type of its uses, whatever the order of definitions.",
 "every module and every set of imported interfaces",
 "Soundness is a statement about all programs.",
 ["lib/hir/src/analysis/type_checker.rs", "lib/hir/src/analysis/type_inferrer.rs", "lib/hir/src/analysis.rs"], [("type checking", "lib/hir/src/analysis/type_checker.rs")],
 ["diagnostics of the compiler"], PURE + "")
na("N03", "Compiled programs behave as the language defines",
 "A compiled program computes what the language's reference defines: evaluation order, laziness of lists, equality, hashing, closures, recursion with bounded stack in tail calls, and balanced reference counts on every path.",
 "every program and every input",
 "Programs are infinite in number; tests run a handful end to end.",
 ["lib/hir-mir/src/expression.rs", "lib/mir/src/analysis/reference_count.rs", "lib/mir-fmm/src/expression.rs"], [("lowering", "lib/hir-mir/src/lib.rs"), ("reference counting", "lib/mir/src/analysis/reference_count.rs"), ("code generation", "lib/mir-fmm/src/lib.rs")],
 ["results of compiled programs"], "The compiler is a pure function, and its code generator (fmm with LLVM) cannot be built in this sandbox, which has neither the crates nor LLVM, so that no compiled program exists to be simulated. The runtime that compiled programs run on is what the other properties are about.")
na("N04", "Maps, JSON values, pages and flags are right",
 "The operations that are written in Pen itself give the results their documentation defines for every argument: maps and sets of the prelude as finite maps, JSON that decodes to the value it was encoded from, rendered pages, parsed flags, debug output and equality of any values.",
 "every argument, nested values included",
 "Tests have some arguments each.",
 ["packages/prelude/Map.pen", "packages/json/Decode.pen", "packages/json/Encode.pen", "packages/html/Render.pen", "packages/flag/Flag.pen"], [("maps", "packages/prelude/Map.pen"), ("JSON", "packages/json/Decode.pen")],
 ["results of the operations"], "Written in Pen, which cannot be compiled here (see N03), and pure. The native operations beneath them (text, numbers, hashes, escaping) are checked by C08, regular expressions by C10, lists across the ABI by C09, the shared values beneath by C01, C02 and C03.")
na("N05", "Generated documentation describes every public definition",
 "The documentation of a package has each of its public types and functions once, under its module, with its comment and signature.",
 "every package",
 "Packages are infinite in number.",
 ["lib/doc/src/lib.rs", "lib/doc/src/markdown.rs"], [("collection of definitions", "lib/doc/src/lib.rs")],
 ["text printed by pen generate-documentation"], PURE)

"""Per property: driver, number of cases per tier, and what makes a case non-trivial."""
ASSUMPTIONS = [
    "the verdict covers the executions that were run, nothing else",
    "the reference models in /verif/harness are right where they agree with the code on every unchanged-tree run",
]
PLAN = {
    "C01": dict(driver="drv_lex", quick=25000, thorough=600000,
                rule="random sets of up to 4 regular expressions over hostile alphabets (metacharacters, block borders, surrogates) and the predefined Unicode classes, and inputs biased towards matches; non-trivial: at least one token of 2+ symbols was matched"),
    "C02": dict(driver="drv_lex", quick=25000, thorough=600000,
                rule="random lexers and inputs with every newline style, read from several kinds of source and with interleaved streams; non-trivial: several lexemes were produced"),
    "C03": dict(driver="drv_lex", quick=12000, thorough=300000,
                rule="random NFAs, each taken through every pipeline variant (unique symbols, determinised, merged, compacted, every table format); non-trivial: the variants were run on inputs that are partly accepted"),
    "C04": dict(driver="drv_lex", quick=40000, thorough=1000000,
                rule="random histories of set operations checked pointwise against a bitmap-and-intervals model; non-trivial: the result has several ranges"),
    "C05": dict(driver="drv_lex", quick=40000, thorough=1000000,
                rule="random Unicode text encoded by the harness and valid/invalid byte sequences; non-trivial: contains multi-byte sequences"),
    "C06": dict(driver="drv_lex", quick=25000, thorough=600000,
                rule="random literals, expressions and symbol sets made case insensitive; non-trivial: contains a symbol with case mappings"),
    "C07": dict(driver="drv_cfg", quick=40000, thorough=800000,
                rule="random EBNF grammars (recursion, nullable items, nested repeats); FIRST and FOLLOW of every symbol and item against a fixpoint over the expanded grammar; non-trivial: the grammar has a nullable or recursive symbol"),
    "C08": dict(driver="drv_cfg", quick=15000, thorough=300000, must_observe=["long_inputs"],
                rule="random EBNF grammars with sentences and mutated sentences, every shift and reduction recorded; non-trivial: the conflict-free grammar accepted a sentence of several symbols"),
    "C09": dict(driver="drv_cfg", quick=15000, thorough=300000,
                rule="random EBNF grammars, most of them ambiguous or beyond LALR(1); the whole conflict list against a reference LALR(1) construction; non-trivial: more than four states"),
    "C10": dict(driver="drv_lang", quick=12000, thorough=250000, must_observe=["conflicts-resolved", "precedence-trees"],
                rule="random expression grammars (binary, prefix, postfix operators, brackets, statement lists) and other ambiguous grammars, written as definition text with random precedence blocks; every parse compared with a reference automaton and, for pure binary expressions, with precedence climbing; non-trivial: a parse of four or more events"),
    "C11": dict(driver="drv_lang", quick=30000, thorough=600000, must_observe=["guards-matched", "guards-tried", "strong-meaning-used", "ignorable-skipped"],
                rule="definitions with guards (bounded and unbounded lookahead, nested guards, several guards on one position, weak and ignored tokens inside them); guard contents decided by Earley on the rest of the input; non-trivial: a guard matched"),
    "C12": dict(driver="drv_lang", quick=14000, thorough=250000, must_observe=["conflicts-resolved", "weak-reduce-tests"],
                rule="ambiguous definitions with random conflict=shift/reduce/weak reduce attributes; non-trivial: an attribute decided a conflict and four or more events were observed"),
    "C13": dict(driver="drv_lang", quick=40000, thorough=800000, must_observe=["strong-meaning-used", "weak-meaning-used"],
                rule="random sets of strong and weak keywords, patterns and implicit literals that match the same words, and conflict-free grammars over them; non-trivial: some token was used in its strong meaning"),
    "C14": dict(driver="drv_lang", quick=40000, thorough=800000, must_observe=["ignorable-skipped"],
                rule="definitions whose ignored symbols are also used in the grammar, texts with ignored symbols at random places; non-trivial: a symbol was skipped and something was parsed"),
    "C15": dict(driver="drv_cfg", quick=15000, thorough=300000, must_observe=["long_inputs"],
                rule="random histories of copy, step, look ahead, run to the end and destroy over parser states that share a stack and a session; non-trivial: several states were alive at once"),
    "C16": dict(driver="drv_def", quick=40000, thorough=800000, must_observe=["elements", "positions", "copies", "bad-symbols", "truncated"],
                rule="random definition files with every construct of the definition language and random layout and comments; the syntax tree of the front end against the generated one, positions against the generated layout, copies of every block, and the same files with a wrong token or cut short; non-trivial: the file has six or more elements"),
    "C17": dict(driver="drv_lang", quick=14000, thorough=250000, must_observe=["languages", "files", "strays", "changed-definitions", "strong-meaning-used", "guards-matched"],
                rule="the rules, symbols and precedence blocks of a random definition spread over a chain of two to four languages in up to four files with cyclic and repeated imports, by =, |= and replace, with definitions that are replaced later and sibling languages that change the same things; every parse compared with the reference automaton of the flattened definition; non-trivial: something inherited was changed and a parse has four or more events"),
    "C18": dict(driver="drv_def", quick=16000, thorough=300000, must_observe=["passing", "failing", "missing-files", "missing-languages", "empty-blocks", "probes"],
                rule="random languages with random test blocks (=, !=, from; named tests, several blocks, inherited and imported languages, missing files and languages); expected results by the reference automaton and Earley; non-trivial: at least one test has to fail"),
    "C20": dict(driver="drv_def", quick=24000, thorough=500000, must_observe=["definitions", "diagnostics", "compiled", "parses", "test-runs"],
                rule="definitions of every kind (single, composed over several files, with guards, precedence, attributes, tests and parser blocks) changed in up to twenty places, from parts replaced by parts of the same kind to arbitrary bytes, taken through every stage of the tool up to writing C++, parsing and running the tests, under ASan/UBSan with a CPU budget; non-trivial: the definition was changed and something was reported"),
    "C19": dict(driver="drv_gen", quick=80, thorough=2400, budget=240, prepare=lambda B: B.generator_env(), must_observe=["programs", "accepted", "constants"],
                rule="random definitions (plain, expression and guarded grammars; names that clash as identifiers) are turned into C++, six to a program, compiled with sanitizers and run on random texts; non-trivial: at least four texts were accepted"),
    "C24": dict(driver="drv_gen", quick=80, thorough=2400, budget=240, prepare=lambda B: B.generator_env(), must_observe=["programs", "accepted", "tree-lines"],
                rule="as for C19, with random name attributes on the items; every typed tree that a generated parser builds is walked through its public members; non-trivial: at least four texts were accepted"),
    "C25": dict(driver="drv_cfg", quick=80000, thorough=2000000, must_observe=["resolved_grammars", "lalr1_grammars", "plain-resolved"],
                rule="grammars whose nonterminals have the same bodies and are told apart by what comes before and after them (beyond LALR(1)), chains and nestings of such grammars, and random EBNF grammars, all built with the LR(1) resolver; non-trivial: the resolver removed every conflict and a sentence of several symbols was accepted"),
    "C21": dict(driver="drv_def", quick=5000, thorough=100000, must_observe=["compiled", "repetitions", "layouts", "unrelated", "lines-written"],
                rule="random definitions (single, composed over several files) are compiled and translated to C++ twice, again after other definitions were compiled in the same process, with another layout and comments, and next to a language that is not used; every diagnostic, table and written line is compared; non-trivial: the definition compiled and C++ was written"),
    "C23": dict(driver="drv_def", quick=60000, thorough=1500000, must_observe=["definitions", "DUPLICATE_LEXER_SYMBOL", "UNDEFINED_NONTERMINAL", "INEFFECTIVE_GUARD", "BAD_REGULAR_EXPRESSION", "CONFLICT_SHIFT_REDUCE", "CONFLICT_REDUCE_REDUCE", "UNUSED_TERMINAL_SYMBOL", "SYMBOL_CANNOT_BE_GENERATED", "INHERITANCE_LOOP", "CANT_OPEN_FILE"],
                rule="definitions with planted faults of every kind at known places (duplicate and undefined symbols, bad expressions, hidden symbols, conflicts, useless guards, missing files, inheritance loops, in base, derived and imported languages); the set of diagnostics with code, severity, file, line and column against the set of planted and computed ones; non-trivial: at least one diagnostic was due"),
    "C26": dict(driver="drv_def", quick=16000, thorough=300000, budget=120, prepare=lambda B: {"VF_TOOL": B.build("tameparse")}, must_observe=["runs", "files-written", "accepted", "rejected", "diagnostics", "parser-blocks", "inferred", "blocked", "overwritten", "wide-input", "refused", "test-runs", "directories-in-the-way"],
                rule="random definitions spread over files in several directories with imports found next to the input file, in the working directory or on the include path, compiled by the sanitized tool with random options in every spelling and order, some of them unusable, output that cannot be written, and texts to test on standard input; non-trivial: something was written, tested or reported"),
    "C27": dict(driver=["drv_lex", "drv_cfg", "drv_lang", "drv_def", "drv_cfg", "drv_lang", "drv_def", "drv_gen"], quick=8000, thorough=100000, budget=120, prepare=lambda B: B.generator_env(),
                must_observe=["workload-" + x for x in ("C01", "C02", "C03", "C05", "C07", "C09", "C15", "C22", "C25", "C10", "C11", "C13", "C14", "C17", "C16", "C20", "C21", "C23", "generated")],
                rule="the workloads of the other properties (lexers, streams, grammars, copied and abandoned parser states, right and wrong definitions, code generation, generated parsers), each run again and again in one process, with the allocated bytes observed after each run; non-trivial: as for the property that the workload is from"),
    "C22": dict(driver="drv_cfg", quick=40000, thorough=800000, must_observe=["rejections", "asked-possible", "asked-impossible"],
                rule="random grammars and token streams with one wrong, missing or extra token, over a recording stream, and states asked after each shift which symbols can be next; non-trivial: the error is past the first token"),
    "C28": dict(driver="drv_def", config=("tsan",), quick=6000, thorough=150000, budget=60, must_observe=["threads", "switches", "shared-parses", "accepted", "rejected"],
                rule="two to four threads, held back until all are there and with random pauses, read random definitions, build lexers and parse, each with objects of its own, and then all parse random texts with one parser and one lexer; non-trivial: the threads' steps were interleaved at least as often as there are threads, and some definition compiled"),
}

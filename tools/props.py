#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (only properties that have a plan are claimed).   usage: props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN
T = "TameParse/"
PROPS = []


def at(f):
    return f if f.startswith("parsetool/") else T + f


def P(id, title, statement, over, text, why, files, mech, observe, technique, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=[at(f) for f in files], mechanism=[dict(name=a, where=at(b)) for a, b in mech],
                                   observe_at=observe, hook_needed=None), technique=technique, note=note))


P("C01", "A lexer built from regular expressions finds the longest match",
  "For any set of well-formed regular expressions, the lexer built from them splits any input into exactly the tokens that the mathematical meaning of the expressions gives: at every position the longest prefix that matches some expression, attributed to the expression with the highest priority when several match it, and otherwise a single rejected symbol. The documented regular expression syntax (alternation, repetition counts, classes, negated classes, escapes, named sub-expressions, characters outside the BMP) has its documented meaning in every combination.",
  ["inputs", "programs"], "every set of expressions, every input string",
  "The unit tests match a few dozen fixed expressions against fixed strings; operator combinations, unusual symbol ranges and backtracking over long prefixes are unbounded.",
  ["Dfa/ndfa_regex.cpp", "Dfa/ndfa.cpp", "Dfa/ndfa_transformations.cpp", "Dfa/lexer.h", "Dfa/state_machine.h"],
  [("expression compiler", "Dfa/ndfa_regex.cpp"), ("longest-match loop", "Dfa/lexer.h")],
  ["the sequence of lexemes"], "runtime monitor: reference derivative matcher compared online with the sanitized lexer")
P("C02", "Tokenising conserves the input and reports true positions",
  "The lexemes of a stream, put together, spell exactly the input that was read; each one carries the offset, line and column at which its text starts, for every mix of newline conventions, and its own content. The result does not depend on the kind of source the symbols come from, and streams made by the same lexer do not influence each other.",
  ["inputs", "histories"], "every lexer, input text, kind of source and interleaving of streams",
  "Tests check positions on a few short ASCII strings from one kind of source.",
  ["Dfa/lexer.h", "Dfa/basic_lexer.h", "Dfa/position.h", "Dfa/lexeme.h", "Util/stringreader.h", "Util/utf8reader.h"],
  [("position tracker", "Dfa/position.h"), ("lexer buffer", "Dfa/lexer.h")],
  ["lexeme content and positions"], "runtime monitor: conservation and position checker over the lexeme trace")
P("C03", "Every form of the compiled automaton recognises the same tokens",
  "Making symbol sets disjoint, determinising, merging equivalent states and compacting an automaton, and turning it into any of the table representations, never change which prefix of an input is matched or which action it is given. The results that are claimed to be deterministic and free of overlapping symbol sets are so.",
  ["programs", "inputs", "configurations"], "every automaton, every order of optimisations and table format, every input",
  "Tests run the optimisers on a handful of tiny automata and compare a handful of strings.",
  ["Dfa/ndfa_transformations.cpp", "Dfa/ndfa.cpp", "Dfa/state_machine.h", "Dfa/symbol_translator.h", "Dfa/hard_coded_symbol_table.h"],
  [("subset construction and merging", "Dfa/ndfa_transformations.cpp"), ("table encodings", "Dfa/state_machine.h")],
  ["lexemes produced by each variant"], "runtime monitor: differential execution of every pipeline variant under ASan/UBSan")
P("C04", "Symbol sets behave as sets of integers",
  "Every history of unions, exclusions, complements, comparisons and enumerations on symbol sets gives the results that plain sets of integers would give, over the full symbol range. Splitting a family of sets into disjoint parts loses and invents no symbol, and lookup tables built from such a family return the right part for every symbol.",
  ["histories", "inputs"], "every sequence of operations, every symbol",
  "Tests exercise single operations on a few small ranges.",
  ["Dfa/symbol_set.cpp", "Dfa/symbol_map.cpp", "Dfa/remapped_symbol_map.cpp", "Dfa/symbol_table.h", "Dfa/hard_coded_symbol_table.h", "Dfa/symbol_translator.h", "Dfa/range.h"],
  [("interval merging", "Dfa/symbol_set.cpp"), ("two-level tables", "Dfa/symbol_table.h")],
  ["membership, enumeration, comparison results"], "runtime monitor: pointwise model of set histories under ASan/UBSan")
P("C05", "Text encodings are decoded faithfully",
  "Decoding the UTF-8 form of any Unicode text yields that text, code point by code point, and input that is cut short or not valid UTF-8 is handled without reading out of bounds, looping or producing more symbols than there are bytes. Conversions between narrow, wide and UTF-8 text round-trip.",
  ["inputs"], "every sequence of code points and every byte sequence",
  "Tests decode a few fixed strings.",
  ["Util/utf8reader.cpp", "Util/unicode.cpp", "Util/utf8reader.h"],
  [("UTF-8 state machine", "Util/utf8reader.cpp")],
  ["decoded symbols"], "runtime monitor: independent codec compared online, ASan/UBSan")
P("C06", "Case-insensitive matching accepts exactly the case variants",
  "An expression or literal compiled as case insensitive matches a text exactly when replacing symbols by their upper- or lower-case counterparts makes the case-sensitive expression match it, including inside classes, ranges and mixed with case-sensitive expressions in the same lexer.",
  ["inputs", "programs"], "every expression, every input, every cased symbol",
  "Tests match a few ASCII words.",
  ["Dfa/ndfa.cpp", "Dfa/symbol_set.cpp", "Util/unicode.cpp", "Unicode/unicode_data.h"],
  [("case translation of symbol sets", "Util/unicode.cpp")],
  ["lexemes of case variants"], "runtime monitor: reference matcher with simple case folding")
P("C07", "FIRST and FOLLOW sets are exact",
  "For any grammar, including left, right and mutually recursive rules and nested optional, repeated and alternative groups, the computed FIRST set of each item and of each rule, and the FOLLOW set of each nonterminal and group, contain exactly the terminals that can begin it, respectively come after it, in some derivation, and the empty marker exactly when it can derive nothing. The result does not depend on the order in which rules are added or sets are asked for.",
  ["programs", "histories"], "every grammar, every order of queries",
  "Tests compare the sets of a few textbook grammars.",
  ["ContextFree/grammar.cpp", "ContextFree/standard_items.cpp", "ContextFree/ebnf_items.cpp", "ContextFree/item_set.cpp"],
  [("set computation and caching", "ContextFree/grammar.cpp")],
  ["the sets returned"], "runtime monitor: fixpoint oracle over the expanded grammar")
P("C08", "A generated parser accepts exactly its language and reports a derivation",
  "For every grammar without conflicts, the parser accepts exactly the token sequences its start symbol derives, and always terminates. The reductions it performs, in order, form the rightmost derivation of the input: each one receives exactly the values of the items of its rule, every token is shifted once, and the final value is the tree of the whole input.",
  ["programs", "inputs"], "every conflict-free grammar with any number of start symbols, every token sequence",
  "Tests parse a few strings with a few grammars; acceptance over all strings and tree shape over all derivations is not sampled.",
  ["Lr/lalr_builder.cpp", "Lr/lalr_machine.cpp", "Lr/parser.h", "Lr/parser_state.h", "Lr/parser_tables.cpp", "Lr/ast_parser.h", "Lr/lr_item.h"],
  [("LALR(1) construction", "Lr/lalr_builder.cpp"), ("table lookup", "Lr/parser_tables.cpp"), ("shift/reduce loop", "Lr/parser_state.h")],
  ["verdict, shift and reduce calls, resulting tree"], "runtime monitor: Earley oracle, derivation checker and reference automaton over the parser event trace")
P("C09", "Conflicts are reported exactly when the grammar has them",
  "A state and token for which the LALR(1) automaton of the grammar has more than one possible action is reported as a conflict, exactly once, with all the competing rules, and as shift/reduce or reduce/reduce according to what the actions are; nothing else is reported. A grammar without conflicts is therefore never reported as having one and an ambiguous one always is.",
  ["programs"], "every grammar",
  "Tests look at the conflicts of two or three grammars.",
  ["Lr/conflict.cpp", "Lr/lalr_builder.cpp", "Lr/lalr_machine.cpp"],
  [("conflict search", "Lr/conflict.cpp")],
  ["the conflict list"], "runtime monitor: reference LALR(1) automaton compared with the reported conflicts")
P("C10", "Operator precedence and associativity decide how expressions are grouped",
  "In a language with precedence blocks, an expression is grouped as the declared levels and associativities say: operators of a later level bind more tightly, left-associative ones of the same level group to the left, right-associative ones to the right, including prefix and postfix operators and rules that mention exactly one operator. Precedence settles exactly the shift/reduce conflicts between operators that have one; every other conflict is still reported, and the parse of everything else is not affected.",
  ["programs", "inputs"], "every grammar with precedence blocks, every expression",
  "Tests parse a handful of expressions with one or two operators.",
  ["Compiler/precedence_block_rewriter.cpp", "Lr/precedence_rewriter.cpp", "Compiler/language_stage.cpp", "Lr/lalr_builder.cpp"],
  [("precedence rewriter", "Lr/precedence_rewriter.cpp"), ("block to rewriter", "Compiler/precedence_block_rewriter.cpp")],
  ["shift and reduce calls, tree, conflict diagnostics"], "runtime monitor: reference automaton with precedence and precedence climbing over the parser event trace")
P("C11", "A guarded alternative is taken exactly when the lookahead matches its guard",
  "Where a guard [=> X] can be used, the parser takes the guarded alternative if some beginning of the remaining input is a sentence of X, and otherwise behaves as if the alternative did not exist, however much input X has to read, whether guards are nested in what X contains, and whether or not the tokens are weak or ignored ones. Checking a guard consumes nothing and calls no action; a guard never changes how inputs parse that do not reach it.",
  ["programs", "inputs"], "every conflict-free grammar with guards, every input",
  "Tests check two or three guards with a few tokens.",
  ["Lr/parser_state.h", "Lr/lalr_builder.cpp", "ContextFree/guard.cpp", "Compiler/language_stage.cpp", "Lr/parser.h"],
  [("guard check", "Lr/parser_state.h"), ("guard actions", "Lr/lalr_builder.cpp")],
  ["shift and reduce calls, verdict, error position"], "runtime monitor: Earley decision of every guard at every position compared with the parser event trace, under ASan/UBSan")
P("C12", "Conflict attributes select the action they name",
  "A terminal marked conflict=shift, conflict=reduce or conflict=weak reduce decides the conflicts in which that occurrence can be shifted, and only those: shift drops the reduction, reduce drops the shift, weak reduce reduces exactly when the token can then be shifted and shifts otherwise. Conflicts that an attribute decides are not reported, all others are, and unconflicted parts of the grammar are not affected.",
  ["programs", "inputs"], "every grammar with conflict attributes, every input",
  "Tests use the attributes in one or two places.",
  ["Compiler/conflict_attribute_rewriter.cpp", "Compiler/language_stage.cpp", "Lr/parser_state.h", "Lr/conflict.cpp"],
  [("attribute rewriter", "Compiler/conflict_attribute_rewriter.cpp"), ("weak reduce test", "Lr/parser_state.h")],
  ["shift and reduce calls, conflict diagnostics"], "runtime monitor: reference automaton with attributes over the parser event trace")
P("C13", "A weak symbol yields to its strong meaning exactly where it must",
  "A text that matches several lexical symbols is read as the one with the highest priority: weak before strong, keywords before lexer symbols before ignored ones, then the earlier definition. A weak symbol (declared weak, or written as a literal in the grammar) is used as itself wherever the grammar can accept it there, and otherwise as the strong symbol that the same text would have been; which of the two is used never depends on anything but what the grammar allows at that point.",
  ["programs", "inputs"], "every set of overlapping lexical symbols, conflict-free grammar and input",
  "Tests use one keyword and one identifier symbol.",
  ["Lr/weak_symbols.cpp", "Compiler/lexer_stage.cpp", "Compiler/language_stage.cpp", "Lr/parser_state.h"],
  [("weak action rewriting", "Lr/weak_symbols.cpp"), ("lexer priorities", "Compiler/lexer_stage.cpp")],
  ["symbol of every shifted token, reductions, verdict"], "runtime monitor: reference lexer priorities and automaton over the parser event trace",
  "Known finding: a weak symbol with two different strong meanings (the project's own TODO) is not recognised for one of them; texts of that shape are probed once and excluded from the random cases.")
P("C14", "Ignored symbols are skipped exactly where the grammar has no use for them",
  "Symbols of an ignore block can appear anywhere in the input without affecting the parse: they are never shifted, change no reduction and move no other token's position. An ignored symbol that the grammar mentions is used where the grammar can accept it at that point and skipped everywhere else.",
  ["programs", "inputs"], "every conflict-free grammar with ignored symbols, every placement of ignored symbols",
  "Tests skip whitespace in a few strings.",
  ["Lr/ignored_symbols.cpp", "Compiler/lexer_stage.cpp", "Compiler/language_stage.cpp", "Lr/parser_state.h"],
  [("ignore actions", "Lr/ignored_symbols.cpp"), ("merging of ignored symbols", "Compiler/lexer_stage.cpp")],
  ["shift and reduce calls, verdict, error position"], "runtime monitor: reference automaton with skippable tokens over the parser event trace")
P("C15", "Copies of a parser state are independent",
  "A parser state can be copied at any moment; each copy then continues as if it were the only one, whatever is done to the others, including destroying them in any order, and reaches the verdict and value that an uninterrupted parse reaches. Looking ahead never changes the outcome, and the tokens of the input are read once however many copies exist.",
  ["histories", "inputs"], "every history of copying, stepping, looking ahead and destroying",
  "Tests copy a stack a few times in one fixed order.",
  ["Lr/parser_stack.h", "Lr/parser_state.h", "Lr/parser.h"],
  [("shared stack with mark and sweep", "Lr/parser_stack.h"), ("shared lookahead session", "Lr/parser_state.h")],
  ["verdicts and values of all copies"], "runtime monitor: random state histories under ASan/UBSan against a single run")
P("C16", "The definition file front end reads what is written",
  "Reading a definition file gives exactly the definition that is written there: every language, lexer block, symbol, keyword, grammar rule, item, attribute, precedence, test, parser and import block with its content and order and nothing else, whatever the layout and comments; every element knows the position where it starts and ends in the file; copying a definition gives an equal one. A file that does not follow the definition language is never accepted: it is reported at the first wrong token (or at the start of a construct that is recognised by looking ahead at it), or at the end of the file if it is cut short.",
  ["inputs"], "every definition file, every layout",
  "Tests read a handful of short definitions and check a few fields.",
  ["Language/language_parser.cpp", "Language/definition_file.cpp", "Language/language_block.cpp", "Language/lexer_block.cpp", "Language/nonterminal_definition.cpp", "Language/production_definition.cpp", "Language/ebnf_item.cpp", "Language/ebnf_item_attributes.cpp", "Language/lexeme_definition.cpp", "Language/precedence_block.cpp", "Language/test_block.cpp", "Language/test_definition.cpp", "Language/block.h"],
  [("tree building", "Language/language_parser.cpp"), ("block copies", "Language/production_definition.cpp")],
  ["the definition tree returned, the position of every element, the position of the reported error"], "runtime monitor: the tree and diagnostics observed for a generated file compared with the model it was written from, under ASan/UBSan")
P("C17", "A language that inherits from another is the combination of both",
  "A language that inherits from another one means exactly what one language with all of the definitions would mean: inherited symbols, rules, guards and precedence blocks apply unless they are replaced, replace removes every effect of the old definition, |= adds to it, and expressions and rules of the base refer to the changed definitions of whatever they use. What a language changes is never seen in the languages it inherits from or in their other descendants, and it does not matter in which files and in which order the languages are written or how often or in what order files are imported.",
  ["programs", "inputs"], "every chain of languages, every distribution over files, every input",
  "Tests contain a single language inheriting two symbols.",
  ["Compiler/language_stage.cpp", "Compiler/import_stage.cpp", "Compiler/language_builder_stage.cpp", "Compiler/lexer_stage.cpp", "Compiler/Data/lexer_data.cpp", "ContextFree/grammar.cpp"],
  [("inheritance", "Compiler/language_stage.cpp"), ("imports", "Compiler/import_stage.cpp")],
  ["shift and reduce calls, verdict, error position, conflict reports"], "runtime monitor: reference automaton of the flattened definition over the parser event trace, under ASan/UBSan")
P("C18", "The tests in a definition file report exactly what the language accepts",
  "When the tests of a definition file are run, a test with = or from passes exactly if its text is a sentence of the named nonterminal of the named language, and a test with != passes exactly if it is not. Every test is run; every failing test is reported at its position, with the place where its text stops making sense; the summary of each block counts the passed tests; the exit code is zero exactly if no test failed and none was impossible to run.",
  ["programs", "inputs"], "every definition file with test blocks",
  "Tests never run the test stage.",
  ["Compiler/test_stage.cpp", "Language/test_block.cpp", "Language/test_definition.cpp", "Language/process.cpp", "Compiler/lr_parser_stage.cpp"],
  [("test runs", "Compiler/test_stage.cpp")],
  ["diagnostics with positions, the summary, the exit code"], "runtime monitor: every diagnostic of a test run is matched with the result of a reference automaton and Earley recogniser")
P("C19", "The generated C++ parser behaves like the definition it was made from",
  "The C++ that the tool writes for any definition that compiles is a valid program without undefined behaviour, and the lexer and parser tables in it behave exactly as those the tool built: the same lexemes with the same symbols and positions, the same shifts and reductions, the same verdict and error position for every start symbol and every input. The symbol and nonterminal constants in its header are distinct and have the numbers the tables use.",
  ["programs", "inputs"], "every definition, every class and namespace name, every input",
  "Tests only compile and use the generated parser of the definition language itself.",
  ["Compiler/OutputStages/cplusplus.cpp", "Compiler/output_stage.cpp", "Dfa/hard_coded_symbol_table.h", "Dfa/state_machine.h", "Lr/parser_tables.h", "Lr/parser_tables.cpp"],
  [("table writers", "Compiler/OutputStages/cplusplus.cpp"), ("static tables", "Lr/parser_tables.h")],
  ["the compiler's verdict, lexemes, shift and reduce calls of the generated program"], "runtime monitor: the generated program is compiled with ASan/UBSan and its event trace compared with the in-memory parser's")
P("C20", "No definition text makes the tool fail in an uncontrolled way",
  "Whatever bytes a definition file and the files it imports hold, the tool finishes: it reads, compiles, tests and translates the definition or stops with at least one error, and the exit code is nonzero exactly if an error was reported. It never crashes, never runs into undefined behaviour, never runs forever and never reports a fault of its own (a BUG_ diagnostic).",
  ["inputs", "programs"], "every text of a definition, every set of files, every combination of compiler options",
  "Tests only compile a few well-formed definitions.",
  ["Compiler/parser_stage.cpp", "Compiler/import_stage.cpp", "Compiler/language_stage.cpp", "Compiler/lexer_stage.cpp", "Compiler/lr_parser_stage.cpp", "Compiler/test_stage.cpp", "Compiler/OutputStages/cplusplus.cpp", "Language/language_parser.cpp", "ContextFree/guard.cpp", "Dfa/ndfa_regex.cpp"],
  [("stages", "Compiler"), ("definition parser", "Language/language_parser.cpp")],
  ["sanitizer reports, CPU time, diagnostics, exit code"], "runtime monitor: ASan/UBSan and a CPU budget over every stage of the tool, with checks that refusals and errors go together")
P("C21", "The output is a function of the definition",
  "Compiling the same definition with the same options always gives the same diagnostics, the same tables and the same C++ (apart from the time it mentions), whatever was compiled before in the same process and wherever its objects lie in memory. Layout and comments have no influence on anything but the positions that are reported, and a language that the target language does not inherit from has no influence on what is generated.",
  ["histories", "programs", "configurations"], "every definition, every set of compiler options, everything that happened before",
  "Tests compile each definition once, in a fixed order.",
  ["Compiler/OutputStages/cplusplus.cpp", "Compiler/output_stage.cpp", "Compiler/language_stage.cpp", "Compiler/lexer_stage.cpp", "Compiler/lr_parser_stage.cpp", "Lr/parser_tables.cpp", "ContextFree/grammar.cpp", "Dfa/ndfa_transformations.cpp"],
  [("orderings of containers", "ContextFree/grammar.cpp"), ("writers", "Compiler/OutputStages/cplusplus.cpp")],
  ["diagnostics, messages, the text of every file that is written"], "runtime monitor: outputs of repeated, interleaved and re-laid-out compilations compared byte by byte under ASan/UBSan")
P("C23", "What is wrong with a definition is reported, where it is, and nothing else",
  "Each fault in a definition (a symbol or rule defined twice, not defined or never used, an expression that cannot be read, a symbol that another one hides, a useless or misplaced guard, a conflict, a missing file or base language, a loop of inheritance) is reported with its own code and severity, in the file and at the line and column where it is, whether it lies in the target language, in one it inherits from or in an imported file. Nothing is reported that is not there, a definition without faults gives no report, and the exit code is that of the worst report.",
  ["programs", "inputs"], "every definition, every combination and place of faults",
  "Tests check for three kinds of report in small definitions and never their positions.",
  ["Compiler/language_stage.cpp", "Compiler/lexer_stage.cpp", "Compiler/lr_parser_stage.cpp", "Compiler/import_stage.cpp", "Compiler/language_builder_stage.cpp", "Compiler/console.cpp", "Lr/conflict.cpp"],
  [("definition checks", "Compiler/language_stage.cpp"), ("symbol checks", "Compiler/lexer_stage.cpp"), ("conflict reports", "Compiler/lr_parser_stage.cpp")],
  ["code, severity, file, line, column and offset of every diagnostic, exit code"], "runtime monitor: the set of diagnostics observed compared with the set that the planted faults and a reference analysis call for")
P("C24", "The generated syntax tree mirrors the derivation",
  "The tree that a generated parser returns holds the derivation of the input: each rule's items are in the members named after them (by the name attribute, or else after the item), repetitions are lists with one element per repetition in input order, optional parts and alternatives hold what was there, leaves hold the tokens. Every node reports the start of its first and the end of its last part as its position, or the position of the next token when it is empty.",
  ["programs", "inputs"], "every definition with any name attributes, every accepted input",
  "Tests only use the tree of the definition language's own parser.",
  ["Compiler/OutputStages/cplusplus.cpp", "Compiler/output_stage.cpp", "Compiler/Data/rule_item_data.cpp", "Util/syntax_ptr.h"],
  [("class and action writers", "Compiler/OutputStages/cplusplus.cpp"), ("item names", "Compiler/output_stage.cpp")],
  ["classes, members, lists, leaves and positions of the returned tree"], "runtime monitor: trees walked in the generated program (ASan/UBSan) compared with a tree built from the recorded reductions")
P("C22", "A syntax error is detected at the first token that cannot continue",
  "A parser rejects an input exactly at the first token after which no sentence of the language is possible any more: no such token is ever shifted, every token before it is, and the parser reads no further than it needs. A parser state that is asked whether a symbol can be next answers what parsing it would show.",
  ["programs", "inputs"], "every conflict-free grammar, every erroneous token sequence",
  "Tests only check that some wrong inputs are rejected.",
  ["Lr/parser_state.h", "Lr/parser_tables.cpp", "Lr/lalr_builder.cpp"],
  [("reject path", "Lr/parser_state.h")],
  ["position of the offending token, tokens shifted and read, answers of can_reduce"], "runtime monitor: Earley viable-prefix oracle over the token and shift trace")
P("C25", "The LR(1) resolver resolves what it can and changes nothing else",
  "With the LR(1) resolver switched on, a grammar that is LALR(1) is parsed exactly as without it. Reduce/reduce conflicts between rules of equal length whose lookaheads come from different states (which exist only because LALR(1) merges states) are not reported any more; a conflict that is not reported is really resolved: whenever no conflict is reported, the parser accepts exactly the sentences of the grammar and the reductions form a derivation.",
  ["programs", "inputs"], "every grammar, every token sequence",
  "Tests build one grammar with the resolver and parse two sentences.",
  ["Lr/lr1_rewriter.cpp", "Lr/lalr_builder.cpp", "Lr/parser_state.h", "Lr/conflict.cpp"],
  [("resolver", "Lr/lr1_rewriter.cpp"), ("lookahead sources", "Lr/lalr_builder.cpp"), ("weak reduce test", "Lr/parser_state.h")],
  ["conflict list, verdict, shift and reduce calls, tree"], "runtime monitor: Earley oracle, derivation checker and reference automaton over the trace of parsers built with the resolver")

P("C26", "The command line tool does what its options say",
  "The tool reads the file it is told to read and what that imports (as named, beside the input file, or in the include paths, in this order, and each file once), builds the target language with the start symbols and class name from the options, the only parser block, or the only language, and then writes exactly the two files that the compiler produces for it where it was told to, runs the tests of the definition, or parses the standard input and shows the tree. Each diagnostic is one line with file, line, column, severity and (on request) code; what is asked to be silent is; files that are not its output are left alone. The exit code is zero if and only if there was no error: options it cannot follow, missing files, definitions that do not compile, tests that fail, an input that does not parse and output that cannot be written are errors.",
  ["configurations", "programs", "inputs", "faults"], "every definition, every combination of options, every arrangement of files, unwritable output",
  "No test runs the tool: the tests use the compiler's classes.",
  ["parsetool/main.cpp", "parsetool/boost_console.cpp", "Compiler/std_console.cpp", "Compiler/console.cpp", "Compiler/parser_stage.cpp", "Compiler/import_stage.cpp", "Compiler/test_stage.cpp", "Compiler/OutputStages/cplusplus.cpp"],
  [("driver", "parsetool/main.cpp"), ("options and files", "parsetool/boost_console.cpp"), ("diagnostics", "Compiler/std_console.cpp")],
  ["exit code, standard output, standard error and the files in its directory after each run of the process"], "runtime monitor: the observed effects of each process (ASan/UBSan) compared with a model of the options over the compiler's classes")

P("C27", "All memory is given back",
  "Whatever was done with them (lexers built and used, texts read to the end or not, grammars analysed, parsers built with or without conflicts, parser states run, copied and abandoned in any order, inputs accepted or rejected, definitions compiled to C++ or refused), once the objects that the caller owns are destroyed everything that was allocated on their behalf is freed: repeating the same work does not make the process grow. The same holds for each parse by a generated parser, whose tree is freed with the last reference to it.",
  ["histories", "inputs", "programs"], "every use of the library and of generated parsers that ends with its objects being destroyed",
  "The tests run once, end, and nothing looks at what is left.",
  ["Util/container.h", "Util/syntax_ptr.h", "Dfa/symbol_table.h", "Dfa/lexer.h", "Lr/parser.h", "Lr/parser_state.h", "Lr/lalr_builder.cpp", "ContextFree/item.cpp", "ContextFree/ebnf_items.cpp", "Compiler/parser_stage.cpp", "Compiler/language_stage.cpp", "Compiler/lr_parser_stage.cpp"],
  [("reference counts", "Util/container.h"), ("token buffer shared by states", "Lr/parser.h"), ("tree nodes", "Util/syntax_ptr.h")],
  ["allocated bytes after each repetition of a workload, live blocks with the stack that allocated them"], "runtime monitor: heap accounting of the ASan allocator over repeated workloads, with recorded allocation stacks")

P("C28", "Parsers and lexers can be used in several threads",
  "Threads that share nothing can read definitions, build lexers and read with them, and parse, all at the same time. A parser and a lexer, once they are built, can be used by several threads at the same time, each with a parser state and a stream of its own. Every thread gets exactly the lexemes, trees, actions, verdicts and diagnostics that it gets when it works alone, and there is no data race. (This is about lexers, streams, parsers and the front end that reads definitions; the stages that build grammars and parser tables use shared constants and are for one thread.)",
  ["schedules", "inputs", "programs"], "every interleaving of threads, every grammar and input",
  "The tests run in one thread.",
  ["Lr/parser_state.h", "Lr/parser.h", "Lr/parser_stack.h", "Lr/parser_tables.cpp", "Dfa/lexer.h", "Dfa/lexeme.h", "Dfa/basic_lexer.h", "Util/container.h", "Util/syntax_ptr.h", "Language/language_parser.cpp", "Compiler/parser_stage.cpp"],
  [("state shared by parser states", "Lr/parser_state.h"), ("shared tables", "Lr/parser_tables.cpp"), ("shared lexer", "Dfa/lexer.h")],
  ["memory accesses and their synchronisation, lexemes, actions, trees, verdicts, diagnostics of each thread"], "runtime monitor: ThreadSanitizer over interleaved threads, with each thread's record compared with the one it produces alone")

NOTE = ("Sampling of executions of the real code built with ASan+UBSan from the current tree; every verdict is given by an oracle that watches the run. "
        "Assumes the oracle in /verif/harness (written from the documented meaning) is right; says nothing about inputs that were not run.")


def main():
    root = os.path.dirname(HERE)
    props = [p for p in PROPS if p["id"] in PLAN]
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in sorted(props, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks = []
    for p in sorted(props, key=lambda p: p["id"]):
        i = p["id"]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=p["technique"], level="exploration", level_note=(p["note"] + " " + NOTE).strip()))
    m = dict(version=1, setup_cmd="clang++ --version && python3 --version", checks=checks, not_applicable=[],
             notes="No hooks: the monitors attach through the public API, generated code and the console interface.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

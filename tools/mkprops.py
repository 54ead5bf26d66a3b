#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech, observe_at=[observe], hook_needed=None)))

p("C01", "Recognition accepts exactly the language of the rule",
  "For every grammar - ambiguous, cyclic, left-, right-, hidden- or mutually-recursive, with nullable parts, bounded or unbounded repetitions, case-sensitive and -insensitive strings, numeric series and ranges, Unicode - asking whether an input is valid for a rule answers true exactly when the input is derivable from that rule under RFC 5234/7405 (including the core rules), and false otherwise. It always answers, whatever the bytes of the input (including invalid UTF-8), and only an unknown rule is an error.",
  ["programs","inputs"], "every grammar the library can represent, every rule of it, every byte string",
  "Tests check a few dozen (grammar, input) pairs; the guarantee quantifies over all context-free grammars and all inputs, where wrong interplays of memoization, seed growing and counted repetitions hide.",
  ["recognize.go","leftrec.go","utils.go","rules.go","grammar.go"],
  ["position-set propagation with memoization","left-corner SCC seed growing","count-bounded repetition levels","case folding limited to ASCII letters","UTF-8 decoding of runes and num-val saturation","built-in core rules"],
  "the public validity call")
p("C02", "Both parse engines accept exactly the language of the rule",
  "Parsing an input into a shared forest or into a binary subtree set succeeds without error for every known rule of every grammar, and each of the two results reports itself valid exactly when the input is derivable from the rule. Hence recognition and both parse representations always give the same verdict.",
  ["programs","inputs"], "every grammar, rule and input, for both representations",
  "Tests compare the engines on a handful of grammars; completeness of a generalized-LL worklist (shared stack, late pops, counters) depends on the order in which descriptors meet, over all grammars.",
  ["sppf.go","bsr.go"], ["slot grammar lowering with counted repetitions","graph-structured stack with replay of earlier pops","descriptor de-duplication","terminal matching in each engine"],
  "Valid of the two forests")
p("C03", "Tree counts and ambiguity verdicts are exact in both engines",
  "For every grammar and input, the number of trees reported by both parse representations is the exact number of derivations of the input (0 when there is none, -1 when there are infinitely many). Ambiguity is reported exactly when that number is neither 0 nor 1.",
  ["programs","inputs"], "every grammar, rule and input, with finitely or infinitely many derivations",
  "Tests pin counts for a few textbook grammars; sharing and packing errors over- or under-count only for particular combinations of alternates, nullable parts, counters and cycles.",
  ["sppf.go","bsr.go"], ["packing of alternates and split points","repetition nodes keyed per count","cycle detection in the forest","ambiguity walk"],
  "NumTrees and Ambiguous of the two forests")
p("C04", "An extracted tree is a genuine derivation of the input",
  "Whenever an input has finitely many derivations (at least one), the tree extracted from either parse representation is rooted at the requested rule over the whole input, tiles it without gap nor overlap, and each of its nodes is a derivation step the grammar allows, down to the terminals. With infinitely many derivations a tree is still given, rooted likewise, whose nodes are, in order within their parent, spans their rules derive. When the input is not derivable no tree is returned.",
  ["programs","inputs"], "every grammar, rule and derivable input",
  "Tests look at a few trees, mostly their root; a wrong packing, a child from another alternate or a lost child shows only on particular shapes.",
  ["sppf.go","bsr.go"], ["first-packing extraction","collapse of synthetic nodes","child counters of repetitions"],
  "Tree of the two forests")
p("C05", "A generated standalone parser behaves as the library does",
  "For every grammar and known root rule, the generated Go source compiles alone with only the standard library, and its parser gives, for every input, the validity, number of derivations, ambiguity and a genuine derivation tree, as the library's own parse of that grammar does; a result answers the same whenever it is asked, and parses may run at once. An unknown root rule or unparsable grammar is refused with an error.",
  ["programs","inputs"], "every grammar and root, every input fed to the compiled parser",
  "Tests compile a couple of generated parsers; the emitted code has one specialised shape per element kind, base, case-sensitivity, repetition bound and Unicode width.",
  ["codegen.go"], ["jump-table emission per slot","inlined terminal matchers","emitted forest queries","GenerateGoParserFromABNF options"],
  "the compiled output of the generator")
p("C06", "The regular expression of a rule matches exactly its language",
  "For every rule without a cycle, the regular expression built from it compiles (as long as no repetition bound exceeds the regexp engine's own limit) and, anchored, matches exactly the valid UTF-8 strings derivable from the rule. A cyclic rule, an unknown rule or a prose value are refused with an error, and a length budget makes it either return the same expression within the budget or fail with the documented error.",
  ["programs","inputs","configurations"], "every acyclic rule of every grammar, every valid UTF-8 string, every budget",
  "Tests compare a few expressions textually; simplification, escaping and precedence errors change the language only for particular nestings and characters.",
  ["regex.go","dag.go"], ["class merging and simplification","precedence-aware rendering","escaping in and out of classes","quantifiers"],
  "Regex, then the standard regexp engine")
p("C07", "ABNF text is read into exactly the grammar it denotes",
  "Reading ABNF source accepts exactly the byte strings of the RFC 5234/7405 rule-list syntax (with errata 2968 and 3076), never reports one as ambiguous, and yields the grammar the text denotes: rule names, alternation/concatenation order and nesting, repetition bounds, case sensitivity, characters, numeric bases, series and ranges, prose. Comments, white space and folding never change the outcome.",
  ["inputs"], "every byte string given as ABNF source",
  "Tests read a corpus of RFC grammars, comparing few of them with an expected structure; the reading must be right for each of the infinitely many texts, spacings and escapes.",
  ["grammar.go","rules.go","abnf.go","sppf.go"], ["hand-written meta-grammar","evaluation of the parse tree into the grammar","repeat / num-val / char-val evaluation"],
  "ParseABNF without validation, on the public structure of the grammar")
p("C08", "Rule sets obey definition, extension, core and validation rules",
  "Reading a list of rules yields a grammar in which a later incremental definition appends its alternatives in order, a rule defined twice or extended before being defined is refused, core rules can be redefined or extended only with the dedicated option, and names are case-insensitive everywhere. With validation on (the default), reading succeeds exactly when every referenced rule exists, no repetition has a minimum above its maximum and no numeric value exceeds U+10FFFF; each refusal carries the documented error kind and names an actual culprit.",
  ["histories","configurations"], "every sequence of rule definitions and extensions, under every combination of options",
  "Tests try one instance of each refusal; order, casing, options and interleaving of definitions combine freely.",
  ["grammar.go","option.go","utils.go","rules.go"], ["rule-list evaluation","case-insensitive lookup, user rules before core","semantic validation walk","numeric bounds"],
  "ParseABNF with options, and its errors")
p("C09", "Calls never leak into one another, whatever the history or schedule",
  "No call changes the outcome of any other: reading grammars (including ones that redefine or extend core rules, or fail), validating, parsing, generating, converting and rendering leave the built-in rules, the ABNF grammar, every existing grammar and every caller's buffer exactly as they were. Any number of goroutines may use one grammar, one parse result, one transition graph, or the library at large, at once without data race and with the very answers each call gives alone, and equal calls give equal answers.",
  ["histories","schedules"], "every history of calls over shared and separate grammars, every interleaving of concurrent calls",
  "Tests run each call on a fresh grammar, sequentially; leaks through shared core rules, cached state or aliased slices only show in later calls of specific histories.",
  ["grammar.go","rules.go","recognize.go","sppf.go","bsr.go","transition_graph.go","dag.go","generate.go"], ["global core rules and meta-grammar","rule extension by append","per-call recognizer and parser state","graph and node sharing"],
  "snapshots of the public state around every call; the race detector")
p("C10", "Printing a grammar and reading it back gives the same grammar",
  "For every grammar with at least one rule read from text, both its plain and its pretty rendering are ABNF source that reads back, under the same options, into the very same rules - same order of alternatives, nesting, bounds, case sensitivity, bases and values. The same holds for each rule rendered alone.",
  ["programs"], "every grammar obtained from text",
  "Tests round-trip a few grammars through the recognizer only; each element kind and combination of bounds has its own rendering.",
  ["grammar.go","abnf.go"], ["String of each element kind","repetition rendering","pretty print alignment"],
  "String, PrettyPrint, then ParseABNF")
p("C11", "Seeded random generation yields only words of the rule",
  "For every grammar, rule, seed and option values, seeded generation terminates and either refuses with an error or returns a word derivable from the rule; it never panics, and it is a function of the seed, rule and options. Unbounded repetitions are never unrolled beyond the larger of their minimum and the cap, and nothing optional is added once the threshold length is reached. It refuses exactly when the rule is unknown or has no word that can be spelled without prose.",
  ["programs","inputs","configurations"], "every grammar and rule, every seed, repetition cap and threshold",
  "Tests generate from a few grammars with fixed seeds; unsoundness needs a given alternative, count or threshold crossing.",
  ["generate.go","utils.go"], ["random walk over the alternatives","repetition cap and threshold steering","safety analysis before generation"],
  "Generate, its output judged by the specification")
p("C12", "Recursive-descent generation is total, deterministic and sound",
  "For every grammar and rule, preparing the generator fails only if a rule reachable from it is unknown or cannot derive any finite string; once prepared, every byte tape (including none) and every random source gives, within bounded work, a complete word derivable from the rule, and the same tape always gives the same word (a tape that runs out reads as zeros). Depth, length and repetition limits steer but never truncate the word: unbounded repetitions are never unrolled more than their minimum plus the cap, and nothing optional is added past the depth or the length limit, nor out of an empty tape.",
  ["programs","inputs","configurations"], "every grammar and rule, every tape, every limit value",
  "Tests sample a few recursive grammars; soundness of steering depends on cost comparisons over all grammar shapes.",
  ["ast.go"], ["least-fixpoint expansion costs","cheapest-branch steering past the limits","tape decisions"],
  "NewASTGenerator/Generate, output judged by the specification")
p("C13", "A transition graph spells exactly the language of its rule",
  "For every cycle-free rule without prose and every combination of expansion options (rules, strings, numeric values), the walks of the transition graph from an entry to an end spell exactly the language of the rule, when what is left unexpanded in a node stands for its own language; what an option asks to expand is expanded everywhere. Building is refused, with the documented error, exactly for an unknown or cyclic rule, for prose, for invalid repetition bounds or references, and when a repetition's maximum (its minimum if it is unbounded) exceeds the threshold (256 unless set). The Mermaid drawing shows exactly the nodes, links, entries and ends of the graph, each node under its element.",
  ["programs","configurations"], "every acyclic rule, every option combination, all walks",
  "Tests compare a few graphs to hand-drawn ones; linking of nullable parts, clones of counted repetitions and expansions interplay.",
  ["transition_graph.go"], ["concatenation with nullable endpoints","clone chains for counted repetitions","expansion of rules, strings and numeric values"],
  "nodes, edges and endpoints of the public graph structure")
p("C14", "The graph-driven generator yields only words of the rule",
  "For every fully expanded graph of a rule with at least one word, every tape or random source and every limit, the generator returns a complete word of the rule, deterministically, within bounded work; limits on length, repetitions and steps only steer the walk towards the nearest end: once one is hit, no word is returned that a walk of the graph keeping to the limits could not give. Out of an empty tape, the walk stops at the first end it meets. A graph in which a rule is left unexpanded is refused. A tape that runs out reads as zeros. With stable addressing, a tape is read at fixed slots and the same guarantees hold.",
  ["programs","inputs","configurations"], "every acyclic rule, tape, option value",
  "Tests sample a few graphs; soundness when a budget is hit depends on reachability and distance computations over all graphs.",
  ["fuzz.go"], ["walk with budgets","shortest-path steering","node emission and tape decoding"],
  "NewGenerator/Generate, output judged by the specification")
p("C15", "Near misses are outside the language; expected octets are exact",
  "For every tape or random source a near miss is produced, it is not a word of the rule, and its label tells the edit that leads to it from the word the generator gives for that tape. For every byte string, the expected-next analysis says whether it is a word, and lists exactly the octets that can follow it towards some word of the rule - none when it is a prefix of no word. The analysis declines only when a numeric range covers more than 65536 characters encoded on several octets.",
  ["programs","inputs"], "every acyclic rule, every tape, every byte string as prefix",
  "Tests look at a few prefixes; exactness in both directions over multi-byte characters, case variants and nullable parts needs all prefixes.",
  ["fuzz.go"], ["mutation candidates filtered against the recognizer","octet-level simulation of the graph"],
  "NearMiss and ExpectedNext, judged by the specification")
p("C16", "Graph readers enumerate exactly the trails, or a covering set",
  "Reading a fully expanded graph in all-trails mode yields exactly the words spelled by the entry-to-end trails (each edge at most once, cycle edges included) with every variation of each node, each once per trail and variation, then ends; compact mode yields words of the rule only, covering every edge and variation that some entry-to-end walk can use. Asking for the next word is idempotent until it is taken, a graph may be read again by another reader with the same outcome, and reading past the end gives nothing.",
  ["programs","histories"], "every acyclic rule, both modes, every interleaving of next and scan calls",
  "Tests enumerate a few graphs; trail enumeration is a stateful depth-first search whose staging and backtracking depend on the graph shape and on the call order.",
  ["transition_graph.go"], ["trail stack with staged word","variation counters per node","cover construction of compact mode"],
  "Reader: Next and Scan")
p("C17", "Cycle and dependency analyses are exact",
  "For every grammar, the dependency graph holds for every rule - the core rules included, in both the analysis and its Mermaid rendering - exactly the rules it refers to, and a rule is said to contain a cycle exactly when following references from it can reach a rule that refers back to itself, directly or not. A grammar is said to be free of cycles exactly when none of its rules is on a cycle, and asking about an unknown rule is an error.",
  ["programs"], "every grammar and rule name, whatever the order rules are visited in",
  "Tests ask for a few grammars; strongly-connected-component bookkeeping errors depend on map iteration order and on graph shape.",
  ["dag.go","leftrec.go"], ["Tarjan's algorithm over a map of rules","reachability of cyclic components","case-insensitive dependency names"],
  "DependencyGraph, Mermaid, IsDAG, RuleContainsCycle")
p("C18", "Budgets never change an answer, only refuse with their own error",
  "For every grammar, input and budget (forest nodes, grammar size, subtree elements, graph nodes, regular-expression length), the call either gives the very answer it gives without budget or fails with that budget's documented error carrying the limit, and never panics nor returns a partial result. A result within the budget is not refused, what is built never exceeds it, a larger budget never turns a success into a refusal, and zero means unlimited.",
  ["programs","inputs","configurations"], "every grammar and input, every budget value",
  "Tests try one generous and one tiny budget; the boundary (exactly enough, one too few) must be right for every case.",
  ["sppf.go","bsr.go","codegen.go","transition_graph.go","regex.go","errors.go"], ["node/element accounting","slot budget during lowering","graph reservation before cloning","bounded rendering"],
  "the budget options of each call, swept around the actual need")
p("C19", "Parse diagnostics locate the furthest point reached",
  "When a parse fails, the diagnostic's offset is the furthest one up to which the input could be consumed by a prefix of a derivation, the expected terminals are exactly those that could have come next there, the line and column are those of the offset (both from one, lines end with a line feed, columns count bytes), what was found is the byte there or the end of input, and a hint is given exactly for a line feed without carriage return. A failed read of a grammar reports such a diagnostic, which matches the 'no solution' error; a successful parse has none.",
  ["programs","inputs"], "every grammar and non-derivable input",
  "Tests pin three positions; the furthest point over all derivation prefixes depends on the exploration being complete.",
  ["errors.go","sppf.go"], ["furthest-failure tracking","line and column computation","byte description and hint"],
  "ParseError of a forest, error of ParseABNF")
p("C20", "The command-line tools do what the library does, no more, no less",
  "For every input file or standard input and every well-formed combination of flags, each command writes exactly what the corresponding library call returns with the corresponding options and exits with status zero, or writes nothing to standard output, reports the library's error on standard error and exits non-zero. The parser-generating command writes the generated source to the requested file, replacing what it held, and writes no file when it fails.",
  ["inputs","configurations"], "every grammar text and flag combination, from file and from stdin",
  "There is no test of the commands at all.",
  ["cmd/pap/main.go","cmd/pap/commands/validate.go","cmd/pap/commands/generate.go","cmd/pap/commands/regex.go","cmd/pap/commands/transition_graph.go","cmd/pap/commands/utils.go","cmd/abnf-gen/main.go"], ["flag handling","input selection","exit status and streams"],
  "the built binaries")
p("C21", "Generators reach every word their limits allow",
  "For every rule without recursion, each of the three generators can produce every word that its repetition cap allows: over all seeds, all tapes or all random sources, the words it gives are exactly those derivable from the rule with unbounded repetitions cut at the cap - every alternative, count, option, letter case and character of a range is within reach, none is left out.",
  ["programs","inputs","configurations"], "every acyclic rule, all seeds, tapes and random sources",
  "Tests only check that what comes out is valid; a generator that silently never explores a part of the language passes all of them, and defeats the fuzzing it exists for.",
  ["generate.go","ast.go","fuzz.go"], ["choice among alternatives, counts and options","case variation","character choice in a range","tape decoding"],
  "the set of words given over many seeds, tapes and random sources, against the finite language enumerated by the specification")
p("C22", "Work stays in proportion: sharing, nesting and counts never blow up a call",
  "However many ways through a grammar there are - rules that refer several times to the same next rule, rules that all refer to one another, nested groups, options and repetitions, ambiguous or left-recursive rules, counts in the billions - a call whose answer is small, or is bounded by a budget, completes promptly and gives the right answer: recognising, parsing into a forest or subtree set, counting its trees, telling ambiguity, extracting a tree or a diagnostic, detecting cycles, validating, rendering, generating words and parsers, next-octet hints, and regexes, graphs and parses under a length or node budget.",
  ["programs","inputs"], "every grammar whose number of derivations or paths is exponential in its size, or whose counts are huge",
  "Tests use small grammars, on which an exponential walk or an unrolled count goes unnoticed.",
  ["recognize.go","sppf.go","bsr.go","generate.go","regex.go","dag.go","transition_graph.go","ast.go","fuzz.go"], ["memoisation of the recognizer","sharing in the graph-structured stack and the forest","ranks of rules","budgets checked ahead of the work"],
  "whether each call returns, and what")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")

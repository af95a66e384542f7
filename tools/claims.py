NOTE = ("Exhaustive within the stated bounds (all token strings, edits and length sweeps listed in DESIGN.md); "
        "trusts the reference grammar in mc/ref and the Go toolchain. Inputs beyond the bounds are not covered.")
for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19"):
    claim(i, PARSE, "model_checking", NOTE)
claim("C08", "exhaustive enumeration of byte strings, token strings, truncations, corruptions and nesting depths on the real parser against the totality contract, in supervised processes with stack and time limits",
      "model_checking", "Exhaustive within the stated bounds. The contract (statement or error, offset and context of the error) is checked on every text; termination is a time limit per text.")
claim("C09", "exhaustive enumeration of layouts (every separator in every gap and pair of gaps, buffer-straddling sizes) and letter cases; each variant compared with its base text or the reference grammar",
      "model_checking", "Exhaustive within the stated bounds on layouts of the seed rules and all operands in all contexts; whether two texts have the same tokens is decided by the reference lexer in mc/ref.")
claim("C10", "exhaustive enumeration of reader behaviours (all splits into reads, empty reads, data with EOF, failure at every byte) on the real scanner and tokenizer against the reference lexer",
      "model_checking", "All splits of short sources, all splits with up to two cuts near the buffer boundaries of long ones, failures at every byte; sources and buffer offsets bounded as stated in DESIGN.md.")
claim("C11", "explicit-state exploration of all character strings and all scan/peek/next/put-back call histories up to a depth on the real scanner and tokenizer against the reference lexer",
      "model_checking", "Exhaustive within the stated bounds; trusts the reference lexer in mc/ref.")
claim("C12", "exhaustive enumeration of bounded rule spaces on the real formatter and parser; the meaning before and after is compared through an independent tree rendering",
      "model_checking", "Exhaustive within the stated bounds. The round trip is judged on trees read through the exported fields.")
claim("C13", "exhaustive enumeration of map iteration orders (instrumented build) and of a write failure at every write, on the real formatter",
      "model_checking", "All orders of maps of up to 4 entries (rotations and reversals of larger ones), a failure at every write, two kinds of failure; output length against a bound of rule length and depth. Rules bounded as stated in DESIGN.md.")
claim("C14", "exhaustive enumeration of typed conditions, dictionaries, assignments and rule-table iteration orders on the real type checker against an independent type system",
      "model_checking", "Exhaustive within the stated bounds; trusts the reference type system in mc/props/c14.go, derived from the operator rule table and its tests.")
claim("C15", "exhaustive enumeration of statements and of pruned node sets on the real walker against a reference traversal of the tree's exported fields",
      "model_checking", "All single and pair prunes, prune-everything and visitor replacement over bounded rules; trusts the reference traversal in mc/props/c15.go.")
claim("C16", "explicit-state exploration of all call histories up to a depth in one process, from the initial state of all package variables; every result compared with that of the same call alone, every argument with its former state",
      "model_checking", "All histories of the call pool up to the stated depth (package variables are put back to their initial values between histories in an instrumented build).")
claim("C17", "stateless exploration of all thread schedules up to a preemption bound on the real code (scheduling points before every statement, instrumented build), with the race detector judging every schedule",
      "model_checking", "All pairs of 16 calls with one preemption and selected triples (quick), up to two preemptions for pairs of shorter calls (thorough). Assumes the Go race detector reports races it observes (no false alarms) and sequential consistency of race-free code.")
claim("C18", "exhaustive enumeration of rules and layouts on the real parser; every node's reported span compared with the offsets computed by the reference parser",
      "model_checking", NOTE)
claim("C20", "explicit-state exploration of all sequences of edits to a statement up to a depth, and exhaustive enumeration of single-field changes, assemblies and replacements of parts of bounded rules, on the real formatter, type checker and walker; each result compared with that of the parsed (or newly assembled) statement of the same content",
      "model_checking", "All edit histories up to the stated depth over a fixed set of edits; every exported field of every node of the bounded rules changed and changed back; each rule assembled anew. The text of the model is bound to the code by parsing it.")

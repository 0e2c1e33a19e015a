PR = "abstract interpretation of the printer's SSA form on parser-built trees; templates read back by a reference reader"
N_PR = ("Decides every tree that differs from an analysed one only in names, literals and layout settings; deeper nestings and longer lists than the stated bounds rest on the printer being "
        "structurally recursive. Trusted: go/ssa, the analyser's models of fmt/strings/strconv/time/sort, the reference lexer and grammar.")
for i in ("P01", "P02", "P03", "P06", "P07", "P08"):
    CLAIMED[i] = (PR, N_PR)
CLAIMED["P04"] = (PR + "; call-graph rule for nondeterminism", N_PR)
WK = "abstract interpretation of the walker's SSA form on parser-built trees, with a recorder for the callback"
N_WK = ("Decides every tree that differs from an analysed one only in names and literals; deeper nestings than the stated bounds rest on the walker being structurally recursive. "
        "Trusted: go/ssa, the analyser's models of the standard library, the reference visit list written from the public tree types.")
for i in ("W01", "W02"):
    CLAIMED[i] = (WK, N_WK)
CLAIMED["P05"] = ("comparison of the abstract heap before and after printing, walking and serialising",
                  "Every object reachable from the tree is compared field by field. Bounds as for P01, W01 and J02; for all other trees it rests on structural recursion.")
CLAIMED["G01"] = ("call graph and taint analysis of package-level state, effect rule for the outside world",
                  "Complete over the call graph of the exported functions; interface and function-value calls are resolved by class hierarchy. Trusted: the list of library functions without effects.")
JS = "abstract interpretation of encoding/json by type on parser-built trees, plus a type rule for what can be serialised"
CLAIMED["J01"] = (JS, "The type rule covers all trees; the interpretation covers the same families as P01. Trusted: the model of encoding/json.")
CLAIMED["J02"] = (JS, "Decides every tree that differs from an analysed one only in names and literals. Trusted: the model of encoding/json.")

LX = "abstract interpretation of the tokeniser's SSA form on texts of opaque characters (value sets, split on demand), compared token by token with a reference reading"
N_LX = ("Decides every text of the analysed families: all texts of up to two (thorough: three) characters, valid UTF-8 or not, and families of longer texts whose characters are sets; longer texts rest on the "
        "tokeniser being a scanner whose state between tokens is its position and the dot mark. Trusted: go/ssa, the analyser's models of strings/unicode/utf8/strconv.ParseFloat/time.Parse, the reference tokeniser lexref.go.")
for i in ("L02", "L03", "L05", "L06"):
    CLAIMED[i] = (LX, N_LX)
CLAIMED["L01"] = (LX + "; cycle rule on the grammar's productions", N_LX)
CLAIMED["G02"] = ("abstract interpretation of parser, printer, walker and JSON on texts of opaque characters and sentences of opaque tokens; call-graph rule for process exits", N_LX + " Sentences: every module form and rule violation, single-token edits of correct sentences.")
CLAIMED["E01"] = ("abstract interpretation of the error report's SSA form after every token of texts of opaque characters; of the parser on wrong sentences, compared with the stop of the grammar's automaton", N_LX + " Sentences: single-token edits of correct sentences.")
CLAIMED["P09"] = (PR, N_PR)
CLAIMED["A01"] = ("abstract interpretation of the accessors' SSA form on the nodes of parser-built trees", N_PR)
CLAIMED["D01"] = ("call-graph rule for sources of chance; abstract interpretation of the parser with maps iterated in either order", "The call-graph rule is complete over what the entry points reach. The interpretation covers every sentence family. Trusted: the list of library functions with a chance element.")
CLAIMED["E02"] = ("abstract interpretation of the parser on sentences of opaque tokens that break rules; message template compared with the reference's rule", N_AI)
CLAIMED["F01"] = ("abstract interpretation of the C syntax tree (clang) over byte-value sets split on demand, and of the Go wrapper's SSA form with a model of cgo's memory calls; result compared with a reference for all values in each class",
                  "Decides all texts of up to three characters of every width, four arbitrary bytes, and the lengths the code names; other lengths rest on the loop starting over at a character boundary with nothing carried along, which is checked. Trusted: clang's syntax tree, the C interpreter, the \"C\" locale of tolower.")
CLAIMED["D02"] = (AI.replace("compared with a reference reading", "parsed twice with one object; both outcomes and the first tree compared"), N_AI)
CLAIMED["T01"] = ("alias analysis of the abstract heap after the abstract interpretation of the parser: extents (backing arrays with spare capacity, pointer targets, maps) reached from the tree must be disjoint", N_AI)
CLAIMED["P10"] = ("abstract interpretation of Print, PrintStatement, Walk and JSON before and after an abstract edit of the tree; compared with the same edit on a tree never shown, and with a reference reading of the print", N_PR)

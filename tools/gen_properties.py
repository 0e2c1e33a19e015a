#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
G="ast/grammar.y"; Y="ast/y.go"; A="ast/ast.go"; T="ast/tokens.go"; S="ast/ast_struct.go"; P="ast/ast_print.go"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=()):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state])))

p("C01","Loop, handler and function contexts open and close with their constructs",
 "Parsing rejects Прервать and Продолжить exactly when they stand outside every loop, a ВызватьИсключение without argument exactly when it stands outside every exception-handler block, and Возврат with a value exactly when it stands outside a function (in a procedure or in the module body). The context opens at the construct's body and closes at its end, for every construct kind, any nesting and any sequence of earlier constructs.",
 ["programs","histories"],"every module text; every nesting and every sequence of loops, handlers and functions before the operator",
 "The tests try a few single constructs; a context left open only shows in a later construct of another kind, and nestings are unbounded.",
 [G,Y,A],[("semantic actions around loop, try and function rules",G),("context counters of the parse",A)],
 [("loop depth","number of loops around the current point",A),("handler depth","number of handler blocks around the current point",A),("in function","whether a value may be returned",A)])
p("C02","A construct's tree is built only from that construct's own text",
 "The tree node of every construct is built only from the tokens and sub-trees of that construct: no statement, parameter, name, literal or flag of an earlier or enclosing construct ever appears in it, and no part of a finished tree is changed by parsing what follows.",
 ["programs","histories"],"every module text, every sequence of constructs that reuses parser stack slots",
 "The parser stack slot a construct reuses depends on everything parsed before it; the tests sample a few histories and never look for foreign statements.",
 [G,Y,A,S],[("semantic values of the parser stack",Y),("list building actions",G)],[("parser value stack","semantic values of the symbols recognised so far",Y)])
p("C03","Every part of a construct lands in its place in the tree, once and in order",
 "For every construct of the language (procedures, functions, parameters, variable declarations, statements, expressions, object creation, call chains, indexes, jumps), the tree holds each written part exactly once, in the field meant for it, lists keep source order (ИначеЕсли branches and argument lists with skipped arguments included), and the operator recorded for an expression is the one written.",
 ["programs"],"every module text the parser accepts",
 "The tests compare a few trees by hash of the printed text or only check that parsing succeeds; they cannot cover all constructs with all optional parts.",
 [G,Y,A,S],[("semantic actions",G),("node constructors",A)])
p("C04","Operator precedence and associativity",
 "Expressions are grouped by the language's precedence: ИЛИ binds loosest, then И, then Не, then the comparisons (=, <>, <, >, <=, >= on one level), then + and -, then *, / and %, then unary signs; binary operators of one level group from the left.",
 ["programs"],"every expression: any operators, any length and nesting",
 "The tests check a handful of expressions; every pair of operators in either order has its own parser table entry.",
 [G,Y],[("precedence declarations",G),("parser tables",Y)])
p("C05","The compiled parser is the parser of the grammar file",
 "The language accepted by the compiled parser, the order in which it recognises constructs and the token numbering it uses are those that the grammar source defines, including the resolution of conflicts by the declared precedences.",
 ["programs"],"every token sequence",
 "No test relates the generated tables to the grammar; a stale or hand-edited table only shows on token sequences that reach the changed entry.",
 [G,Y],[("generated tables",Y),("grammar source",G)])
p("C06","Declaration rules are enforced",
 "Parsing fails when one procedure, function or module declares two variables spelled the same (in one declaration or in several), when a module variable is declared after a procedure, a function or a module statement, when a procedure or function follows a module statement, or when a statement other than a label ends with a colon; code that breaks none of these rules is not rejected by them, and every declared variable is recorded with its name, compilation directive and export mark.",
 ["programs","histories"],"every module text; any number and order of declarations",
 "The tests cover one instance of some of the rules; order and repetition across declarations are unbounded.",
 [G,Y,A,S],[("declaration actions",G),("module assembly",S),("variable list assembly",A)])
p("L01","The tokeniser always makes progress and ends",
 "For every input, reading the next token ends after finitely many steps, and each call either consumes at least one character, reports an error, or reports the end of the text; hence parsing always ends.",
 ["inputs"],"every byte sequence given as source text",
 "Termination on every input cannot be sampled; the tests never feed unterminated literals, lone marks or invalid UTF-8.",
 [T,A],[("tokeniser loops",T)],[("offset","position of the next unread byte",T)])
p("L02","The tokeniser stays inside the source text",
 "For every input, including invalid UTF-8 and text that ends inside a token, the tokeniser never reads outside the source text and never panics, and its position always lies on a character boundary between the start and the end of the text.",
 ["inputs"],"every byte sequence given as source text",
 "Out-of-range access needs a specific byte at the very end of the text.",
 [T],[("cursor primitives",T)],[("offset","position of the next unread byte",T)])
p("L03","Keywords are recognised in any letter case and are plain names after a dot",
 "Every keyword and compilation directive of the language is recognised in any mix of upper and lower case letters and yields the token the grammar uses for it, a word that is not a keyword is always a name, and the word right after a dot is always a name.",
 ["inputs"],"every word, in every mix of upper and lower case letters",
 "There are exponentially many spellings of every keyword; the tests use a few.",
 [T],[("keyword table and case folding",T)])
p("L04","No lexical, syntax or semantic error is lost",
 "If the tokeniser, the grammar or a semantic rule rejects any part of the source text, parsing reports a non-nil error, whatever follows the rejected part; unknown characters (in a text that is not white space only), unterminated strings and dates, malformed numbers and unknown directives are always rejected.",
 ["inputs","programs"],"every source text and every position of the error in it",
 "Tests check some error messages; a lost error needs a specific later input.",
 [A,T,Y],[("error field of the parse",A),("tokeniser error returns",T)],[("err","first or last reported error",A)])
p("L05","Layout, comments and preprocessor lines never reach the parser",
 "Spaces, tabs, line ends, // comments up to the end of their line and # directives up to the end of their line are skipped between tokens in any number and order, and nothing else is skipped: every other character belongs to a token or is reported as an error (unknown characters, invalid UTF-8, unterminated strings and dates, a letter right after a number).",
 ["inputs"],"every source text",
 "Orders and repetitions of comments, directives and blank lines are unbounded.",
 [T],[("skip routines",T)])
p("L06","Token text is the source text",
 "A name token carries exactly the characters written, a number token the written number's value, a string token the characters between its quotes as written (doubled quotes stay doubled, a continued line is its line end and | without the white space and // comments before the |, string literals separated only by white space are one string), a label or directive token its name, and a boolean, date or undefined token its value (a date of 8, 12 or 14 digits, all other characters in it ignored, only zeros being the empty date); adjacent tokens never share or lose characters.",
 ["inputs"],"every source text, every literal",
 "Literals are unbounded; the tests check a few of them.",
 [T],[("scan routines",T)])
p("P01","The printed module contains everything the tree contains",
 "For every tree the parser can build, the printed text is again a module of the language and parsing it yields the same tree up to redundant parentheses, statement separators, the order of variable declarations and the spelling of literals: every declaration, parameter (by-value mark and default included), directive, export mark, branch, loop header, handler and statement is printed, in order and exactly once.",
 ["programs","configurations"],"every parsed module, both layouts, every indent width",
 "The tests print a few modules and compare most of them after deleting all blanks.",
 [P],[("printer",P)])
p("P02","Printing preserves the grouping of expressions",
 "When an expression is printed, every operand still belongs to the operator it belonged to in the tree, for every nesting of binary operators, unary operators, parenthesised lists, calls, indexes and ternaries, so that reading the text back groups it the same way.",
 ["programs"],"every expression tree the parser can build",
 "Each parent operator, operand position and child kind is a separate case and nesting is unbounded.",
 [P],[("bracket rules of the printer",P)])
p("P03","Unary operators are never lost, doubled or reordered",
 "Applying unary minus or Не to any operand (name, literal, call, call chain, index, ternary, object creation, parenthesised or binary expression, or an operand that already carries such operators) is recorded in the tree as exactly that operator over that operand, and the printed text shows every recorded unary operator exactly once, in the same order and over the same operand, wherever the expression stands.",
 ["programs"],"every operand kind, every chain of unary operators, every position",
 "Operand kinds times positions times chains; the tests have a few of them.",
 [A,S,P],[("unary operator actions",A),("flag methods",S),("printer",P)])
p("P04","Printing is deterministic",
 "Printing the same tree with the same configuration always gives the same text.",
 ["schedules","programs"],"every tree and every run of the program",
 "Map iteration order changes between runs and only matters with two or more entries.",
 [P],[("printer loops over maps",P)])
p("P05","Printing, serialising and walking do not change the tree",
 "Printing a tree or a statement, serialising it and walking it with a read-only callback leave every node unchanged, so any of them can be repeated or mixed with the same result.",
 ["histories"],"every tree and every sequence of such operations",
 "Tests call each operation once and do not compare trees afterwards.",
 [P,S,A],[("printer",P),("walker",S)])
p("P06","Layout options change only white space",
 "The indent width and the one-line option change only the white space between the tokens of the printed text: both layouts contain the same tokens in the same order and never glue two tokens together.",
 ["programs","configurations"],"every tree, every non-negative indent, both layouts",
 "Gluing needs a specific pair of neighbouring constructs in one layout; tests remove all blanks before comparing.",
 [P],[("newline and indent emission",P)])
p("P07","Printing never fails",
 "Printing ends normally, without panic or endless recursion, for every tree the parser can build, for every single statement or expression of such a tree, and for every non-negative indent width.",
 ["programs"],"every tree and sub-tree",
 "Each node kind in each position is a separate path through the printer.",
 [P],[("printer recursion and type assertions",P)])
p("P08","Printed literals read back as the same value",
 "Every number, string, date, boolean and undefined literal in the tree is printed as a literal that the tokeniser reads back as the same value.",
 ["inputs"],"every literal value the tokeniser can produce",
 "Literal values are unbounded; tests use integers mostly.",
 [P,T],[("literal printing",P),("literal scanning",T)])
p("W01","Walking visits every nested statement exactly once",
 "Walking a module calls the callback exactly once for every procedure, function and statement in every block at any depth (bodies, all branches, loops, handlers), and for every condition, ternary part, binary operand, call argument and returned value that stands in one of those positions; nested items are visited before the item that contains them.",
 ["programs"],"every parsed module",
 "No test walks a tree.",
 [S],[("walker",S)])
p("W02","The walker reports the right enclosing function, parent and slot",
 "Every callback receives the procedure or function that contains the visited item (the item itself when it is one, none in the module body), the node that directly contains it, and a reference to the slot of the tree that holds it, so that replacing a block statement through the reference replaces it in the tree.",
 ["programs","histories"],"every parsed module, every position",
 "No test walks a tree; a wrong enclosing function only shows after several functions.",
 [S],[("walker",S)])
p("J01","Serialising a parsed module never fails",
 "For every module the parser accepts, serialising the tree succeeds: the tree holds only serialisable data, no cycles, and nothing of the tokeniser's or parser's internal state.",
 ["programs"],"every parsed module",
 "Tests serialise a few trees.",
 [A,S,G],[("node types",S),("JSON entry point",A)])
p("J02","Serialised output shows every attribute of every node",
 "The JSON text of a tree contains every attribute recorded in each node: names, literals, operators, unary operators, marks, parameters, variables and all children, so that nodes of one kind that differ in an attribute serialise differently.",
 ["programs"],"every parsed module",
 "Tests only check that the output is not empty.",
 [S,A],[("field names and tags of node types",S)])
p("G01","Parses and prints are independent of each other",
 "Parsing, printing, walking and serialising different modules do not influence each other, in any order and also concurrently: no state is shared between them, and the library writes nothing to files, standard streams or the environment.",
 ["schedules","histories"],"every interleaving of operations on different modules",
 "Shared state only shows under particular interleavings or orders of calls.",
 [A,T,S,P,Y],[("package level variables",T),("parser instance",Y)])
p("G02","No source text makes the parser panic",
 "Parsing a source text, then printing, walking or serialising the result (also after a failed parse), never panics and never ends the process, whatever the source text (exhaustion of memory or stack aside).",
 ["inputs","programs"],"every source text",
 "Panics need a specific combination of constructs, for instance two declarations where the first is already in error.",
 [A,S,T,Y,P],[("type assertions, map writes, index expressions",A)])
p("E01","Syntax errors name the place and text of the offending token",
 "When parsing fails because a token cannot continue the text, the error is about the first such token (when the text ends too early: about its last token) and names its place: the line (from 1) and column (how many characters precede it on its line) are those of the token's first character, and the quoted text is that token's, for every kind of token (quoted, multi-line and commented ones included).",
 ["inputs"],"every source text and every token at which parsing fails",
 "The tests compare a few messages at words; strings, dates, end of text and tokens after line breaks, comments or multi-byte characters are not sampled.",
 [T,A,Y],[("position of a token",T),("error report",A)],[("token start","offset of the first character of the last token read",T)])
p("E02","Errors of broken rules name the rule and the operator or variable",
 "When a text is grammatical but breaks exactly one rule, the error says which: a jump outside a loop and a raise without argument outside a handler quote the operator, a second declaration quotes the variable's name as written, and a value returned outside a function, a variable declared after a procedure and a colon after a statement that is no label are each described as that.",
 ["programs"],"every module text that breaks exactly one rule, in any place and nesting",
 "The tests compare a handful of messages; the place, nesting and list position of a violation are unbounded.",
 [A,S,G,Y],[("rule checks",A),("module assembly",S),("semantic actions",G)])
p("D01","Parsing is a function of the source text",
 "Parsing the same text again, at any time and in any process, gives the same verdict, the same error and the same tree: nothing depends on the order in which maps are iterated, on time, random numbers, addresses or scheduling.",
 ["histories","schedules"],"every source text, every run",
 "A test run samples one map order, one clock and one schedule.",
 [A,S,T,Y],[("declaration assembly",A),("tokeniser",T)])
p("A01","Accessors answer from the tree",
 "The questions the library answers about a tree agree with it: IsMethod is true exactly when the last part of a call chain is a call, Params returns all arguments in order (skipped ones included), an operator's String is the symbol it is written with, SrsCode returns the text the parse was created with, and PrintStatement prints like PrintStatementWithConf with an indent of four and nothing for nothing.",
 ["programs"],"every parsed module and every node of it",
 "Tests call the accessors on a few nodes at most.",
 [S,A,P],[("accessors",S),("entry points",A),("statement printing",P)])
p("P09","Printed code is laid out by its nesting",
 "In the multi-line layout every declaration, statement, branch word (ИначеЕсли, Иначе, Исключение) and closing word of a block starts a line of its own, indented by the indent width times its depth (module level 0, one more in each procedure, branch, loop and handler), and no other line break stands in the text except around a compilation directive; in the one-line layout there is no line break except around a compilation directive.",
 ["programs"],"every parsed module, any nesting, every indent width",
 "Tests print a few shallow modules; depth and mixtures of blocks are unbounded.",
 [P],[("statement and block printing",P)])
p("D02","Parsing again with the same object gives the same result",
 "Calling Parse again on an object that has been parsed before gives the same verdict, the same error and the same tree as the first time, wherever and however the earlier parse ended (also inside an unfinished loop, handler or function) and whatever was done to the earlier tree in between; a name given to the module is kept, and the tree the earlier parse produced stays as it was.",
 ["histories","programs"],"every source text, accepted or rejected at any point, parsed repeatedly",
 "Every test makes a new object for each parse.",
 [A,S],[("start of a parse",A),("module assembly",S)],[("parse state","module, error, current token and context counters of the object",A)])
p("T01","Parts of a tree share no memory",
 "In every parsed module, changing, replacing or appending to one part of the tree (a block, a list, a node behind a pointer, a table of variables) changes no other part of it and no other tree: no two places of the tree share memory, the spare capacity of lists included, and none belongs to package-level state.",
 ["programs","histories"],"every module the parser accepts, every pair of places in the tree",
 "Tests never change a tree; sharing only shows when two places are changed one after the other.",
 [G,Y,S,A],[("list building actions",G),("node construction",A),("module assembly",S)])
p("P10","What is shown is the tree as it is now",
 "After a parsed module's tree has been changed (a name, a directive, a mark such as Экспорт or Знач, an operator, a default value, an expression, an argument, a branch, a parameter, a statement or a variable added, replaced or removed), printing, walking and serialising it show exactly the changed tree, whatever was printed, walked or serialised before the change: the printed text reads back as the changed tree, and nothing of the old one remains.",
 ["histories","programs"],"every parsed module, every such change, every earlier sequence of prints, walks and serialisations",
 "Tests print each tree once, as the parser left it.",
 [P,S,A],[("printing",P),("walking",S),("serialising",A)],[("tree","the module of an object, as the user sees and changes it",S)])
F="ast/fast_tolower/gowrap.go"
p("F01","FastToLower lowers exactly the Latin and Russian capitals",
 "For every UTF-8 text without zero characters, FastToLower returns the text in which each of the letters A-Z, А-Я and Ё is replaced by its lower-case letter and every other character, of any width, is unchanged and in its place. Whatever the bytes of the text, the call reads and writes nothing outside its own copy of it, frees that copy exactly once and after its last use, ends, prints nothing, and does not influence other calls.",
 ["inputs"],"every text, of any length, valid UTF-8 or not",
 "No test calls the C code; a wrong byte, an access past the end or a leak only shows on particular characters or lengths.",
 [F],[("C loop over the text",F),("Go wrapper",F)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(props))

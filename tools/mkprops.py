#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PR="src/printer.rs"; PA="src/parser.rs"; GR="src/grammar/dot.pest"; CM="src/cmd.rs"
ctxstate=[("PrinterContext","layout options plus the running indent, separator mode and edge-operator flag",PR)]
prop("C01","The printed text spells out the whole graph, in order",
 "Printing any graph yields its header (strict when strict, graph or digraph, the graph id) and a braced body in which every statement, nested subgraph, edge endpoint, port and attribute appears exactly once, in the order of the structure, with ids and values written verbatim. Nothing is dropped, duplicated, reordered or invented, for any nesting and any number of elements, and an attribute statement keeps its brackets even when it is empty.",
 ["inputs","configurations"],"every graph structure (any depth, any number of statements, vertices and attributes, any id kinds) and every printing context",
 "The tests print about fifteen fixed graphs of depth at most three; a list position, an id kind, a port combination or an empty list they do not sample can be lost without a failing test.",
 [PR],[("DotPrinter::print for every structure",PR),("print_edge",PR)],["text returned by print"],ctxstate)
prop("C02","Layout options never change what the text says",
 "For any graph and any two contexts that differ only in layout options (indent step, whitespace line separator, inline width, always-inline, one attribute per line), the printed texts consist of the same DOT tokens in the same order, apart from the optional comma and semicolon separators. In particular no option, and no automatic inlining of a short edge, makes two neighbouring words merge into one or splits a word.",
 ["inputs","configurations"],"all graphs, all pairs of layout configurations",
 "Tests compare one rendering per option with a literal; none compares two renderings of the same graph, and merging shows only for particular neighbours in inline mode.",
 [PR],[("statement, attribute and edge separators",PR),("inline and multiline mode switch of edges",PR)],["text returned by print"],ctxstate)
prop("C03","Every edge uses the operator of the graph it is printed in",
 "In the text printed for a directed graph every edge, at whatever nesting depth, joins all of its endpoints with ->, and for an undirected graph with --, with the endpoints in the order of the structure, whatever was printed before with the same context.",
 ["inputs","histories"],"all graphs with edges (pairs and chains of any length, nodes or subgraphs as endpoints, at any depth) and all histories of earlier prints with the same context",
 "Tests print directed graphs almost exclusively and use a fresh context for each; a stale flag or a wrong operator in one position of a chain is not sampled.",
 [PR],[("Graph::print sets the direction, print_edge reads it",PR)],["text returned by print"],ctxstate)
prop("C04","Printing leaves the context reusable",
 "After printing any graph, subgraph, statement or edge, every option and the current indentation of the context are what they were before the call. Printing the same graph again with the same context, after any other prints, therefore yields the same text.",
 ["inputs","histories"],"all structures, all contexts, all histories of prints with one context",
 "Tests look at the first text printed with a fresh context only.",
 [PR],[("indent_grow and indent_shrink are balanced",PR),("inline_mode and multiline_mode are balanced",PR)],["text of a later print with the same context"],ctxstate)
prop("C05","Each context option has exactly its documented effect",
 "A statement starts on its own line, indented by its nesting depth times the indent step, with the configured line separator between lines and, when asked for, a semicolon after each statement; always-inline (or an empty line separator) puts everything on one line. An edge is put on one line exactly when its multi-line text is not longer than the inline width, and with one-attribute-per-line, lists of two or more attributes are spread over lines one step deeper, with or without commas as asked. A context built from explicit settings behaves as the default one configured to those settings.",
 ["inputs","configurations"],"all graphs and all combinations of the context options (semicolons, indent step, line separator, inline width, always-inline, attributes on separate lines, commas)",
 "Tests cover a handful of option combinations on two graphs, never the explicit constructor, and never depth beyond three.",
 [PR],[("builder methods and constructors of the context",PR),("indent, separator and inline logic",PR)],["text returned by print"],ctxstate)
prop("C06","What is printed parses back to the same graph",
 "For every graph made of well-formed parts (plain ids that are words or numerals and not keywords, quoted ids with balanced escapes, bracket-balanced html ids, ports that have a part, chains of at least three vertices) and every layout option, parsing the printed text succeeds and gives back an equal graph, up to the generated names of anonymous elements.",
 ["inputs","configurations"],"all well-formed graphs, all layout options without custom value printers",
 "No test round-trips; the parser and the printer are tested on separate fixed literals.",
 [PR,PA,GR],[("printer",PR),("grammar",GR),("tree to structure conversion",PA)],["parse(print(g))"])
prop("C07","Parsing any text returns a result, it never panics",
 "For every input string, of any content, parsing returns either a graph or an error value; no input that the grammar accepts makes the conversion into structures hit a missing or unexpected element.",
 ["inputs"],"all strings (nesting limited by the stack)",
 "Tests parse about thirty valid strings; the conversion code unwraps the presence and the kind of every child the grammar may produce.",
 [PA,GR],[("process_* functions unwrap what the grammar guarantees",PA),("grammar",GR)],["parse"])
prop("C08","A parsed graph accounts for everything in the text",
 "When parsing succeeds, the graph has the kind, strictness and id of the header, and contains every statement, nested subgraph, edge endpoint, port and attribute of the text exactly once, in source order, in the place where it was written; attributes of several bracket groups are concatenated in order, two endpoints give a pair and more a chain. Only a text that is one whole graph is accepted: text before or after it, or an unfinished one, is an error.",
 ["inputs"],"all strings in the accepted language and all strings outside it",
 "Tests compare about twenty fixed inputs with fixed structures of depth at most two.",
 [PA,GR,"src/lib.rs"],[("process_* functions",PA),("grammar",GR)],["parse"])
prop("C09","Ids keep their exact text and kind",
 "An id in the text becomes an id of the structure holding exactly the characters written: a word of letters, digits and underscores not starting with a digit, or a numeral (optional minus, digits with an optional fraction, or a fraction alone), is a plain id taken in full; a double-quoted string ends at the first unescaped quote and is kept with its quotes and escapes; an html string ends at the bracket that balances its first one and is kept with its brackets.",
 ["inputs"],"all id texts of the four forms, in every position an id may have",
 "Tests parse six html strings that all happen to end in two brackets, three quoted strings and numerals 1 and 2.",
 [GR,PA],[("rules plain, number, string_qt, html",GR),("process_id",PA)],["parse"])
prop("C10","Ports are read as written",
 "A port with two parts gives the first as its id and the second, which must be one of the ten compass points, as its direction; a port whose only part is a plain compass point is a direction and any other single part is a port id. Compass points are read in full (ne is never n followed by something else).",
 ["inputs"],"all node ids with ports, all ten compass points, all port id forms",
 "Tests use the compass points n and s only.",
 [GR,PA],[("rules port and compass",GR),("process_port, parse_compass_manually",PA)],["parse"])
prop("C11","Blanks, comments and optional separators do not matter to the parser",
 "Inserting or removing blanks, line breaks and comments (/* */, // and # to end of line) between the tokens of a text, and adding or removing the optional semicolon after a statement or the optional comma or semicolon after an attribute, does not change the parsed graph.",
 ["inputs"],"all accepted texts and all insertions of blanks and comments between their tokens",
 "Three tests have comments, at fixed places outside statements.",
 [GR],[("rules WHITESPACE and COMMENT, non-atomic sequences",GR)],["parse"])
prop("C12","Command arguments are what graphviz expects",
 "Every layout engine value becomes -K with the name graphviz knows that engine by, every format value -T with the graphviz name of that format (including the versioned, underscored and dashed names), an output path becomes -o followed by the unchanged path, and a custom argument is passed unchanged.",
 ["inputs"],"all engines, all formats, all output paths and custom strings",
 "Tests only ever pass the svg format and one output path.",
 [CM],[("CommandArg::prepare",CM)],["arguments received by the dot process"])
prop("C13","Running dot hands over exactly the text and reports its outcome",
 "Executing starts dot once with the given arguments in the given order followed by one path of a temporary file that holds exactly the text to render (for a graph: its printed text in the given context). When dot exits with status zero the result is its complete standard output; when it exits with another status or is killed, the result is an error carrying its standard error text; in every case the temporary file is gone afterwards.",
 ["inputs","fault_sequences"],"all texts, all argument lists, all outcomes of the child process (any exit code, death by signal, any output)",
 "Tests run the installed dot on two valid graphs and one failing output path.",
 [CM,"src/lib.rs"],[("exec, do_exec, temp_file",CM),("exec, exec_dot","src/lib.rs")],["arguments and file seen by a stand-in dot","result of exec"])
prop("C14","Attribute constructors produce their own key and the given value",
 "Each typed attribute constructor yields an attribute whose key is the constructor's name, and whose value is the display text of the argument, or for an enumerated value its name without the trailing underscore that only avoids a keyword. The default of an attribute, where there is one, is a value of that attribute, and a separate margin is written as the two numbers with a comma.",
 ["inputs"],"all attribute constructors of the four owners, all argument values",
 "Tests look at five of the more than three hundred constructors.",
 ["src/attributes/mod.rs","src/attributes/generate.rs","into-attr-derive/src/lib.rs"],[("generate_attr!","src/attributes/generate.rs"),("derive(IntoAttribute)","into-attr-derive/src/lib.rs")],["returned attribute"])
prop("C15","The generator macros build exactly the elements they are given",
 "Each form of the port, node_id, id, attr, stmt, subgraph, attrs, node, edge and graph macros builds the structure with exactly the given id (quoted when asked to escape), port, direction, attributes, statements, strictness and kind, in the given order, for all argument values; two endpoints give a pair and more a chain.",
 ["inputs"],"all macro forms and all argument expressions",
 "Tests use about half of the macro arms, most with one literal.",
 ["dot-generator/src/lib.rs"],[("macro_rules arms","dot-generator/src/lib.rs")],["built structure"])
prop("C16","Structure operations do exactly what they say",
 "Adding a statement to a graph or subgraph appends it and changes nothing else; converting an element into a statement or vertex wraps that element unchanged; building graph attributes from a type name selects that type, ignoring letter case, with the attributes unchanged; the display of an id is its text preceded by its kind for every kind but plain.",
 ["inputs"],"all structures and all arguments",
 "The structures crate has no tests of its own.",
 ["dot-structures/src/lib.rs"],[("add_stmt, From, GraphAttributes::new, Node::new, Display","dot-structures/src/lib.rs")],["returned or modified structure"])
prop("C17","A custom value printer decides the value of its attribute and nothing else",
 "When a value printer is registered for an attribute id, every attribute with exactly that id, wherever it is in the graph, is printed as the id, an equals sign and the text the printer returns for the printed value, the current line separator, the current indentation and the indent step. All other text is as without it, and registering a second printer for the same id replaces the first.",
 ["inputs","configurations"],"all graphs, all sets of registered printers and all functions they may compute",
 "One test registers one printer that ignores the separator and the indentation.",
 [PR],[("Attribute::print, with_attr_value_printer",PR)],["text returned by print"],ctxstate)
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), [ (p['id'],len(p['title'])) for p in P if len(p['title'])>80])

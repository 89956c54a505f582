#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, syms):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=s, where=files[0] if len(files) == 1 else ", ".join(files)) for s in syms])))

prop("C01", "Names are unique up to case and underscores and resolve exactly",
 "Two packages, two entities of a package (types, objects), two components of a record including everything it inherits, two fields of a tuple, or two literals of an enumeration may not have names that are equal after lower-casing and deleting underscores, and no declaration may clash that way with a builtin name; the later declaration is reported as an error at its own name. A name that is used resolves only to an entity spelled exactly like it which is visible at that point (own package, builtins, explicitly imported packages, inherited components, enclosing quantified variables), never to a near miss, and a quantified variable may not shadow any visible name.",
 ["programs"], "every set of declarations and uses spread over packages and files",
 "The golden tests contain a dozen hand written clashes; they cannot cover every pair of scopes, declaration kinds, spellings and import relations.",
 ["trlc/ast.py", "trlc/parser.py"], ["Symbol_Table.register", "Symbol_Table.lookup_direct", "Scope.lookup", "Parser.parse_qualified_name", "Compilation_Unit.is_visible"])
prop("C02", "Package loading follows the import graph, not registration order",
 "For any set of registered files, models of a package are processed after the models of every package they import, a cyclic model import is reported as an error, and a package may import any number of others but not itself. Exactly the files of packages reachable through imports from the primary files are loaded (plus the primary files themselves), included-but-unreachable files have no influence, and a requirements file may introduce a package no model declares. The outcome (diagnostics, success, resulting objects) does not depend on the order in which files are registered.",
 ["programs", "configurations", "schedules"], "every import graph over any number of packages and files, every split into primary and included files, every registration order",
 "Tests fix a handful of import graphs and always register files in one order.",
 ["trlc/trlc.py", "trlc/ast.py"], ["Source_Manager.build_graph", "Source_Manager.parse_rsl_files", "Source_Manager.parse_trlc_files", "Compilation_Unit.add_import", "Compilation_Unit.resolve_imports"])
prop("C03", "Source text is split into exactly the tokens of the language",
 "Every file is partitioned into whitespace, comments and tokens by the longest-match rules of the language manual: identifiers, keywords, integer and decimal literals, strings in three quote styles, operators and punctuation. Each token carries the line, column, extent and end at which its text really stands, and any text that is not a sequence of such tokens is reported as an error at the offending token instead of being skipped or reinterpreted (a block comment left open extends to the end of the file).",
 ["inputs"], "every character sequence",
 "Tests lex a few hundred hand written files; token boundaries depend on arbitrary character neighbourhoods (1..2, 0b1, /**/, ''' inside strings, end of file).",
 ["trlc/lexer.py"], ["TRLC_Lexer.token", "Lexer_Base", "Token"])
prop("C04", "Literals denote exactly the value written",
 "An integer literal in base 2, 10 or 16 (with digit separators) denotes that mathematical integer without bound, a decimal literal denotes exactly the rational it spells, a plain string denotes its characters with only the escaped quote unescaped, and a triple quoted string denotes its text with surrounding blank space, the common indentation from the second line on and trailing blanks of each line removed. The value given for a component, with its sign, is the value every consumer of the API sees.",
 ["inputs"], "every literal",
 "Numeric precision, separators, bases and indentation shapes form an infinite space; tests sample a few literals.",
 ["trlc/lexer.py", "trlc/parser.py", "trlc/ast.py"], ["triple_quoted_string_value", "Token.__init__", "Integer_Literal", "Decimal_Literal", "String_Literal", "Record_Object.to_python_dict"])
prop("C05", "Only well-formed type declarations are accepted",
 "Enumerations are non-empty; a tuple never contains itself, uses separators between all or none of its fields, allows optional fields only with separators, never as first field and only as a suffix, and with separators contains no tuple that has separators; a record extends only an existing record type, adds components only if no ancestor is final, and freezes each visible component at most once along its ancestry with a value valid for it. A violation is reported as an error at the offending token and every declaration that obeys the rules is accepted, with inheritance, finality and abstractness visible to API users as declared.",
 ["programs"], "every sequence of type declarations",
 "Rules interact across inheritance depth, declaration order and field position; tests try each rule once.",
 ["trlc/parser.py", "trlc/ast.py"], ["Parser.parse_enum_declaration", "Parser.parse_tuple_declaration", "Parser.parse_tuple_field", "Parser.parse_record_declaration", "Parser.parse_union_type", "Record_Type"])
prop("C06", "Accepted objects are complete, well-typed instances of their type",
 "Every object in the result of a successful run has a concrete record type and one value for each own and inherited component: the one written, the frozen one, or null for an unspecified optional component. An object of an abstract type, a missing mandatory component, an unknown or repeated component and an assignment to a frozen component are each reported as errors and the run fails.",
 ["programs"], "every record type hierarchy and every object declaration against it",
 "Mandatory, optional, frozen and inherited components combine over arbitrary hierarchies and assignment orders; tests contain isolated examples.",
 ["trlc/parser.py", "trlc/ast.py"], ["Parser.parse_record_object_declaration", "Record_Object.assign", "Record_Type.is_frozen", "Record_Type.get_freezing_expression", "Record_Object.to_python_dict"])
prop("C07", "Every component value conforms to its declared type",
 "A value is accepted for a component or tuple field only if it has the written form its type demands: number kinds are never mixed, an enumeration literal belongs to exactly that enumeration, an array has between its lower and upper bound many conforming elements, a tuple without separators gives all fields in parentheses and a tuple with separators gives its fields joined by the declared separators where only a tail of optional fields may be left out. Everything that conforms is accepted, and exported in the order and structure written.",
 ["programs"], "every type and every value written for it",
 "Nesting of arrays, tuples, separators and optional tails is unbounded; tests sample it thinly.",
 ["trlc/parser.py", "trlc/ast.py"], ["Parser.parse_value", "Array_Aggregate", "Tuple_Aggregate", "Tuple_Type.iter_sequence"])
prop("C08", "References bind late to the one existing object of a compatible type",
 "A reference may name an object declared anywhere in the processed files, earlier, later or in another file, of the own or an imported package; it is accepted only if that object exists and its type is, or extends, the referenced record type or some member of the referenced union. References in markup strings follow the same existence and visibility rules for any type of object, and the API reports each reference as the qualified name of the object it is bound to.",
 ["programs", "histories"], "every reference graph, order of declaration and distribution over files",
 "Resolution depends on global declaration order and type hierarchy; tests cover few orders and shallow hierarchies.",
 ["trlc/ast.py", "trlc/parser.py", "trlc/trlc.py"], ["Record_Reference.resolve_references", "Union_Type.is_compatible", "Record_Type.is_subclass_of", "Markup_Parser", "Source_Manager.resolve_record_references"])
prop("C09", "Check expressions are accepted exactly if well-typed",
 "A check expression is accepted if and only if it is Boolean and each operator, builtin function, quantifier, conditional, index and field access in it has operands of the types the language manual demands, without implicit conversion between Integer and Decimal and with null only where comparison allows it; exponents and regular expressions must be static and legal. The first violation is reported as an error at the subexpression at fault.",
 ["programs"], "every expression over every set of component types",
 "The typing rules must hold for every combination of operator and operand type at any nesting depth.",
 ["trlc/ast.py", "trlc/parser.py"], ["Expression.ensure_type", "Binary_Expression", "Unary_Expression", "Field_Access_Expression", "Parser.parse_name", "Parser.parse_builtin", "Parser.parse_conditional_expression", "Parser.parse_quantified_expression"])
prop("C10", "Check expressions evaluate to their mathematical value",
 "For every object, a check whose evaluation raises no error passes exactly if its expression has the value true under the manual's semantics: unbounded integer and exact rational arithmetic, integer division rounding down, remainder with the sign of its left operand, rounding conversion away from zero, inclusive ranges, string and array functions, oneof, quantifiers over all elements, first-true conditionals, equality by value for tuples and by identity for references, and access through references to the fields of the object referred to.",
 ["programs", "inputs"], "every well-typed expression and every object it is evaluated on",
 "Operator semantics differ on sign, ties, empty arrays, null and nesting, combinations the sampled tests do not reach.",
 ["trlc/ast.py", "trlc/math.py"], ["Binary_Expression.evaluate", "Unary_Expression.evaluate", "Range_Test.evaluate", "OneOf_Expression.evaluate", "Quantified_Expression.evaluate", "Conditional_Expression.evaluate", "Field_Access_Expression.evaluate", "remainder", "round_nearest_away"])
prop("C11", "Undefined operations in checks are errors, and guards prevent them",
 "Evaluating a null operand outside == and !=, dividing by zero, indexing outside an array, following a null reference, or reaching null as the result of a check always yields an error diagnostic and fails the run; it never yields a truth value or a crash. Operands that short-circuiting connectives, conditionals or quantifiers do not need are not evaluated and cause no error.",
 ["programs", "inputs"], "every expression with partial operations and every object, including all null/absent combinations",
 "Faults hide behind evaluation order and absent optional values; tests check single operators on single objects.",
 ["trlc/ast.py"], ["Binary_Expression.evaluate", "Unary_Expression.evaluate", "Field_Access_Expression.evaluate", "Quantified_Expression.evaluate", "Check.perform"])
prop("C12", "Every applicable check runs in order on every object, with its severity",
 "For each object, all checks of tuples occurring anywhere in its values and all checks of its record type are evaluated, ancestors' checks before those of extensions and each block in order. A failing check produces exactly one diagnostic with its message and severity, located at the anchor component's value or else at the object; only a failing fatal check or an evaluation error stops further checks, and only those of that object; a failing warning check alone does not fail the run.",
 ["programs", "histories"], "every type hierarchy with checks and every set of objects",
 "Order, multiplicity and stopping depend on the combination of severities, inheritance and objects.",
 ["trlc/ast.py", "trlc/trlc.py", "trlc/errors.py"], ["Check.perform", "Record_Object.perform_checks", "Record_Type.iter_checks", "Tuple_Type.perform_type_checks", "Array_Type.perform_type_checks", "Source_Manager.perform_checks", "Check.get_real_location"])
prop("C13", "A run succeeds exactly if it produced no error",
 "Processing returns a symbol table only if no error diagnostic was issued, and the command line tool exits with status 0 exactly if there was no error (and, on request, no warning); warnings and lint issues alone never fail a run unless requested. Every counted diagnostic is shown once unless its class was switched off, and the error and warning totals in the summary equal the number of diagnostics issued, with the number of those not shown stated.",
 ["programs", "configurations"], "every input and combination of command line options",
 "Exit status is tested on few inputs; an error swallowed on one path turns an invalid model into an accepted one.",
 ["trlc/trlc.py", "trlc/errors.py"], ["Source_Manager.process", "trlc", "Message_Handler.emit", "Message_Handler.error", "Message_Handler.warning"])
prop("C14", "No input crashes the tool: every text is accepted or diagnosed",
 "For every collection of file contents, however malformed, truncated or nested, processing terminates with either success or at least one error diagnostic with a position inside the input; it never ends in an internal error, a Python exception or an endless loop, and never modifies its input files.",
 ["inputs", "fault_sequences"], "every file content, in particular every prefix, token deletion, duplication and replacement of valid files",
 "Malformed inputs are unboundedly many; tests contain a few broken files.",
 ["trlc/lexer.py", "trlc/parser.py", "trlc/ast.py", "trlc/trlc.py"], ["TRLC_Lexer.token", "Parser.parse_rsl_file", "Parser.parse_trlc_file", "Source_Manager.process"])
prop("C15", "Error recovery reports independent errors but never accepts",
 "With error recovery on, the first reported error is the one reported without recovery, a run that fails without recovery also fails with it and vice versa, and user checks are not evaluated on faulty input. Declarations following a faulty one are analysed as if the faulty part were absent, so an independent later error is reported too and a correct later declaration stays free of complaints.",
 ["programs", "fault_sequences"], "every valid input with any number of faults inserted, with and without error recovery",
 "Resynchronisation depends on where in a declaration the fault is and what follows; tests have three recovery examples.",
 ["trlc/parser.py", "trlc/trlc.py"], ["Parser.parse_rsl_file", "Parser.parse_trlc_file", "Parser_Base.skip_until_newline", "Source_Manager.process"])
prop("C16", "Linting, verification and message style never change the verdict",
 "Turning linting or check verification on or off, choosing brief or detailed messages, processing the same input again, or changing the hash seed leaves the set of errors and check failures, the success of the run and the resulting objects unchanged. Lint and verifier findings are additional issues, never errors, and are issued only in lint mode.",
 ["configurations", "programs"], "every input under every combination of modes, and repeated runs",
 "Tests run each input in one mode and compare one output.",
 ["trlc/trlc.py", "trlc/lint.py", "trlc/errors.py", "trlc/vcg.py"], ["Source_Manager.process", "Linter.perform_sanity_checks", "Message_Handler.check", "VCG.analyze"])
prop("C17", "The verifier never stays silent about a check that can fail to evaluate",
 "If there is an object, respecting the declared types (its tuple values passing their own checks other than warnings), frozen values and all preceding fatal checks, on which evaluating a check raises an error (null, division by zero, index out of range), then verification reports an issue of that kind at the expression that fails, or states that it does not support the construct; it never crashes. A check or subexpression it calls always true really is true for every object reaching it.",
 ["programs", "inputs"], "every set of checks on a type and every possible object of that type",
 "A verifier's soundness quantifies over all objects; tests compare its output on some 40 examples.",
 ["trlc/vcg.py", "trlc/lint.py"], ["VCG.checks_on_composite_type", "VCG.tr_check", "VCG.tr_expression", "VCG.tr_quantified_expression", "VCG.tr_component_decl"])
prop("C18", "Objects and sections are presented in source order with exact nesting",
 "Iterating over the result yields every object of every processed file exactly once, in declaration order within a package, each with precisely the chain of sections enclosing it in the source. The by-section iteration introduces each file and each section exactly once before its first object, at its nesting level, and gives the same sequence every time it is used.",
 ["programs", "histories"], "every nesting of sections and distribution of objects over files and packages, and repeated iteration",
 "Nesting shapes and interleavings are unbounded; the unit test mocks the object iterator.",
 ["trlc/ast.py", "trlc/parser.py"], ["Symbol_Table.iter_record_objects", "Symbol_Table.iter_record_objects_by_section", "Parser.parse_section_declaration", "Section"])
prop("C19", "Exactly the sentences of the grammar are accepted",
 "A file whose token sequence is not derivable from the grammar in the language manual is rejected, at the latest with an error at the first token that cannot continue any sentence (or at the end of the file if more is needed), and a file that is derivable is never rejected for syntactic reasons. Operators bind and associate as the grammar says.",
 ["inputs", "programs"], "every token sequence",
 "Grammar tests are individual sentences; missing or superfluous tokens can be tolerated at any of hundreds of positions.",
 ["trlc/parser.py"], ["Parser", "Parser_Base.match", "Parser.parse_expression", "Parser.parse_check_block", "Parser.parse_preamble"])
prop("C20", "Command line options select files and messages as documented",
 "Given files and directories to process, include directories and the options to skip requirement files, restrict output or add a show-file list, the tool processes exactly the selected inputs plus the included files they need, includes never hide or duplicate explicitly named files, and the file-count summary and file list state truthfully which files were processed.",
 ["configurations"], "every directory layout and option combination",
 "The golden tests run a fixed set of option sets on fixed layouts.",
 ["trlc/trlc.py", "trlc/errors.py"], ["trlc", "Source_Manager.register_include", "Source_Manager.register_directory", "Source_Manager.register_file"])
prop("C21", "Lint findings are exactly the documented ones",
 "In lint mode an issue is reported for each unused import, never-extended abstract type, impossible or pointless array bound, single-member or redundant union, partially available union field access, ambiguous tuple separator, implicit finality and ambiguous unary minus in the processed files, at its place, and for nothing else.",
 ["programs"], "every program",
 "Tests have one positive example per lint; absence of false alarms and of omissions needs all programs.",
 ["trlc/lint.py", "trlc/parser.py"], ["Linter.verify_type", "Linter.verify_array_type", "Linter.verify_tuple_type", "Linter.verify_imports"])

prop("C22", "The RST export shows every selected object once, in its place, with its values",
 "For files without errors and any selection (directory or file list, source file filter, object names), the exported document contains exactly the selected objects, each once, below the headings of exactly the sections it is declared in: a section has one heading however often it is opened, underlined over its full length in the style of its depth (all levels beyond the fourth alike), the objects directly in a section come in source order and before its subsections. Each object shows, of the requested components, those that have a value: plain ones as labelled fields, Markup_String ones as paragraphs within the definition, in which every reference is replaced by a role naming the resolved object, Markdown links and images are converted, lists are set apart and code blocks and directives keep their layout. The list, the table and the single values offered to other tools show the same objects and values, in the order asked for. If the files have errors nothing is written and the status is 1.",
 ["programs", "configurations", "inputs"], "every arrangement of sections and objects over files and packages, every description, every selection of objects and components",
 "Four golden files of one or two objects each; none has a subsection, a second component, a list, code block or directive, a filter or a table.",
 ["tools/trlc_rst/trlc_rst.py"], ["TRLCRST.convert_symbols_to_tree", "TRLCRST.render_to_file", "TRLCRST._render_record_block", "TRLCRST._preprocess_description", "TRLCRST._resolve_markup_references", "TRLCRST.render_table_to_string", "TRLCRST.field_value_for", "main"])

prop("C23", "Detailed diagnostics point at the text they are about",
 "In the detailed message style every diagnostic that has a place in a file shows that line of the source (without leading blank space, tabs shown as blanks) and, under it, markers that stand exactly below the token it is about, cut off at the end of the line; the file and line given are those of the brief style, and every message of the brief style appears, in the same order, with the same kind, text and category. A check failure shows the details given in the check, line by line with the layout kept and trailing blanks dropped, unless details are switched off. A prefix to be stripped is removed from the start of file names and from nowhere else.",
 ["programs", "inputs", "configurations"], "every layout of every faulty file (tabs, line ends, texts over several lines, first and last positions), every explanation and prefix",
 "Golden outputs show a few dozen messages in plainly laid out files; offsets depend on what stands before and in the token.",
 ["trlc/errors.py", "trlc/lexer.py"], ["Message_Handler.emit", "Source_Reference.context_lines", "Source_Reference.get_end_location", "Location.to_string"])

prop("C24", "What a finished run offers to other tools is what the source says",
 "Every name declared in a table (global, package, type) is found there under exactly its spelling, with exactly its entity, and is refused with one counted error when another kind of entity is asked for; no other spelling is found. Types list their own components and literals in declaration order, all components with the inherited ones first, the types they extend directly or indirectly, and which components are frozen with which value. Every value of every object, down to the parts of tuples and elements of arrays, is of the kind written, refers to the object named, and carries its place in the source, so that a message another tool reports on it is shown there, with its kind, text and category, and is counted as an error or a warning.",
 ["programs", "inputs"], "every valid model, every name looked up, every value",
 "The API is what downstream tools (tracing, export, documentation) build on; unit tests look at a few attributes of a few objects.",
 ["trlc/ast.py", "trlc/parser.py", "trlc/errors.py"], ["Symbol_Table.lookup_assuming", "Symbol_Table.all_names", "Composite_Type.all_components", "Record_Type.is_subclass_of", "Record_Type.is_frozen", "Record_Reference", "Message_Handler.error", "Message_Handler.check"])

prop("C25", "References in built documentation lead to exactly the requirement as it is now",
 "When documentation using the requirement domain is built with Sphinx, a reference to a requirement links to its definition, with an anchor named after it, if the documents as they are now define it exactly once; otherwise it stays text and one warning at its place says that the target was not found or in how many places it is defined. The requirement index lists every definition once, in alphabetical order below its first letter. All of this depends on the present documents only, not on what they were in earlier builds (definitions added, changed, moved to another document or removed) nor on whether they are read one after the other or in parallel.",
 ["histories", "schedules", "inputs"], "every history of edits and builds, every distribution of definitions and references over documents, serial and parallel",
 "There are no tests of the extension; what is left over from an earlier build shows only in histories.",
 ["tools/sphinx/extensions/trlc/trlc.py"], ["RequirementsDomain.resolve_xref", "RequirementsDomain.add_requirement", "RequirementsDomain.clear_doc", "RequirementsDomain.merge_domaindata", "RequirementsIndex.generate", "_pretty_location"])

prop("C26", "The progress of a run is told from its begin to its end",
 "Whoever follows a run through the callbacks of Source_Manager is told once, first, that it begins, and once, last, that it ends, however it ends; in between, after each needed file that was read to its end, the whole percentage of the needed files dealt with so far. Needed are exactly the files of the packages the registered files ask for, so the percentage never decreases, never exceeds 100, and is 100 exactly if every needed file was read to its end.",
 ["programs", "histories", "configurations"], "every set of files, imports and faults, every way for a run to end",
 "Nothing tests the callbacks; every early return of the run is a place where the end can be left out.",
 ["trlc/trlc.py"], ["Source_Manager.process", "Source_Manager.signal_progress", "Source_Manager.callback_parse_begin", "Source_Manager.callback_parse_progress", "Source_Manager.callback_parse_end", "Source_Manager.build_graph"])

prop("C27", "The examples of the verifier are objects that fail as it says",
 "Where the verifier reports a check as not always evaluable and gives an example it does not call unreliable, that example, read as an object of its type (or as a value of its tuple), is valid TRLC: its type admits it, texts, decimals, enumerators and references are written so that they mean the values they stand for. Evaluating the check on these values fails at the place and in the way reported, unless an element before settles a quantified expression, and no fatal check before is false for them.",
 ["programs"], "every model with checks, every finding the verifier makes about it, every example it gives",
 "The examples are produced by a solver and turned back into TRLC; the tests compare a few of them literally and none reads them again.",
 ["trlc/vcg.py"], ["VCG.create_counterexample", "VCG.value_to_trlc", "VCG.fraction_to_decimal_string", "VCG.tr_component_decl", "VCG.emit_tuple_constraints", "Feedback"])

prop("C28", "Errors that follow from something elsewhere say where that is",
 "The message of an error names, as file and line, the place it follows from: the definition before (in this file or another one) of a name that is declared again or nearly so, the component or variable a quantified expression hides, the value a component was frozen to before, the component a record lacks, and the operation in a check, wherever it is written, that cannot be evaluated on the value at which the error is reported.",
 ["programs"], "every program with such an error, every distribution over lines and files",
 "Tests compare messages of programs in which nearly all of these places are in the same line or file.",
 ["trlc/ast.py", "trlc/parser.py", "trlc/trlc.py", "trlc/errors.py"],
 ["Source_Manager.cross_file_reference", "Message_Handler.cross_file_reference", "Symbol_Table.register", "Expression.evaluate", "Parser.parse_quantified_expression", "Parser.parse_record_declaration", "Parser.parse_record_object_declaration"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

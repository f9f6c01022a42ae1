prop("C01", "Instance operations never modify the tree they start from",
  "Every navigation, editing, merging, default-adding, evaluation and output operation on an instance returns its result as new instances. Everything readable through the original instance, its ancestors and the values passed as arguments (values, sibling members, neighbouring entries, positions, timestamps) is the same after the call as before it.",
  ["inputs", "histories"], "every public operation on every kind of instance node, any order of operations",
  "The tests compare the returned instance with an expectation and hardly ever look back at the receiver; in-place changes of a shared value stay invisible until another holder reads it.",
  ["instance.py", "instvalue.py", "schemanode.py"],
  [("copy-on-write editing", "instance.py:InstanceNode"), ("shallow copy of structured values", "instvalue.py:StructuredValue.copy")],
  "effect (purity) analysis by " + AI, "Decides, for each operation of the public instance API applied at each kind of node of an abstract tree with uninterpreted leaves, that no object reachable from the originals is written; bounded tree shapes.")

prop("C02", "Using a data model never changes its compiled schema",
  "Reading, querying, decoding, validating and editing through a data model leave the compiled schema as it was built: node properties, types, default values, constraints and the identity hierarchy. Only validation statistics, the diagnostics of the last failed type check and lazily built caches may change, so an answer never depends on what was asked before.",
  ["inputs", "histories"], "every operation on the data model or an instance, any history of earlier operations",
  "A test builds a fresh or module-wide model and asks each question once; state leaking from one call to the next needs a history.",
  ["schemadata.py", "schemanode.py", "datatype.py", "datamodel.py"],
  [("set copies in identity queries", "schemadata.py:SchemaData.derived_from"), ("copies of default values", "schemanode.py:LeafListNode.default")],
  "effect (purity) analysis by " + AI, "Decides that no object reachable from the data model is written by any operation in the table, apart from the listed counters, diagnostics and empty caches.")

prop("C03", "Cursor moves and edits act on exactly the addressed position",
  "Going down, up, to a sibling, to the previous or next entry, inserting before or after, updating, adding and deleting change exactly the addressed entry or member: the parent (up to the root) seen afterwards holds every other entry and member unchanged and in order, and the resulting cursor reports the right value, index, path and schema node. Stepping outside the array, or to a member that is absent, or above the root, is always reported as a nonexistent instance.",
  ["inputs", "histories"], "all arrays, objects, positions and sequences of cursor operations",
  "Tests walk a handful of positions of one example instance; off-by-one slips at the first or last entry, in a second step, or several levels up escape them.",
  ["instance.py"],
  [("zipper of preceding and following entries", "instance.py:ArrayEntry"), ("sibling map", "instance.py:ObjectMember"), ("zipping back", "instance.py:InstanceNode.up")],
  AI + " over token sequences", "Decides every operation at every position of arrays up to 3 entries and objects up to 3 members of distinct uninterpreted tokens, plus operation pairs and triples; larger shapes follow only by uniformity of the code in the tokens.")

prop("C04", "Semantic validation enforces every must, reference and key constraint",
  "Validation that includes semantics fails whenever, anywhere in the validated subtree and in any entry of any list or leaf-list, a must expression is false or a reference that requires an instance has no target with an equal value, and reports the constraint's own error tag and message where it defines them. It checks every such constraint on every node kind that can carry it, and passes when all of them hold.",
  ["inputs", "programs"], "all data models and instances; every node kind, position and number of constraints",
  "Tests violate one or two constraints in one model; a check skipped for one node kind, for the second constraint or the last entry shows on no sampled instance.",
  ["schemanode.py", "datatype.py"],
  [("per-kind validation methods", "schemanode.py:SchemaNode._validate"), ("must evaluation", "schemanode.py:DataNode._check_must")],
  AI + " (must-check dataflow on every path)", "Constraint outcomes are uninterpreted atoms; every combination over the abstract instance is explored and validation must fail exactly when a violated constraint is present.")

prop("C05", "Syntax validation accepts exactly the structure the schema allows",
  "Validation that includes syntax fails on an unexpected member, a missing mandatory member, members of two different cases of one choice, or a scalar outside its type, at any depth; and it passes when none of these occurs. State data are rejected when only configuration is validated and mandatory state is then not required.",
  ["inputs", "programs"], "all data models and instances, both content types, all validation scopes",
  "Tests validate a few fixed instances; the accepting set must be right for every combination of present and absent members.",
  ["schemanode.py", "schpattern.py"],
  [("schema pattern derivative", "schpattern.py:SchemaPattern"), ("recursive validation", "schemanode.py:InternalNode._validate")],
  AI, "Explores all member subsets of abstract containers mixing optional, mandatory, conditional, choice and state children against the specified accepting set.")

prop("C06", "Schema patterns form a sound algebra of member sets",
  "The result of matching members one at a time against a schema pattern does not depend on how sequences, alternatives and optional parts were combined: a pattern accepts precisely the sets of members described by its parts, independent of order. Conditional members count only while their condition holds, and state members only where state data is allowed.",
  ["inputs", "programs"], "all pattern combinations, member sets, member orders and condition outcomes",
  "Patterns built from the test models exercise few combinations of the smart constructors and almost never all orders.",
  ["schpattern.py"],
  [("derivatives and smart constructors", "schpattern.py"),],
  AI + " of derivatives against the set-theoretic definition", "All patterns to a small depth over uninterpreted members, all subsets and orders, all condition outcomes.")

prop("C07", "List constraints: keys, uniqueness and cardinality are enforced exactly",
  "A list or leaf-list validates if and only if its number of entries lies within its minimum and maximum (inclusive), every keyed entry has all its keys, no two entries have equal keys, no two entries agree on all leaves of a unique statement, and configuration leaf-list values are distinct.",
  ["inputs"], "all numbers and positions of entries, all equality patterns between entries, all bounds",
  "The tests contain one violating list each; duplicates that are not adjacent, boundary counts and entries lacking a unique leaf are not sampled.",
  ["schemanode.py"],
  [("cardinality", "schemanode.py:SequenceNode._check_cardinality"), ("keys and unique", "schemanode.py:ListNode._check_list_props")],
  AI + " with order and equality atoms", "All equality patterns of up to 3 entries, all orderings of count against bounds.")

prop("C08", "Type restrictions accept exactly the values they describe",
  "A number, string or binary value satisfies its range or length restriction if and only if it lies in one of the listed intervals, both ends included; min and max denote the bounds of the type being restricted, and built-in numeric types accept exactly their RFC 7950 bounds. A string satisfies its type if and only if it fully matches every pattern of the whole typedef chain and no inverted one. A restricted enumeration or bits type accepts exactly the listed names and keeps their values. A malformed restriction is rejected as such.",
  ["inputs", "programs"], "all values, all interval lists, all built-in types, all typedef chains",
  "Boundary values and every interval of multi-part restrictions are a product space; tests probe a few points.",
  ["constraint.py", "datatype.py"],
  [("interval membership", "constraint.py:Intervals.__contains__"), ("restriction texts", "constraint.py:Intervals.restrict_with"), ("type bounds", "datatype.py:IntegralType"), ("patterns", "datatype.py:StringType.__contains__")],
  AI + " with order atoms and constant propagation", "Interval ends and the value are uninterpreted points: all orderings are explored, which covers every concrete number. Restriction texts and typedef chains are interpreted and probed at every boundary.")

prop("C09", "A failing type check always explains itself",
  "Whenever a value is found not to belong to a type, the type carries an error tag and message describing this failure: the custom ones of the violated restriction where defined, otherwise the standard ones. No stale information from an earlier check is reported.",
  ["inputs", "histories"], "all types, all non-member values, any earlier failures",
  "Tests check tags for a few types and values and never the sequence of two different failures.",
  ["datatype.py"],
  [("error info", "datatype.py:DataType._set_error_info"),],
  AI + " (every False-returning path sets error info)", "Every path of every type's membership test that answers no must have set tag and message on that path.")

prop("C10", "Raw JSON representation of every type follows RFC 7951",
  "Encoding a value of a type yields the JSON kind RFC 7951 prescribes for it (64-bit integers and decimals as strings, other integers as numbers, booleans as true or false, empty as a one-null array, everything else as strings), and decoding accepts that kind and no other. Values decoded from a permitted kind keep their content.",
  ["inputs"], "all types and all JSON kinds of raw values",
  "Each type is sampled with one or two raw values; the kind check must hold for every JSON kind.",
  ["datatype.py"],
  [("from_raw / to_raw pairs", "datatype.py:DataType")],
  AI + " over JSON kinds", "Every type against every JSON kind with uninterpreted content.")

prop("C11", "Decoding arbitrary raw data either succeeds or reports a documented error",
  "Whatever JSON-like data is given for decoding (wrong kinds at any level, unknown names, malformed annotations), the library either returns an instance or raises one of its own documented exceptions naming the offending path. No other exception escapes.",
  ["inputs"], "every raw value of every JSON kind at every position of every node kind",
  "Tests feed valid documents and two or three invalid ones; malformed input space is unbounded.",
  ["schemanode.py", "datatype.py", "datamodel.py"],
  [("kind checks before use", "schemanode.py:InternalNode.from_raw"), ("type decoding", "datatype.py:DataType.from_raw")],
  AI + " (exception-escape analysis)", "Raw values are symbols of unknown JSON kind; every builtin operation on them may raise and every escaping exception type is checked.")

prop("C12", "The XML representation agrees with the JSON one",
  "Decoding a value, container, list or leaf-list from XML gives the same instance as decoding the equivalent JSON, and the same defects are rejected. Encoding to XML emits each member under its own name, in order, with the namespace of its module wherever it differs from its parent's.",
  ["inputs", "programs"], "all node kinds and types",
  "Only a couple of documents are compared through both paths.",
  ["schemanode.py", "datatype.py", "instance.py"],
  [("from_xml next to from_raw", "schemanode.py:InternalNode.from_xml"), ("to_xml next to raw_value", "instance.py:InstanceNode.to_xml")],
  AI + " with sibling cross-check", "Sibling implementations are interpreted over the same abstract tree and compared token by token.")

prop("C13", "XPath operators follow the XPath 1.0 type rules",
  "Each XPath operator applies the XPath 1.0 conversions to its operands: and, or and not to booleans; = and != compare node-sets existentially and otherwise by boolean, number, string precedence; <, <=, >, >= compare numbers, existentially for node-sets; arithmetic converts to numbers; | takes only node-sets. Comparison and logical operators always give a boolean.",
  ["inputs"], "all operand kinds on both sides of every operator",
  "Twenty or so expressions are tested; the operand-kind matrix has hundreds of cells.",
  ["xpathast.py", "nodeset.py"],
  [("operator classes", "xpathast.py:BinaryExpr"), ("node-set comparisons", "nodeset.py:NodeSet")],
  AI + " over operand kinds", "Operands are symbols of each XPath kind; the resulting dataflow is compared with the specified conversion.")

prop("C14", "XPath functions have the required signature and result type",
  "Every XPath function accepts exactly the number of arguments its definition allows, rejects other counts when the expression is parsed, raises a type error for an argument that must be a node-set and is not, and otherwise returns the value its definition prescribes, of the declared type.",
  ["inputs", "programs"], "all functions, all argument counts and kinds",
  "Tests call each function with well-formed arguments.",
  ["xpathparser.py", "xpathast.py"],
  [("function table", "xpathparser.py:XPathParser"), ("function classes", "xpathast.py")],
  "dispatch-table exhaustiveness and " + AI, "Each function of the parser's table is interpreted for every argument count and argument kind.")

prop("C15", "XPath axes select the right nodes in the right order",
  "Each axis yields exactly the nodes it defines relative to the context node, including at the first and last entry of a list, at the root and on scalar nodes, and each node once. Name tests restrict any axis to nodes of that qualified name.",
  ["inputs"], "all axes, all positions of the context node",
  "The tests use child, parent and a few sibling steps from the middle of a list.",
  ["xpathast.py", "instance.py"],
  [("axis dispatch", "xpathast.py:Step"), ("axis methods", "instance.py:InstanceNode")],
  AI, "Every axis with and without name test from every node of an abstract tree, against the axis definition.")

prop("C16", "XPath grammar: precedence, associativity and complete consumption",
  "Parsing follows the XPath 1.0 grammar: or binds weakest, then and, equality, relational, additive, multiplicative, unary minus, union and path; binary operators associate to the left. Every expression in a schema is consumed to its end or rejected.",
  ["inputs", "programs"], "all operator pairs and all schema statements carrying XPath",
  "A handful of operator pairs occur in tests; trailing garbage is never tried.",
  ["xpathparser.py", "schemanode.py", "datatype.py"],
  [("recursive descent chain", "xpathparser.py:XPathParser"),],
  "grammar-chain analysis by abstract interpretation of the parser's control flow", "All ordered operator pairs, each XPath-bearing statement with unconsumed input.")

prop("C17", "Defaults appear exactly where the schema lets them apply",
  "Adding defaults keeps every explicit value and adds a default only for an absent leaf, leaf-list or non-presence container whose condition holds and, inside a choice, only in the active case or the default case when none is active. A default is never added beneath an absent presence container, list or non-default case, nor for an obsolete node. The value added is the node's own default or else that of its type; RPC, action and notification messages are completed alike.",
  ["inputs", "programs"], "all combinations of present members, conditions, choices and cases",
  "The tests compare one completed tree.",
  ["schemanode.py", "instance.py"],
  [("default propagation", "schemanode.py:InternalNode._add_defaults"), ("choice defaults", "schemanode.py:ChoiceNode._add_defaults")],
  AI, "All subsets of present members and all condition outcomes over an abstract schema with each node kind, compared with the specified result.")

prop("C18", "Features guard every statement and evaluate as boolean formulas",
  "A statement with if-feature takes effect if and only if all its feature expressions are true for the supported features, with not binding tighter than and, and tighter than or. This applies to every kind of statement that may carry if-feature.",
  ["inputs", "programs", "configurations"], "all feature sets, all formulas, all guarded statement kinds",
  "Tests evaluate five formulas against one feature set and guard few statement kinds.",
  ["schemadata.py", "schemanode.py", "datatype.py"],
  [("feature expression parser", "schemadata.py:FeatureExprParser"), ("guards", "schemadata.py:SchemaData.if_features")],
  AI, "Feature membership is an uninterpreted atom; formulas are decided for all assignments, guards by comparing models with and without.")

prop("C19", "Every YANG statement that shapes data is honoured",
  "Each data-definition and schema-refining statement of YANG 1.1, in every position where it is allowed, is reflected in the compiled schema; none is silently dropped. The compiled node reports the kind, name, namespace, status, configuration flag, mandatory flag, presence, ordering, units and type given in the module.",
  ["programs"], "all statement kinds in all parents",
  "The test modules use each statement in one place.",
  ["schemanode.py", "datamodel.py"],
  [("statement dispatch table", "schemanode.py:SchemaNode._stmt_callback")],
  "dispatch-table exhaustiveness and " + AI, "For each statement kind and parent kind the compiled node is inspected after abstract interpretation of the schema construction.")

prop("C20", "Refine, augment and deviation change exactly the targeted properties",
  "A refine, augment or deviation alters precisely the addressed node and property: add and replace set it, delete restores the unset state, not-supported removes the node, and all other nodes and uses of the same grouping stay as they were.",
  ["programs"], "all target node kinds, properties and deviation kinds",
  "A few deviations on one model are tested.",
  ["schemanode.py", "datamodel.py"],
  [("deviation dispatch", "schemanode.py:SchemaNode._apply_deviate"), ("uses and refine", "schemanode.py:InternalNode._uses_stmt")],
  AI + " (frame conditions)", "Each property, node kind and deviation kind: the compiled schemas with and without are compared node by node.")

prop("C21", "Identity derivation is the transitive closure of base statements",
  "One identity is derived from another if and only if a chain of base statements leads from it to the other, across modules; an identity is never derived from itself, and a reference typed with several bases accepts exactly the identities derived from all of them.",
  ["programs"], "all identity graphs",
  "Tests contain chains of length two.",
  ["schemadata.py", "datatype.py"],
  [("adjacency", "schemadata.py:IdentityAdjacency"), ("closure", "schemadata.py:SchemaData.derived_from")],
  AI, "All acyclic identity graphs on up to 4 identities.")

prop("C22", "Command-line exit status tells what went wrong",
  "The command-line tool yangson exits with 0 only if everything requested succeeded, 1 when an input file cannot be read or decoded, 2 when the YANG library or data model cannot be used, and 3 when instance data are invalid; its options have the documented effect. convert8525 exits with 0, 1 (input unavailable or invalid), 2 (no such datastore or schema) or 3 (output cannot be written), and on success its output lists exactly the modules of the selected schema, with their conformance, features, submodules and deviations. No failure ends in a traceback or in status 0; it is reported on standard error.",
  ["inputs"], "all failures of all options",
  "The documentation tests run a few successful commands.",
  ["__main__.py", "convert8525.py"],
  [("error handling in main", "__main__.py:main"), ("conversion", "convert8525.py:main")],
  AI, "Every option, as argument and as parameter, with every failure of the files, pickles, JSON and library operations it uses, each concrete library exception included; some 17 contents of RFC 8525 YANG library converted with the modules of the repository and compared with a conversion written from the RFCs. Larger libraries are not enumerated.")

prop("C23", "Instance identifiers and resource identifiers agree with navigation",
  "Following the route of a node leads back to that node, its printed form parses to an equal route, and looking up a route gives the same value as navigating along it. A route to something absent is reported as nonexistent by navigation and as no value by look-up. Identifiers are accepted exactly by the grammars of RFC 7950 and RFC 8040.",
  ["inputs", "histories"], "all nodes of all instances, all route kinds, all identifier texts",
  "Few routes are checked both ways.",
  ["instance.py", "instroute.py"],
  [("route items", "instance.py:MemberName"), ("parsers", "instance.py:InstanceIdParser"), ("resource identifiers", "instance.py:ResourceIdParser")],
  AI, "Routes of every node of enumerated instances with values of every type, and some ten thousand texts near valid identifiers, against a parser and an evaluator written from the RFCs; larger instances are not enumerated. A value with both kinds of quotes has no printed form in RFC 7950 and is left out, as are zero-padded positions.")

prop("C24", "Equality of values and routes is consistent with hashing",
  "Two structured values are equal if and only if they are of the same kind and have equal content, whatever their timestamps; inequality is the negation of equality and equal values have equal hashes. Comparing route items of different kinds says unequal and never fails.",
  ["inputs"], "all pairs of values and route items",
  "Tests compare a few equal pairs.",
  ["instvalue.py", "instance.py"],
  [("hash-based equality", "instvalue.py:StructuredValue.__eq__")],
  AI, "All pairs over bounded abstract values and over all route item kinds.")

prop("C25", "Results never depend on hash order",
  "Building a data model and processing instances gives the same schema, order, output and errors on every run: no result depends on the iteration order of a set.",
  ["schedules", "programs"], "all hash seeds",
  "One run sees one order.",
  ["schemadata.py", "schemanode.py", "schpattern.py"],
  [("set-typed bookkeeping", "schemadata.py:SchemaData._process_imports")],
  "abstract interpretation under several set iteration orders, results compared", "The order in which an abstract set is iterated is a parameter of the interpreter; each program point is run under four orders and everything observable is compared. Bounded to the enumerated models and instances.")

prop("C26", "Every library exception can be constructed, printed and caught as documented",
  "Each exception raised anywhere in the library is raised with arguments its class accepts, renders a message that tells what it carries without failing, and belongs to the documented hierarchy. Invalid YANG library data, modules, XPath expressions, identifiers and instance data are reported with the documented exception and not with a Python error, and the exception names the instance, schema node, path in the input or position in the text that is at fault.",
  ["inputs", "programs"], "all raise sites, all single faults of the enumerated inputs",
  "Most raise sites are never reached by tests.",
  ["exceptions.py"],
  [("exception classes", "exceptions.py")],
  "call binding of every raise statement over the AST; abstract interpretation of error scenarios, judging each exception met", "Every raise expression in the package is bound against its constructor; documents, models, library data and expressions with one fault each are interpreted abstractly, and every exception met is printed and its place compared with the fault's.")

prop("C28", "Annotations are attached, checked and returned",
  "Metadata annotations on a member or entry are decoded against their declared type, unknown ones are rejected, they never appear as data members, and raw output returns them at the place they were given.",
  ["inputs"], "all node kinds that may carry annotations",
  "Two annotated documents are tested.",
  ["schemanode.py", "instance.py"],
  [("metadata processing", "schemanode.py:InternalNode._process_metadata")],
  AI, "Annotated abstract trees of every node kind.")

prop("C31", "Names resolve through the module that contains them",
  "A prefixed name denotes the module bound to that prefix in the (sub)module text where it appears and an unprefixed one the module's own namespace or the using module for groupings; unknown prefixes, unregistered modules and undefined groupings or typedefs are reported as such.",
  ["programs"], "all prefix maps, submodules and definition scopes",
  "The test modules use the same prefixes throughout.",
  ["schemadata.py", "statement.py"],
  [("prefix maps", "schemadata.py:SchemaData.resolve_pname"), ("scoped lookup", "statement.py:Statement._get_scoped_definition")],
  AI, "Worlds where the same prefix denotes different modules and the same name is defined in several scopes.")

prop("C32", "YANG text is tokenised as RFC 7950 prescribes",
  "For every module text that follows the grammar of RFC 7950 (sections 6.1, 6.3 and 14), the module parser gives the tree of statements the text denotes: keywords and prefixes, arguments after concatenation, removal of layout whitespace and substitution of escapes, comments skipped, nesting kept. A text that does not follow it is rejected with EndOfInput if it ends too early, InvalidArgument for an undefined escape and otherwise UnexpectedInput at the first character that cannot continue a module. A module whose name or first revision differs from the expected one is rejected as such.",
  ["inputs"], "all module texts",
  "The tests parse well-formed modules.",
  ["statement.py", "parser.py"],
  [("statement parser", "statement.py:ModuleParser")],
  AI, "All words up to a length over representatives of the character classes the grammar tells apart, in each lexical context, and all single edits of modules using every construct, are parsed abstractly and compared with a parser written from the RFC. Left open: quotes and */ inside unquoted strings (YANG 1 and 1.1 differ), an unfinished comment after the module, layout after tabs that straddle the column of the quote.")

prop("C34", "No operation refers to an undefined name, attribute or argument",
  "No path through the library fails because a variable, attribute, method or parameter it uses does not exist on the object at hand: every global name is defined, every local variable assigned before it is read, every attribute exists on the object it is taken from, every call fits the parameters of what it calls, every name taken from the standard library exists. Printing, addressing and inspecting methods of expressions, schema nodes and instance nodes work on every kind of them.",
  ["inputs", "programs"], "all functions and all call sites",
  "Rare branches are never executed by tests.",
  ["*.py"],
  [("every function", "*.py")],
  "definite-assignment, name-resolution and attribute-resolution analysis over the AST, symbol tables and class hierarchy; abstract interpretation of the public methods without arguments", "Every global name, local variable read, attribute access and call is an obligation. Definite assignment follows branches, loops, exceptions and constant flags. Receivers are typed by annotations, constructors and attributes bound to annotated parameters; of receivers that stay untyped (about 350 of 2600) only attributes that exist nowhere are reported.")

prop("C40", "XPath arithmetic gives the IEEE-754 result",
  "Numeric XPath expressions evaluate to the double-precision value XPath 1.0 defines.",
  ["inputs"], "all numbers", "Numerical results are sampled.", ["xpathast.py"], [("numeric operators", "xpathast.py:NumericExpr")],
  "", "", na="numerical results quantify over run-time values no static argument here bounds; the structural part (conversion and operator selection) is decided under C13")

prop("C41", "Merging matches by keys, values and names and keeps everything else",
  "InstanceNode.merge matches list entries by keys, leaf-list entries by value and members by name, recursively; matching leaves and anydata take the new value, non-matching entries and members of both sides are kept, and new entries are appended in their order.",
  ["inputs"], "all pairs of receiver and argument", "Tests merge a few pairs.", ["instance.py"],
  [("merge", "instance.py:InstanceNode.merge"), ("entries", "instance.py:InstanceNode._merge_list"), ("members", "instance.py:InstanceNode._merge_container")],
  AI, "Every pair of values over small families for each kind of node, raw and cooked, is merged abstractly and compared with a reference merge written from docs/instance.rst and RFC 7950.")

prop("C42", "Module processing order respects import dependencies",
  "An implemented module, with its submodules, is processed only after every implemented module it or its submodules import; a cyclic import among implemented modules is rejected as CyclicImports; import without revision takes the latest registered one, an unregistered one is rejected.",
  ["programs"], "all import graphs", "One import graph is tested.", ["schemadata.py"], [("topological sort", "schemadata.py:SchemaData._process_imports")],
  AI, "One representative of each isomorphism class of import graphs over four modules, under several orders of the YANG library and placements of the imports in submodules, is processed abstractly; larger graphs are not.")

prop("C43", "The modules named in YANG library are the ones read from the search path",
  "Every module and submodule named in YANG library data is read from the first file in the order of the search path - in each directory name@revision.yang, then name.yang - whose content has that name and revision; unreadable and unsuitable files are passed over, and if there is none, ModuleNotFound names the module and revision. Features, conformance, submodules, prefixes, namespaces, file path and revision of each module are recorded as the library data and the module text say, whatever the order of entries; module_set_id() identifies exactly the set of (sub)modules and revisions.",
  ["inputs", "programs"], "all contents of the file system and all library data", "Tests read modules from one complete directory.", ["schemadata.py", "datamodel.py"],
  [("module lookup", "schemadata.py:SchemaData._load_module"), ("library data", "schemadata.py:SchemaData._from_yang_library"), ("module set", "datamodel.py:DataModel.module_set_id")],
  AI, "open() is modelled by enumerated contents of a file system (absent, unreadable, right, wrong name, wrong revision or malformed file in each of the places looked at); the data model is built abstractly from module texts and what is taken and recorded is compared with the definition.")


prop("C44", "Schema nodes are found by the paths that address them, and only by those",
  "get_schema_node(), get_data_node(), get_schema_descendant(), get_child() and get_data_child() return exactly the schema node the path or qualified name addresses - choices and cases are transparent in data paths and visible in schema paths, names without a prefix belong to the module of the parent - and None for paths that address nothing; malformed paths raise InvalidSchemaPath. data_path(), iname(), data_parent(), data_children(), filter_children(), state_roots() and split_instance_route() agree with that addressing for every schema node.",
  ["programs", "inputs"], "all schema trees and all paths", "Tests look up a few nodes of one module.", ["schemanode.py", "datamodel.py", "schemadata.py"],
  [("lookup", "schemanode.py:InternalNode.get_data_child"), ("data path", "schemanode.py:SchemaNode.data_path"), ("routes", "schemanode.py:DataNode.split_instance_route"), ("paths", "schemadata.py:SchemaData.path2route")],
  AI, "The schema trees are compiled abstractly from representative modules (two modules augmenting each other, choices in choices, shorthand cases, lists, operations, notifications, every kind of node); each schema node and each name, right and wrong, is an obligation, compared with a reference written over the public children attribute.")

prop("C45", "The ASCII tree shows the schema, and its counters count validated instances",
  "ascii_tree() has one line for each schema node, below its parent and ordered by qualified name, with the status, flags, name, option, keys and type that the documented conventions prescribe; no_types leaves out the types only, val_count adds the counters. The counter of a data node or operation is the number of its instances validated since the model was built or the counters were cleared, and clear_val_counters() sets all counters of the subtree to zero.",
  ["programs", "inputs"], "all schema trees", "Tests compare one tree.", ["schemanode.py", "datamodel.py"],
  [("tree", "schemanode.py:InternalNode._ascii_tree"), ("counters", "schemanode.py:SchemaNode.clear_val_counters")],
  AI, "The tree of abstractly compiled modules is compared line by line with a drawing made by the reference; sequences of validations and clearing at different nodes are compared with counting.")

prop("C46", "Timestamps tell when instance data were last modified",
  "The timestamp of an instance node, array or object is the time of the last modification of what it contains: navigation and reading never set a new one anywhere; every edit (update, put_member, delete_item, insert_before, insert_after, merge, add_defaults) dates the edited node and all that contains it, at whatever place the cursor goes up, and nothing outside; the tree the edit started from keeps its timestamps. Copying a structured value and setting one of its items date it with the current time.",
  ["inputs", "histories"], "all trees, all sequences of moves and edits", "Tests compare two timestamps of plain values.", ["instance.py", "instvalue.py"],
  [("up", "instance.py:InstanceNode.up"), ("zipping", "instance.py:ObjectMember._zip"), ("copies", "instance.py:ObjectMember._copy"), ("structured values", "instvalue.py:StructuredValue")],
  AI, "The clock is an abstract counter that advances at every reading, so a timestamp names the operation that set it. All nodes of a document with every kind of node, two moves from each, and 33 edits at different levels followed by moves.")

prop("C47", "A data model that was pickled and restored is the same model",
  "Every data model, freshly built or already used, can be pickled, and the restored one - also in a new process, where nothing has been built - is the same model: it has the same schema (every node, type, constraint and default), and reading, validation, conversion, defaults, XPath evaluation, paths and counters give the same results; pickling leaves the original as it was. The command line tool relies on it.",
  ["programs", "histories"], "all models", "Tests never pickle a model.", ["datamodel.py", "schemanode.py", "datatype.py", "constraint.py", "xpathast.py", "enumerations.py"],
  [("intervals", "constraint.py:Intervals"), ("patterns", "constraint.py:Pattern"), ("schema node", "schemanode.py:SchemaNode"), ("XPath nodes", "xpathast.py:Expr")],
  AI, "The abstract heap of compiled representative models (every kind of node, type, XPath function and axis) is copied as the pickle protocol copies it - objects without __init__, hooks interpreted, functions and classes by name, module and class state as at program start - and compared with the original, node by node and on sample documents.")

prop("C48", "An output filter is asked about every node once, in order, and obeyed",
  "raw_value() and to_xml() ask an OutputFilter about every member and entry in document order: begin_member or begin_element before its content, end_member or end_element after it, each once, with the parent instance, the node and its attributes. What begin_* refuses is not looked into; a node is output exactly if begin_* and end_* approve of it and of all nodes that contain it; attributes the filter adds are output with the node. A filter that approves of everything, the plain OutputFilter and none give the same output. The instance stays as it is.",
  ["inputs"], "all documents and filters", "One test filters one container out of list entries.", ["instance.py"],
  [("filter", "instance.py:OutputFilter"), ("JSON", "instance.py:InstanceNode.raw_value"), ("XML", "instance.py:InstanceNode.to_xml")],
  AI, "An abstract filter refuses, or adds an attribute to, each node of a document with every kind of node in turn, at begin and at end, for output from the root and from inner nodes; questions, outputs and the instance afterwards are compared with a walk through the document. Attributes added to leaf-list entries and to whole lists, and metadata of list entries in XML (never output), are left open.")

prop("C49", "A validation error names the instance at fault, the rule and the details",
  "When an instance has exactly one fault, validation from the faulty instance or any that contains it raises the same error: the class that corresponds to the rule (SchemaError, SemanticError, YangTypeError), the instance node at fault (the entry, not the list, for faults of an entry), the documented error tag - or the one of error-app-tag - and the message that error-message defines or that names the member, key or entry. The error prints as instance identifier, tag and message. A scope that does not include the rule accepts the instance.",
  ["inputs", "programs"], "all schemas and documents", "Tests check the class of a few errors.", ["schemanode.py", "exceptions.py"],
  [("errors", "exceptions.py:ValidationError"), ("structure", "schemanode.py:InternalNode._check_schema_pattern"), ("keys", "schemanode.py:ListNode._check_keys"), ("leaves", "schemanode.py:TerminalNode._validate"), ("musts", "schemanode.py:DataNode._check_must")],
  AI, "A grouping with every kind of constraint, used in six places (container, list entry, nested entry, case, augment, rpc input); 35 documents with one fault each, validated from the instances on the path to the fault, with real XPath evaluation, against a table of expected errors.")

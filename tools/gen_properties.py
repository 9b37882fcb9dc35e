#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of truth."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

HS = "hcl/hclsyntax/"

prop("C01", "Native syntax parsing is total and its partial results are usable",
     "Parsing or lexing any sequence of bytes as a configuration file, expression, template or absolute traversal returns without crashing or hanging and yields a usable (non-nil) file or expression whether or not there were errors. Every diagnostic it reports has a summary and points at a range inside the given source. The result, even of a failed parse, can be decoded with any schema, asked for its variables and evaluated without crashing.",
     ["inputs"], "all byte strings over an alphabet of lexically significant bytes and all token strings up to a length, plus every one- and two-step edit of well-formed sources",
     "The parser tests feed hand-written sources, nearly all well-formed or with one typical mistake; recovery code is reached by a handful of inputs, and a crash or hang needs a particular malformed sequence.",
     [HS+"parser.go", HS+"parser_template.go", HS+"scan_tokens.go", HS+"peeker.go", HS+"public.go", HS+"token.go"],
     [("ParseConfig/ParseExpression/ParseTemplate/ParseTraversalAbs entry points", HS+"public.go"), ("error recovery", HS+"parser.go recover, recoverOver, recoverAfterBodyItem"), ("newline-mode stack", HS+"peeker.go PushIncludeNewlines/PopIncludeNewlines")],
     observe=["returned file/expression", "diagnostics", "panic/hang"])

prop("C02", "Tokens tile the source exactly and carry correct positions",
     "For any byte sequence and any start position, the tokens produced by lexing it in any mode appear in source order without overlapping, each carries exactly the source bytes its range covers, only spaces and tabs are left between tokens, and the last one is the single end-of-file token at the end of the source. The line and column of every token boundary equal the count of line breaks and of grapheme clusters since the start position.",
     ["inputs"], "all byte strings and token strings up to a length over an alphabet including multi-byte characters, combining marks, CRLF and heredocs, in each lexing mode and for several start positions",
     "Scanner tests compare token lists for a few dozen literals; formatting, rewriting and every reported source location depend on tiling for arbitrary sources.",
     [HS+"scan_tokens.go", HS+"scan_tokens.rl", HS+"token.go", HS+"public.go"],
     [("scanTokens", HS+"scan_tokens.go"), ("emitToken position counting", HS+"token.go")],
     observe=["LexConfig, LexExpression, LexTemplate results"])

prop("C03", "Expression syntax groups as the language specification says",
     "Binary operators group by the specified precedence levels and left to right within a level, conditionals group to the right, unary operators bind tighter than any binary operator, and attribute access, index and splat suffixes apply in source order to the term before them. Parentheses override this, and adding spaces, comments, redundant parentheses, or newlines inside brackets never changes the structure that is parsed. A newline outside any bracket ends an attribute's expression.",
     ["programs"], "all expression trees up to a size over every operator and suffix form, each printed in every layout variant of a fixed set",
     "Tests pin the tree for isolated operators; grouping of mixed operators with suffixes, newlines and brackets is combinatorial.",
     [HS+"parser.go", HS+"expression_ops.go", HS+"peeker.go", HS+"spec.md"],
     [("parseTernaryConditional/parseBinaryOps", HS+"parser.go"), ("binaryOps levels", HS+"expression_ops.go"), ("parseExpressionTraversals", HS+"parser.go"), ("newline handling", HS+"peeker.go")],
     observe=["parsed tree", "evaluated result"])

prop("C04", "Operators and conditionals compute what the specification says",
     "Every arithmetic, comparison, equality, logical and negation operator and the conditional expression gives the value the specification defines for its operand values, converting operands to the operator's type first, and reports an error instead of a value when an operand is null, of a wrong type, or the result is undefined (such as zero divided by zero). A conditional yields the selected result converted to the common type of both results, and reports an error if there is none. Numbers are exact: no literal or result loses precision that the arithmetic preserves.",
     ["inputs", "programs"], "all operators over all pairs of values from an alphabet covering every type, null, and boundary numbers; all conditionals over all triples; all operator trees up to depth two",
     "Tests check one or two operand pairs per operator; the operand-type, null and conversion cross product is not sampled.",
     [HS+"expression.go", HS+"expression_ops.go"],
     [("BinaryOpExpr/UnaryOpExpr evaluation", HS+"expression_ops.go Value"), ("ConditionalExpr evaluation", HS+"expression.go ConditionalExpr.Value"), ("number literals", HS+"parser.go numberLitValue")],
     observe=["value and diagnostics of evaluating the expression"])

prop("C05", "Collection expressions compute what the specification says",
     "Tuple and object constructors, index and attribute access (including the legacy dotted index), attribute-only and full splats, and for expressions (tuple, object, conditional and grouping forms) give the value the specification defines for any source value, with iteration in the collection's defined order. Applied to a null, a wrong type, a missing key or attribute or an out-of-range index they report an error and never a wrong value.",
     ["inputs", "programs"], "all collection operations over all values of an alphabet of lists, sets, maps, tuples, objects, primitives and nulls, composed up to depth two",
     "Tests exercise each construct on one or two sources; the cross product of construct, source kind and key kind is not sampled.",
     [HS+"expression.go", "hcl/ops.go", HS+"parser.go"],
     [("ForExpr.Value", HS+"expression.go"), ("SplatExpr.Value", HS+"expression.go"), ("Index/GetAttr", "hcl/ops.go"), ("ObjectConsExpr/TupleConsExpr", HS+"expression.go")],
     observe=["value and diagnostics of evaluating the expression"])

prop("C06", "Templates render exactly what was written",
     "A quoted or heredoc template evaluates to its literal text with escape sequences decoded, interpolations replaced by their values converted to string, and if/for directives expanded, with nothing else added or lost. Strip markers remove exactly the adjacent whitespace of the neighbouring literal (up to and including a line break in multi-line templates), flush heredocs remove exactly the common leading spaces, and escaped introducers stay literal. A template that is a single interpolation yields that value unconverted.",
     ["inputs", "programs"], "all sequences of template parts (literals, escapes, interpolations, directives with all strip-marker placements) up to a length, in quoted, heredoc, flush-heredoc and bare form",
     "Tests render a few dozen templates; trimming interacts with which literal neighbours it, across part boundaries and lines.",
     [HS+"parser_template.go", HS+"parser.go", HS+"expression_template.go", HS+"scan_tokens.rl"],
     [("parseTemplateParts trimming", HS+"parser_template.go"), ("flushHeredocTemplateParts", HS+"parser_template.go"), ("decodeStringLit", HS+"parser.go"), ("TemplateExpr/TemplateJoinExpr evaluation", HS+"expression_template.go")],
     observe=["value and diagnostics of evaluating the template"])

prop("C07", "Names and calls resolve to the innermost scope and bind arguments in order",
     "A variable or function name refers to its definition in the innermost evaluation context that has one, falling back to enclosing contexts, and names bound by for expressions shadow outer ones only inside their own expression. A function call converts each argument to its parameter type, spreads a final expanded argument, and passes exactly those values in order; a wrong number or type of arguments, an undefined name or an invalid expansion is reported as an error and the function is not called.",
     ["programs", "configurations"], "all chains of up to three nested contexts with every placement of definitions, all call shapes over several signatures, all nestings of for scopes with shadowing",
     "Tests use one flat context in nearly every case; scope chains with partially missing maps and shadowing are not sampled.",
     [HS+"expression.go", "hcl/traversal.go", "hcl/eval_context.go"],
     [("FunctionCallExpr.Value", HS+"expression.go"), ("Traversal.TraverseAbs", "hcl/traversal.go"), ("ForExpr child contexts", HS+"expression.go")],
     observe=["value, diagnostics, and the recorded arguments of called functions"])

prop("C08", "Unknown values are never contradicted by later knowledge",
     "Evaluating an expression while some inputs are unknown never gives a known result, or a known type, that differs from the result for some concrete choice of those inputs. If evaluation succeeds for a concrete choice of the inputs then it does not fail with unknowns in their place, and it never crashes.",
     ["programs", "inputs"], "all expressions of the enumerated grammar with each subset of their inputs replaced by typed and untyped unknowns (also nested inside collections), compared with all concretisations from an alphabet",
     "A test fixes one unknown and one expected answer; soundness relates one run to every possible concretisation.",
     [HS+"expression.go", HS+"expression_ops.go", HS+"expression_template.go", "hcl/ops.go"],
     [("unknown handling in each Value method", HS+"expression.go"), ("Index/GetAttr on unknown", "hcl/ops.go")],
     observe=["value and diagnostics with and without unknowns"])

prop("C09", "Reported variables are exactly the ones evaluation can read",
     "The variables reported for an expression include every variable from the surrounding scope that evaluating it can read, and no name bound inside the expression itself. Evaluating with a context that defines only the reported variables gives the same result as with the full context, and removing a reported root that evaluation reads makes it fail. The same holds for JSON expressions and for the variables reported for a body together with a decoding specification.",
     ["programs"], "all expressions of the enumerated grammar, including nested for scopes with shadowing, in native and JSON syntax, and all specification/body pairs of the decoding alphabet",
     "Tests list expected traversals for a few expressions; completeness relates two independent recursive walks (analysis and evaluation) over every construct.",
     [HS+"variables.go", HS+"expression_vars.go", HS+"expression.go", "hcldec/variables.go", "hcl/json/structure.go"],
     [("variables walker with child scopes", HS+"variables.go"), ("walkChildNodes per expression type", HS+"expression.go"), ("variablesNeeded", "hcldec/spec.go"), ("json expression Variables", "hcl/json/structure.go")],
     observe=["Variables()", "evaluation under restricted contexts"])

prop("C10", "Evaluation is repeatable and safe to run concurrently",
     "Evaluating an expression or decoding a body does not modify it, its context or shared state: repeating it gives the same value and the same diagnostics (for an expression also in the same order). Evaluating the same parsed expression from several goroutines with separate evaluation contexts gives each exactly the result it would get alone, in every interleaving, and formatting or parsing from several goroutines likewise.",
     ["schedules", "histories"], "all interleavings, up to a bound, of up to three concurrent evaluations of shared expressions at harness-controlled scheduling points; all repetitions; separately free-running under the race detector",
     "Tests evaluate each expression once in one goroutine; a shared anonymous symbol, cached context or placeholder is only wrong under particular interleavings.",
     [HS+"expression.go", "ext/userfunc/decode.go", "hclwrite/format.go"],
     [("per-context splat item values under a lock", HS+"expression.go AnonSymbolExpr"), ("lazily built base context", "ext/userfunc/decode.go"), ("shared placeholder token", "hclwrite/format.go")],
     state=[("AnonSymbolExpr.values", "current splat item for each evaluation context", HS+"expression.go")],
     observe=["value and diagnostics per goroutine", "race detector reports"])

prop("C11", "Decoding a native body returns exactly the items its schema matches",
     "Extracting content from a native syntax body with a schema returns exactly the attributes and blocks the schema names, with their labels, in source order, and reports every missing required attribute, unexpected item, wrong number of labels and duplicate attribute, and nothing else. Partial extraction additionally returns a remaining body holding exactly the items not yet extracted.",
     ["inputs", "histories"], "all bodies up to a number of items over an alphabet of attributes and labelled blocks, all schemas over the same alphabet, and all sequences of partial extractions up to a depth",
     "Tests decode a fixed body with a fixed schema; sequences of partial extractions over arbitrary schemas form a state space.",
     [HS+"structure.go", HS+"parser.go"],
     [("Body.Content/PartialContent/JustAttributes with hidden items", HS+"structure.go")],
     state=[("hiddenAttrs/hiddenBlocks", "items already taken by partial extraction", HS+"structure.go")],
     observe=["BodyContent, remaining body, diagnostics"])

prop("C12", "Every kind of body obeys the same extraction laws",
     "For native, JSON, merged, packed, dynamically expanded, transformed and mock bodies holding the same items, any sequence of content, partial-content and attribute extractions yields the same items and agrees on whether there are errors. Full extraction fails exactly when partial extraction fails or leaves something behind, extracting in two steps is the same as in one, and no extraction changes the body it is applied to.",
     ["configurations", "histories"], "every body kind times all small bodies times all sequences of schemas up to a depth",
     "Each body kind is tested alone; the laws connect different kinds and repeated calls.",
     [HS+"structure.go", "hcl/json/structure.go", "hcl/merged.go", "ext/dynblock/expand_body.go", "ext/dynblock/unknown_body.go", "ext/transform/transform.go", "hclpack/structure.go", "hcltest/mock.go"],
     [("Content/PartialContent/JustAttributes of each implementation", "all listed files")],
     observe=["BodyContent, remaining body, diagnostics"])

prop("C13", "Merged bodies behave as the concatenation of their parts",
     "A body merged from several files or bodies yields the blocks of all of them in the given order and the attributes of all of them, reports an attribute defined by more than one of them as an error naming the first definition, and reports a required attribute as missing only if none of them defines it. Merging is associative and empty bodies contribute nothing.",
     ["configurations", "histories"], "all lists of up to three bodies over the body alphabet, all groupings, all schemas, and all sequences of partial extractions up to a depth",
     "Tests merge two or three fixed bodies with one schema.",
     ["hcl/merged.go"], [("mergedBodies.mergedContent", "hcl/merged.go"), ("MergeBodies flattening", "hcl/merged.go")],
     observe=["BodyContent, remaining body, diagnostics"])

prop("C14", "JSON parsing accepts exactly JSON and never crashes",
     "Any byte sequence parsed as JSON configuration returns without crashing or hanging: without errors exactly when it is one valid JSON value that is an object or an array, and otherwise with at least one error located inside the source. Strings, numbers, keywords and nesting read from accepted input have exactly the values JSON defines, and reported source ranges lie on the corresponding text.",
     ["inputs"], "all byte strings and token strings over a JSON alphabet up to a length, all escapes, all number shapes, and every one-step edit of well-formed documents",
     "Tests parse a few dozen documents; agreement with the JSON grammar is over all strings and recovery paths need particular malformed ones.",
     ["hcl/json/scanner.go", "hcl/json/parser.go", "hcl/json/peeker.go", "hcl/json/public.go"],
     [("scan", "hcl/json/scanner.go"), ("parseValue and recovery", "hcl/json/parser.go")],
     observe=["diagnostics", "decoded values"])

prop("C15", "A configuration means the same in JSON and in native syntax",
     "A configuration written in native syntax and its JSON counterpart, in each of the alternative JSON forms for labelled and repeated blocks, give the same attributes, blocks, labels, order and attribute values for the same schema, and agree on whether decoding fails. Documented exceptions apart, a consumer cannot tell which syntax was used.",
     ["inputs", "configurations"], "all abstract bodies up to a size, each printed in native syntax and in every JSON form, decoded with all schemas of an alphabet and two-step partial schemas",
     "The two syntaxes are tested separately with different fixtures.",
     ["hcl/json/structure.go", "hcl/json/spec.md", HS+"structure.go"],
     [("json body content and unpackBlock", "hcl/json/structure.go")],
     observe=["BodyContent", "attribute values", "diagnostics"])

prop("C16", "JSON values evaluate as the JSON syntax specification says",
     "Evaluating a JSON attribute gives numbers, booleans, null, arrays and objects their JSON values, and strings as templates when an evaluation context is given and as literal text otherwise, with object property names treated likewise. Duplicate property names and names that are not strings are reported as errors, and errors inside embedded templates are located inside the string.",
     ["inputs"], "all JSON values up to a depth over an alphabet including template syntax in strings and names, with and without a context",
     "Tests evaluate a few values; template text embedded in nested JSON with escapes is combinatorial.",
     ["hcl/json/structure.go", "hcl/json/ast.go", "hcl/json/spec.md"],
     [("expression.Value", "hcl/json/structure.go")],
     observe=["value and diagnostics"])

prop("C17", "Reading a file for rewriting preserves it exactly",
     "Any source that parses without errors, when loaded for rewriting and written out unchanged, keeps every token and comment in order, differing from the input at most in whitespace between tokens, and loading it never crashes. The attributes, blocks, labels and expression variables it exposes are those of the source.",
     ["inputs"], "all well-formed sources assembled from an alphabet of items, expressions, comments and layouts up to a size",
     "Tests reload a few dozen fragments; the loader re-associates tokens to tree nodes by source range, and any expression form with an unusual range breaks it.",
     ["hclwrite/parser.go", "hclwrite/ast.go", "hclwrite/ast_body.go", "hclwrite/ast_expression.go"],
     [("partitioning tokens by range", "hclwrite/parser.go"), ("BuildTokens", "hclwrite/node.go")],
     observe=["File.Bytes, File.BuildTokens, Body.Attributes, Body.Blocks, Expression.Variables"])

prop("C18", "Formatting changes only whitespace and is idempotent",
     "Formatting any bytes returns without crashing and changes nothing but spaces and tabs. In a configuration that parses without errors the sequence of tokens, comments and newlines is unchanged, so that it still parses to the same structure and expressions, and formatting the result again changes nothing.",
     ["inputs"], "all token strings up to a length over an alphabet of every token class, comments and newlines, and all well-formed sources of the configuration alphabet",
     "Tests compare formatted output for fixed inputs; both laws quantify over all inputs, and spacing rules depend on pairs and triples of tokens.",
     ["hclwrite/format.go", "hclwrite/public.go"],
     [("formatIndent/formatSpaces/formatCells", "hclwrite/format.go")],
     observe=["Format output, relexed and reparsed"])

prop("C19", "Edits to a file have exactly their documented effect",
     "After any sequence of edits (setting attribute values or references, appending blocks and newlines, clearing bodies, renaming variable prefixes) the written file parses, contains exactly the attributes and blocks implied by the edits in order, and keeps all unrelated content and comments. Accessors on the edited tree agree with what is written out at every step.",
     ["histories"], "all edit sequences up to a depth on each of a set of starting documents, compared with an abstract document model",
     "Tests apply one edit to one document; interactions between successive edits form a state space.",
     ["hclwrite/ast_body.go", "hclwrite/ast_block.go", "hclwrite/ast_attribute.go", "hclwrite/ast_expression.go", "hclwrite/node.go"],
     [("SetAttributeValue/SetAttributeTraversal/AppendBlock/AppendNewBlock/AppendNewline/Clear", "hclwrite/ast_body.go"), ("RenameVariablePrefix", "hclwrite/ast_expression.go")],
     state=[("Body.items", "which child nodes are structural items", "hclwrite/ast_body.go")],
     observe=["File.Bytes, accessors"])

prop("C20", "Source generated for values and references reads back as the same",
     "The source tokens generated for any wholly known value of the types the language supports, with finite decimal numbers, parse without errors and evaluate to that value, up to the documented conversion of lists and sets to tuples and maps to objects. The tokens generated for a traversal parse back to an equivalent traversal, and quoting never lets the content of a string act as template syntax.",
     ["inputs"], "all strings up to a length over an alphabet of special characters, boundary numbers, and all values up to a depth over collections of them; all traversals up to a length",
     "Tests generate a handful of values; quoting errors need particular adjacent characters.",
     ["hclwrite/generate.go", "hclwrite/ast_expression.go"],
     [("escapeQuotedStringLit", "hclwrite/generate.go"), ("appendTokensForValue/appendTokensForTraversal", "hclwrite/generate.go"), ("NewExpressionAbsTraversal", "hclwrite/ast_expression.go")],
     observe=["tokens, re-parsed and evaluated"])

prop("C21", "Packed configuration is equivalent to its source after transport",
     "A native configuration packed, serialized to its transport form, and unpacked behaves like a direct parse of the source: same content for every schema, same attribute values, variables and source ranges. Malformed or truncated packed data is rejected or yields errors, and never crashes the reader.",
     ["inputs", "fault_sequences"], "all sources of the configuration and expression alphabets; every truncation and every one-byte corruption of packed forms, and all small packed documents over a field alphabet",
     "Tests pack a few files and check literal encodings; corruption is not tested.",
     ["hclpack/pack_native.go", "hclpack/structure.go", "hclpack/expression.go", "hclpack/positions_packed.go", "hclpack/json_marshal.go", "hclpack/vlq.go"],
     [("position packing", "hclpack/positions_packed.go"), ("MarshalJSON/UnmarshalJSON", "hclpack/json_marshal.go"), ("expression re-parsing", "hclpack/expression.go")],
     observe=["unpacked body content, expression values, ranges"])

prop("C22", "Specification-driven decoding returns what the specification describes",
     "Decoding a body with a decoding specification gives, for every combination of specification kinds, the value the specification documents: attribute values converted to the declared type, nested blocks gathered into the declared structure in source order with their labels, defaults applied only to null results, and literals and transforms as given. Missing required items, too few or too many blocks, duplicate keys and unsupported items are reported as errors, and there are no errors otherwise. A block in excess or with a key seen before is the one the error points at.",
     ["inputs", "configurations"], "all specifications up to a depth over every specification kind, each decoded from all small bodies relevant to it",
     "Tests pair one body with one specification; specification kinds nest arbitrarily.",
     ["hcldec/spec.go", "hcldec/decode.go", "hcldec/schema.go", "hcldec/public.go"],
     [("decode methods of each spec", "hcldec/spec.go"), ("ImpliedSchema", "hcldec/schema.go")],
     observe=["decoded value, diagnostics, remaining body"])

prop("C23", "Decoded values always conform to the specification's implied type",
     "Whatever the body contains, and even when there are errors or unknown values, decoding returns a value of the type that the specification implies beforehand, or unknown, and never crashes. The implied schema names exactly the items that decoding reads, and the source range reported for a specification that reads the body is that of the attribute value or label it reads, or lies inside the block or body that it reads from.",
     ["inputs", "configurations"], "all specifications up to a depth, each applied to all small bodies including ill-typed, missing, extra and unknown content",
     "Tests check the result only for bodies that mostly fit their specification.",
     ["hcldec/spec.go", "hcldec/public.go", "hcldec/decode.go"],
     [("impliedType vs decode in each spec", "hcldec/spec.go")],
     observe=["decoded value type", "ImpliedType", "ImpliedSchema", "SourceRange"])

prop("C24", "Decoding into Go values sets exactly the tagged fields",
     "Decoding a body into a Go structure sets each tagged attribute, label, block, pointer, slice and remain field to the corresponding content, leaves absent optional attributes and untagged fields as they were, and reports missing required items, duplicate blocks, wrong labels and unconvertible values as errors. Decoding into a map sets an entry for each attribute, and decoding never crashes on any body for a well-formed type.",
     ["inputs", "configurations"], "a set of structure types covering every tag kind and nesting, each decoded from all small bodies over its names plus foreign ones",
     "Tests decode a few bodies per structure; absent/duplicate/ill-typed combinations are not sampled.",
     ["gohcl/decode.go", "gohcl/schema.go"],
     [("decodeBodyToStruct", "gohcl/decode.go"), ("ImpliedBodySchema", "gohcl/schema.go")],
     observe=["decoded Go value", "diagnostics"])

prop("C25", "Go values encoded to source decode back to the same values",
     "Encoding any Go structure with supported field types into a configuration body produces source that parses and decodes into an equal structure, with each attribute, block and label written once, in field order. Encoding into a body that already has content replaces that content, nil pointers and fields of undecoded content are left out, and encoding a pointer is the same as encoding what it points to.",
     ["inputs"], "a set of structure types times all small values of their fields, including special strings, zero values, nil pointers and empty slices",
     "Tests encode one example; the round trip quantifies over values.",
     ["gohcl/encode.go", "gohcl/decode.go", "hclwrite/generate.go"],
     [("EncodeIntoBody/EncodeAsBlock", "gohcl/encode.go")],
     observe=["generated source, decoded Go value"])

prop("C26", "Dynamic blocks expand exactly as if written out by hand",
     "Expanding dynamic blocks yields, for each element of the collection in order, one block with the given labels and content in which the iterator refers to that element's key and value, placed among static blocks as written, at any nesting depth and under any iterator naming. An invalid or null collection is an error, an unknown one yields a single block whose attributes are all unknown, and the variables reported for expansion are exactly those it needs.",
     ["inputs", "programs"], "all bodies with up to two nested dynamic blocks over an alphabet of collections, iterator names, labels and content, decoded in one or more steps and compared with the hand-expanded body",
     "Tests expand one body; nesting, shadowed iterators and partial decoding combine.",
     ["ext/dynblock/expand_body.go", "ext/dynblock/expand_spec.go", "ext/dynblock/iteration.go", "ext/dynblock/expr_wrap.go", "ext/dynblock/variables.go", "ext/dynblock/unknown_body.go"],
     [("expandBlocks", "ext/dynblock/expand_body.go"), ("decodeSpec/newBlock", "ext/dynblock/expand_spec.go"), ("iteration contexts", "ext/dynblock/iteration.go"), ("WalkExpandVariables", "ext/dynblock/variables.go")],
     observe=["BodyContent, attribute values, diagnostics, reported variables"])

prop("C27", "Type expressions denote exactly the written types and print back",
     "Each well-formed type expression evaluates to the type it denotes and every other expression is rejected with an error, in native and JSON syntax alike. The textual form produced for any such type reads back as the same type.",
     ["inputs"], "all types up to a depth, all type expressions up to a size including ill-formed keyword, arity and nesting combinations",
     "Tests list a few dozen expressions; the round trip and rejection quantify over all.",
     ["ext/typeexpr/get_type.go", "ext/typeexpr/public.go"],
     [("getType", "ext/typeexpr/get_type.go"), ("TypeString", "ext/typeexpr/public.go")],
     observe=["Type, TypeConstraint, TypeString results"])

prop("C28", "User-defined functions bind parameters and see only their scope",
     "Calling a function declared in configuration evaluates its result expression with exactly its parameters, plus the provided base context, bound to the call's arguments, the variadic parameter receiving the remaining ones, and gives the same result as substituting them. Null arguments may instead be rejected and unknown ones give an unknown result. Malformed or badly-parameterised declarations are reported as errors, and the declarations are removed from the remaining body.",
     ["programs", "inputs"], "all declarations over an alphabet of parameter lists and result expressions, all argument lists up to a length, and all malformed variants",
     "Tests call a handful of functions.",
     ["ext/userfunc/decode.go", "ext/userfunc/public.go"],
     [("decodeUserFunctions", "ext/userfunc/decode.go")],
     observe=["function results, diagnostics, remaining body"])

prop("C29", "Body transforms and includes apply everywhere and hide no errors",
     "A deep transform is applied once to the body and to every nested block body however it is extracted, including through remaining bodies. Including another body yields the content of the includer followed by the included bodies in order, file paths being relative to the including file and nil bodies ignored; every error from an include block, the resolver or the transform makes every extraction fail, and every warning is reported with the content.",
     ["configurations", "histories"], "all small block trees with include blocks of every validity, all resolvers of an alphabet, and all extraction sequences up to a depth",
     "Tests resolve two includes on one body and transform one tree.",
     ["ext/transform/transform.go", "ext/transform/error.go", "ext/include/transformer.go", "ext/include/file_resolver.go", "ext/include/map_resolver.go"],
     [("deepWrapper", "ext/transform/transform.go"), ("diagBody", "ext/transform/error.go"), ("include transformer", "ext/include/transformer.go")],
     observe=["BodyContent, diagnostics"])

prop("C30", "The file parser registers each file once and reports it faithfully",
     "A parser returns the already-parsed file whenever the same name is requested again, in either syntax and by any method, and otherwise parses the given source. Its registries of files and sources contain exactly the files parsed or added so far, with their exact bytes, and a file that cannot be read is reported as an error and leaves the registry unchanged.",
     ["histories", "fault_sequences"], "all sequences of parse, parse-file and add operations up to a depth over a small set of names and contents, including unreadable files",
     "Tests parse single files once.",
     ["hclparse/parser.go"], [("filename-keyed cache", "hclparse/parser.go")],
     state=[("files", "map from name to parsed file", "hclparse/parser.go")],
     observe=["returned file, diagnostics, Files, Sources"])

prop("C31", "Source range arithmetic is consistent",
     "Containment, overlap, joining, covering, partitioning and slicing of source ranges agree with treating a range as the set of byte offsets from its start up to but not including its end. Slicing never reads outside the buffer or crashes for any range.",
     ["inputs"], "all pairs of ranges over a small span of offsets and two files, and all buffers up to a size",
     "Tests list a few pairs.",
     ["hcl/pos.go"], [("Overlaps/Overlap/PartitionAround/RangeOver/RangeBetween/SliceBytes", "hcl/pos.go")],
     observe=["results of each operation"])

prop("C32", "Range scanning reports each piece of a buffer at its true position",
     "Scanning a buffer with a splitting function visits exactly the pieces that function yields, in order, each with its exact bytes and with a range whose byte, line and column positions are those of the piece in the buffer (columns counted in grapheme clusters), offset by the given start position. Errors from the splitting function end the scan and are reported.",
     ["inputs"], "all buffers up to a length over an alphabet with newlines, CRLF, multi-byte characters and combining marks, for several splitting functions and start positions",
     "Tests scan a few strings with two splitters.",
     ["hcl/pos_scanner.go"], [("RangeScanner.Scan", "hcl/pos_scanner.go")],
     observe=["Range, Bytes, Err"])

prop("C33", "Looking up what is at a source position is consistent with the ranges",
     "For every position in a file, the block, attribute, expression and context description reported for that position are those whose source ranges contain it, innermost, outermost and full nesting lists agree with each other, and a position outside every item yields nothing. No position, inside or outside the file, crashes the lookup.",
     ["inputs"], "every byte offset of every source of the configuration alphabet, in native and JSON syntax",
     "Tests query a few positions in one file.",
     [HS+"structure_at_pos.go", "hcl/structure_at_pos.go", HS+"navigation.go", "hcl/json/navigation.go", "hcled/navigation.go"],
     [("blocksAtPos/attributeAtPos", HS+"structure_at_pos.go"), ("ContextString/ContextDefRange", HS+"navigation.go")],
     observe=["*AtPos results, context strings"])

prop("C34", "Static analysis of expressions agrees with their evaluation",
     "When an expression can be taken apart statically as a list, map, function call, absolute or relative traversal or keyword, evaluating the parts and combining them gives the same value as evaluating the whole; when it cannot, an error is reported and never a wrong decomposition. This holds for native and JSON expressions and through wrapper expressions.",
     ["programs"], "all expressions of the enumerated grammar and all JSON values of the JSON alphabet, through each wrapper",
     "Tests decompose a few expressions of each kind.",
     ["hcl/expr_list.go", "hcl/expr_map.go", "hcl/expr_call.go", "hcl/traversal_for_expr.go", "hcl/expr_unwrap.go", HS+"expression.go", "hcl/json/structure.go"],
     [("ExprList/ExprMap/ExprCall/AbsTraversalForExpr/RelTraversalForExpr/ExprAsKeyword", "hcl/*.go"), ("AsTraversal, ExprList, ExprMap, ExprCall methods", HS+"expression.go and hcl/json/structure.go")],
     observe=["decomposition results, evaluation"])

prop("C35", "Diagnostics can always be shown, and point at the right source",
     "Writing any diagnostic produced by the library to text, at any width and with or without its source files, never crashes and shows its severity, summary, file and line, with the marked text being exactly the source in its range. Error diagnostics from evaluation carry a subject range inside the file they are about, an error about an argument of a call or an item of a body points at that argument, name, label or brace, and appending, extending and testing sets of diagnostics for errors behaves as their list of severities implies.",
     ["inputs", "configurations"], "all diagnostics produced by the evaluation and decoding alphabets, plus all ranges over small buffers, at several widths, with and without sources",
     "Tests render a few diagnostics.",
     ["hcl/diagnostic.go", "hcl/diagnostic_text.go"],
     [("WriteDiagnostic", "hcl/diagnostic_text.go"), ("Diagnostics helpers", "hcl/diagnostic.go")],
     observe=["written text", "diagnostic fields"])

prop("C36", "Traversing values by API agrees with traversing them in expressions",
     "Looking up an index, attribute, path or traversal in a value through the programming interface gives the same value, and fails in the same cases, as evaluating the corresponding expression. Splitting and rejoining traversals preserves them, and applying a traversal in parts is the same as applying it whole.",
     ["inputs"], "all values of the value alphabet times all traversals and paths up to a length over an alphabet of keys",
     "Tests apply a few traversals.",
     ["hcl/ops.go", "hcl/traversal.go"],
     [("Index/GetAttr/ApplyPath", "hcl/ops.go"), ("Traversal.TraverseAbs/TraverseRel/SimpleSplit/TraversalJoin", "hcl/traversal.go")],
     observe=["values and diagnostics"])

prop("C37", "Decoding specifications survive serialization and are left unchanged",
     "A decoding specification that holds no expressions, functions or dynamic types can be sent through the standard binary encoding and read back. The copy implies the same type and the same schema, and decodes every body to the same value with the same problems, as the original. Decoding with a specification does not change it or the lists it was made from.",
     ["inputs"], "all specifications up to a nesting depth over every kind of specification, with all bodies up to a number of items over an item alphabet",
     "Tests do not serialize specifications.",
     ["hcldec/gob.go", "hcldec/spec.go"],
     [("gob registrations", "hcldec/gob.go"), ("blockHeaderSchemata of the specifications", "hcldec/spec.go")],
     observe=["implied types and schemas", "decoded values and diagnostics before and after sending"])

prop("C38", "The decoder command writes the JSON form of what its specification describes",
     "The hcldec command writes, for a specification file and configuration files, the JSON form of the value the specification describes, without null properties; when the specification file, the variables or the configuration has errors it reports them, writes no result and exits with a non-zero status. Variables given on the command line override those predefined in the specification file and later ones override earlier ones, several configuration files are merged, and files named .json are read as JSON. On request it lists instead the references in the configuration with their positions and with their values where the variables give them.",
     ["inputs"], "all specification files up to a nesting depth over the documented kinds of specification and their arguments, with all configurations up to a number of items and several ways to pass them",
     "No test runs the command except the fixed examples of the specification suite.",
     ["cmd/hcldec/main.go", "cmd/hcldec/spec.go", "cmd/hcldec/type_expr.go", "cmd/hcldec/vars.go", "cmd/hcldec/diags_json.go"],
     [("reading of specification files", "cmd/hcldec/spec.go"), ("realmain/showVarRefsJSON/stripJSONNullProperties", "cmd/hcldec/main.go"), ("parseVarsArg", "cmd/hcldec/vars.go"), ("evalTypeExpr", "cmd/hcldec/type_expr.go")],
     observe=["exit status, standard output and standard error of the command"])

prop("C39", "The formatter command formats its files and leaves erroneous ones alone",
     "The hclfmt command writes the formatted text of each of its files in order to standard output, or with the overwrite flag into the file itself and nowhere else. With the check flag it reports files that do not parse, neither writes nor changes them, and exits with a non-zero status; with the flag that requires no change it does so if any text changed.",
     ["inputs"], "all sequences of files up to a length over an alphabet of sources, with all combinations of flags, from files and standard input",
     "No test runs the command.",
     ["cmd/hclfmt/main.go"],
     [("realmain/processFiles/processFile", "cmd/hclfmt/main.go")],
     observe=["exit status, standard output and the files after the run"])

prop("C40", "The conformance runner passes exactly the decoders that meet the expectations",
     "The conformance test runner succeeds for a directory of tests exactly if every visible test file in it is valid and the decoder's value, type, problems and references for each of its input files are those that the test file expects. Otherwise it reports a problem and exits with a non-zero status.",
     ["inputs"], "all test files over alphabets of expected types, results, problems and references, with all answers of a decoder over the same alphabets",
     "The specification suite only contains tests that pass.",
     ["cmd/hclspecsuite/runner.go", "cmd/hclspecsuite/test_file.go", "cmd/hclspecsuite/traversals.go", "cmd/hclspecsuite/diagnostics.go"],
     [("Runner.runTestInput", "cmd/hclspecsuite/runner.go"), ("LoadTestFile", "cmd/hclspecsuite/test_file.go"), ("traversalsAreEquivalent/checkTraversalsMatch", "cmd/hclspecsuite/traversals.go")],
     observe=["exit status and output of the runner"])

prop("C41", "Formatted source is laid out uniformly, whatever its spacing was",
     "Formatting a configuration that parses without errors gives a result that depends only on its tokens, comments and line breaks, not on the spaces and tabs between them. Lines are indented by two spaces for each enclosing block, and for each bracket left open while no line opens or closes several; the equals signs of attributes on consecutive lines, and the comments that end consecutive lines, are aligned one space after the longest; and no line ends in spaces. Within a line commas, dots, calls, parentheses and square brackets are set tight, while operators, equals signs and the braces of one-line objects and blocks are set off by one space.",
     ["inputs"], "all well-formed sources of the configuration alphabet and all short sequences of lines that open, close or separate, each with five other spacings",
     "Tests compare formatted output for about fifty fixed inputs; indentation and alignment depend on all neighbouring lines and the original spacing must not matter anywhere.",
     ["hclwrite/format.go", "hclwrite/public.go", "hclwrite/tokens.go"],
     [("formatIndent/formatSpaces/formatCells", "hclwrite/format.go"), ("linesForFormat", "hclwrite/format.go"), ("Tokens.Columns", "hclwrite/tokens.go")],
     observe=["Format output, relexed"])

prop("C42", "Walking a syntax tree visits every part once, inside the part it is in",
     "Walking or visiting the tree of a parsed native source calls back exactly once for every body, attribute, block and expression in it, after the part that contains it, and a walk leaves each part before it goes on to the next one beside it. The parts of a loop that see its variables are visited in a scope that names exactly these variables. The messages returned by the callbacks are returned by the walk, in the order of the calls.",
     ["inputs"], "all sources of up to a number of items, with all expressions nested up to a depth",
     "No test walks a tree; it is only used to find variables, which other parts of the tree do not take part in.",
     ["hcl/hclsyntax/walk.go", "hcl/hclsyntax/structure.go", "hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_ops.go", "hcl/hclsyntax/expression_template.go", "hcl/hclsyntax/variables.go"],
     [("Walk/VisitAll", "hcl/hclsyntax/walk.go"), ("children of bodies", "hcl/hclsyntax/structure.go"), ("children of expressions", "hcl/hclsyntax/expression.go"), ("ChildScope", "hcl/hclsyntax/variables.go")],
     observe=["calls of the visitor and the messages returned"])

prop("C43", "Stand-in expressions for tests behave like the parsed ones they stand for",
     "A stand-in for a variable, a reference or a list of expressions evaluates in every nesting of scopes to what the native expression it stands for evaluates to, and is in error when that is. It reports the same variables and is the same reference, keyword or list to static analysis, also when it is an attribute of a stand-in body.",
     ["inputs"], "all references up to a number of steps and lists of references up to a length, in all nestings of scopes up to a depth",
     "The tests use the stand-ins for fixed names in one scope and do not compare them with parsed expressions.",
     ["hcltest/mock.go"],
     [("MockExprVariable/MockExprTraversal/MockExprTraversalSrc/MockExprList/MockAttrs", "hcltest/mock.go")],
     observe=["values, variables and static forms of stand-ins"])

prop("C44", "Source ranges in a parsed tree are those of the text they name",
     "Parsing native syntax gives every expression the range of the text it was written with, however the tokens are spaced, with a start range inside it, and gives every reference step, function name, bracket, operator mark, template text, directive, attribute name, equals sign, block type, label and brace exactly its own range. Line, column and byte of each end agree.",
     ["programs"], "all expressions, templates and bodies of the alphabets up to a nesting depth, each in four ways to space its tokens",
     "Tests give ranges of a few nodes of hand-written sources, mostly on one line and with single spaces.",
     ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_ops.go", "hcl/hclsyntax/expression_template.go", "hcl/hclsyntax/structure.go"],
     [("parser/templateParser", "hcl/hclsyntax/parser.go"), ("RangeBetween", "hcl/pos.go"), ("Range/StartRange of expressions", "hcl/hclsyntax/expression.go")],
     observe=["ranges of the nodes of the tree and their marks"])

prop("C45", "Source ranges in a JSON configuration are those of the text they name",
     "Reading a JSON file as a configuration gives every attribute, attribute name, value, block type, label, list element, object key and missing item a source range that is exactly the text it was written with, or the bracket it names, however the file is spaced. References, calls and template parts inside JSON strings have the ranges of their own text within the string, and errors point at the item they are about.",
     ["inputs", "configurations"], "all small JSON bodies of the alphabet of values, blocks and labels, in several spacings, read with several schemas",
     "Tests compare a few ranges of files written on one line, and none inside strings.",
     ["hcl/json/structure.go", "hcl/json/parser.go", "hcl/json/scanner.go", "hcl/json/ast.go", "hcl/json/navigation.go"],
     [("body.Content", "hcl/json/structure.go"), ("expression.Value and static analysis", "hcl/json/structure.go"), ("parseObject/parseArray", "hcl/json/parser.go"), ("scan", "hcl/json/scanner.go")],
     observe=["ranges of contents, expressions, traversals, calls and diagnostics"])

prop("C46", "Suggested names are ones that would be accepted",
     "Wherever an error message suggests a name in place of a mistyped one - an argument, block type, variable, attribute, function, keyword or operator - the suggested name is one that is accepted at that place, and is close to the name that was written. An argument that is already given, or a name not in the schema or scope, is never suggested; a name one edit away from an accepted one gets a suggestion, and a name far from every accepted one gets none.",
     ["inputs", "configurations"], "all names within a small edit distance of the accepted ones, and others, at every place that makes suggestions, in native, JSON and packed bodies",
     "Tests check the suggestion for one misspelling at a few of the places.",
     ["hcl/hclsyntax/didyoumean.go", "hcl/json/didyoumean.go", "hcl/didyoumean.go", "hcl/hclsyntax/structure.go", "hcl/hclsyntax/token.go", "hcl/traversal.go", "hclpack/structure.go", "hclpack/didyoumean.go"],
     [("nameSuggestion", "hcl/hclsyntax/didyoumean.go"), ("Body.Content", "hcl/hclsyntax/structure.go"), ("checkInvalidTokens", "hcl/hclsyntax/token.go")],
     observe=["text of diagnostics"])

prop("C47", "Configurations, templates and references are read exactly as the grammar says",
     "A sequence of tokens is accepted as a body, as a template or as a reference exactly if the grammar derives it, with newlines and comments counting where the grammar says so. What is accepted has the attributes, blocks, labels, texts, directives and steps that the derivation gives it, in their order, and what is rejected has an error.",
     ["inputs", "programs"], "all sequences of tokens from several small alphabets up to a length",
     "Tests hold a few dozen accepted sources and few rejected ones; each shortened or reordered source is another way to go wrong.",
     ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/parser_traversal.go", "hcl/hclsyntax/peeker.go", "hcl/hclsyntax/spec.md", "hclwrite/parser.go"],
     [("ParseBody/ParseBodyItem", "hcl/hclsyntax/parser.go"), ("parseTemplateParts", "hcl/hclsyntax/parser_template.go"), ("ParseTraversalAbs", "hcl/hclsyntax/parser_traversal.go"), ("newline stack", "hcl/hclsyntax/peeker.go")],
     observe=["acceptance", "parsed structure"])

prop("C48", "Every independent error is reported once, and nothing in consequence",
     "Evaluating an expression or decoding a body in which several unrelated parts are wrong reports every one of them, at its own place and not again, unless the language leaves that part unevaluated. A part whose value is only unknown, or is unknown because of an error already reported, adds no further error.",
     ["programs", "configurations"], "all expression forms with every assignment of right, wrong and unknown to their parts, nested two deep, and bodies with every choice of wrong items, in four kinds of bodies and decoded in several ways",
     "Tests have one error at a time.",
     ["hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_ops.go", "hcl/hclsyntax/expression_template.go", "hcl/json/structure.go", "hcldec/spec.go", "gohcl/decode.go", "ext/dynblock/expand_body.go"],
     [("Value of expressions", "hcl/hclsyntax/expression.go"), ("decode", "hcldec/spec.go"), ("decodeBodyToValue", "gohcl/decode.go")],
     observe=["set of diagnostics"])

prop("C49", "A fragment parsed at a start position is the same, only moved",
     "Scanning or parsing a body, expression, template or reference with a start position other than the beginning of a file gives the same tokens, tree, values and errors as without it, with every position moved by that start: bytes and lines by its offsets, columns only on the first line. A file parsed for writing has the same text whatever its start position.",
     ["inputs"], "all bodies, expressions, templates and references of bounded numbers of pieces or tokens, right and wrong, at three start positions",
     "Tests start at the beginning of a file, or check one position.",
     ["hcl/hclsyntax/public.go", "hcl/hclsyntax/token.go", "hcl/hclsyntax/scan_tokens.rl", "hcl/hclsyntax/parser_template.go", "hclwrite/parser.go"],
     [("ParseConfig, ParseExpression, ParseTemplate, ParseTraversalAbs, LexConfig", "hcl/hclsyntax/public.go"), ("tokenAccum", "hcl/hclsyntax/token.go"), ("parse, writerTokens", "hclwrite/parser.go")],
     observe=["tokens", "tree", "diagnostics", "written text"])

prop("C50", "Calls leave what they are given as it was",
     "Scanning, parsing, formatting, packing, evaluating, reading bodies with a schema, writing and merging change nothing in the source, context, schema, labels, references, tokens, structures or messages they are given, nor in the room behind a slice. Text that was formatted or parsed for writing, and files built from labels, references or structures, do not change when the caller later reuses what it gave.",
     ["inputs", "histories"], "all sources of bounded numbers of pieces inside a larger buffer, expressions in seven contexts, bodies of twenty-seven kinds read with schemas that have spare room, and twelve writing and merging calls with arguments of every bounded length and room",
     "Tests use each input once and don't look at it again.",
     ["hclwrite/public.go", "hclwrite/parser.go", "hclwrite/format.go", "hclwrite/ast_block.go", "hclwrite/generate.go", "hcl/merged.go", "hcl/traversal.go", "hcl/json/structure.go", "hcl/hclsyntax/structure.go", "hcl/hclsyntax/expression.go", "ext/dynblock/expand_body.go", "hclpack/structure.go"],
     [("Format, ParseConfig", "hclwrite/public.go"), ("PartialContent", "hcl/hclsyntax/structure.go"), ("expandSchema, extendSchema", "ext/dynblock/expand_body.go"), ("MergeBodies", "hcl/merged.go"), ("TraversalJoin", "hcl/traversal.go")],
     observe=["the arguments after the call", "results after the arguments are overwritten"])

prop("C51", "Failures to read and write are reported, and nothing is written after them",
     "Writing a file, its tokens or a set of diagnostics to a writer that fails returns an error, and what reached the writer is the beginning of the text that would have been written; for files and tokens the number of bytes returned is the number accepted. The decoder and formatter commands end with a message and a non-zero status whenever an input cannot be read or the output cannot be written, and with status zero if nothing failed.",
     ["inputs", "fault_sequences"],
     "for all documents and sets of diagnostics of the alphabet, all byte counts after which the writer fails, all ways of failing (short or refused write, once or for good), and all unreadable inputs and full or missing outputs of the commands",
     "tests write to memory, which never fails; an ignored error of the one write that does not fit is only seen with a writer that fails at that byte",
     ["hclwrite/tokens.go", "hclwrite/ast.go", "hcl/diagnostic_text.go", "cmd/hcldec/main.go", "cmd/hclfmt/main.go"],
     [("writing of tokens in pieces", "hclwrite/tokens.go WriteTo"), ("writing of diagnostics in pieces", "hcl/diagnostic_text.go WriteDiagnostic"), ("output of the commands", "cmd/hcldec/main.go realmain, cmd/hclfmt/main.go processFile")],
     observe=["bytes accepted by the writer, returned length and error", "exit status, messages and files of the commands"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

# technique and level note of each check, read by gen_manifest.py
notes["C01"] = ("exhaustive enumeration of token strings and edits on the real parser",
    "Every token string and every source edit within the stated bounds is parsed, decoded, analysed and evaluated by the real code; nothing is sampled. Sources beyond the bounds are not covered.")
notes["C02"] = ("exhaustive enumeration of byte strings on the real lexer with a position-counting oracle",
    "All byte strings over the lexical alphabet up to the bound, in all three lexing modes and several start positions.")
notes["C31"] = ("exhaustive enumeration of range pairs against a set-of-offsets model",
    "All pairs of ranges over the stated offsets; a range is modelled as a set of byte offsets.")
notes["C32"] = ("exhaustive enumeration of buffers and splitters against a reference scanner",
    "All buffers up to the bound with each splitting function and start position, compared with a direct position count.")
notes["C03"] = ("exhaustive enumeration of expression trees printed in several layouts, re-parsed by the real parser",
    "All expression trees over the node forms up to the depth bound; the tree the parser builds is compared with the tree that was printed.")
notes["C04"] = ("exhaustive enumeration of operator expressions against a reference evaluator",
    "All operators over all tuples of the value universe, nested up to the bound; each result, result type and error is compared with a small independent evaluator.")
notes["C05"] = ("exhaustive enumeration of collection expressions against a reference evaluator",
    "All indexes, attribute accesses, splats and for expressions over the collection universe; results compared with a small independent evaluator.")
notes["C06"] = ("exhaustive enumeration of templates and heredocs against a reference evaluator and text decoder",
    "All sequences of template parts, escape pieces and heredoc lines up to the bounds, in quoted, stand-alone and heredoc form.")
notes["C07"] = ("exhaustive enumeration of scope chains, for scopes and calls against a reference evaluator",
    "All chains of contexts with every placement of definitions, all nested for scopes and all calls within the bounds; results and the recorded function calls are compared with a small independent evaluator.")
notes["C08"] = ("exhaustive enumeration of expressions times unknown inputs, compared with all concrete inputs they stand for",
    "Relational check on the real evaluator: no outcome with unknowns may contradict an outcome with any concrete input of the universe that the unknown stands for.")
notes["C09"] = ("exhaustive enumeration of expressions against a free-variable model",
    "All expressions within the bounds; the reported names equal those of a small scope analysis, and evaluation with only those names defined gives the same result.")
notes["C10"] = ("exhaustive schedule exploration of shared syntax trees under a controlled scheduler, plus repeated runs and a race-detector run",
    "All interleavings at the scheduling points (function calls and reads of the splat element) of 2 threads (thorough 3), up to a bound of 40000 schedules per case; cases beyond it are counted and make the run non-exhaustive. The race-detector run is one execution and is not counted as exploration.")
notes["C11"] = ("exhaustive enumeration of native bodies times extraction sequences against a reference body model",
    "All bodies of the item alphabet up to the bound, in several layouts, with all stated sequences of full, partial and attribute extraction; items, labels, ranges and the set of errors equal those of the model.")
notes["C12"] = ("exhaustive enumeration of bodies of every kind times extraction sequences against one reference body model",
    "The same items as 27 kinds of bodies (JSON forms, merged, packed, expanded, transformed, mock and combinations); JSON is not asked what it cannot tell without a schema.")
notes["C13"] = ("exhaustive enumeration of lists of bodies times ways of merging times extraction sequences against a reference model",
    "All lists of bodies up to the bound; every bracketing and insertion of empty bodies has to behave as the concatenation.")
notes["C14"] = ("exhaustive enumeration of inputs against a reference JSON reader",
    "All token strings, byte strings, escapes, number shapes and one-step edits of documents within the bounds; acceptance, values and ranges are compared with a small independent reader of JSON.")
notes["C15"] = ("exhaustive enumeration of abstract configurations, each written in both syntaxes and every JSON form, compared with each other",
    "Relational check: the native and the JSON implementation have to agree on contents, values and failure for the same configuration; documented exceptions (attributes and blocks being the same in JSON, wrong label counts, duplicate object keys) are left out.")
notes["C16"] = ("exhaustive enumeration of JSON values against a reference evaluator of the JSON syntax",
    "All values within the bounds with and without a context; value, presence of errors and the place of every error are compared with a small model, and strings with the stand-alone template they contain.")
notes["C17"] = ("exhaustive enumeration of sources, each loaded and written, compared with the token stream and tree of the source",
    "All sources of the item, expression, comment-gap and token-string alphabets within the bounds; tokens, items, expressions and variables of the loaded tree equal those of the source, before and after writing.")
notes["C18"] = ("exhaustive enumeration of sources, each formatted once and twice, compared with the token stream and tree of the source",
    "The sources of C17 including malformed ones; for malformed ones only crashes and changes other than spaces and tabs are judged.")
notes["C19"] = ("exhaustive enumeration of edit sequences of a writable file against an abstract document model",
    "All sequences of edits within the bound on each starting document; after every edit the written file has the items, tokens and order of the model, and everything not edited keeps its tokens.")
notes["C20"] = ("exhaustive enumeration of values, strings and references, each written as source and read back",
    "All strings, values and traversals within the bounds; the generated source is parsed and evaluated with the language's own parser. Infinite numbers and numbers of binary floating precision are left out.")
notes["C21"] = ("exhaustive enumeration of sources, each packed, serialized, unpacked and compared with a direct parse, and of corrupted packed forms",
    "All sources of the writer alphabets and distances, all bodies put together from several files, all one-byte corruptions and truncations and a field alphabet of packed documents; for corrupted ones only crashes are judged. How malformed JSON literals are rejected is left to the cty library.")
notes["C22"] = ("exhaustive enumeration of specifications times bodies against a reference decoder",
    "All specifications of the alphabet with all small bodies relevant to each, written natively and in JSON, decoded completely and in part, with and without a context; value, presence of errors and the remaining body equal those of a small independent decoder. Block maps of nested types not completely known are documented as not allowed and left out; elements whose common type depends on unknown values are only judged for crashes.")
notes["C23"] = ("exhaustive enumeration of specifications times bodies, comparing results with the implied type and a reference model of schema and ranges",
    "All specifications of C22 with all small bodies, fitting or not, also with blocks generated from unknown or failing values; an unknown or null value of dynamic type conforms to any type. Exact source ranges are judged for native bodies, containment in the file for JSON ones.")
notes["C24"] = ("exhaustive enumeration of structure types times bodies against a reference decoder",
    "Structure types built by reflection from an alphabet of fields of every tag kind, with all small bodies relevant to each, natively and in JSON, into zero and other targets; every field not involved in an error and the presence of errors equal those of a small independent decoder. Raw blocks and bodies as block fields are not among the structure types.")
notes["C25"] = ("exhaustive enumeration of structure types times values, each encoded, parsed and decoded back",
    "All structure types of the alphabet with all values of their fields (pairs exhaustively, larger structures with every value of each field); the written items, their order and labels and the decoded value equal the original ones.")
notes["C26"] = ("exhaustive enumeration of bodies with dynamic blocks against a reference expansion",
    "All sequences of plain and dynamic blocks of the alphabet within the bounds, nested ones included, written natively and in JSON and read in every way; content, order, labels, attribute values, unknown markers and the variables reported equal those of a small model.")
notes["C27"] = ("exhaustive enumeration of type expressions and types against an independent reader, and of the written form of each type read back",
    "All expressions and types within the bounds, natively, in JSON and inside a dynamic block. Repeated attribute names, keys in parentheses and the inexpressible object type whose only attribute is named for are left out.")
notes["C28"] = ("exhaustive enumeration of function declarations times calls, compared with evaluating the substituted result expression",
    "All declarations and argument lists within the bounds, alone and with others in one body, natively and in JSON; values and failures equal those of the result expression evaluated in a flat scope of the parameters and the base context.")
notes["C29"] = ("exhaustive enumeration of block trees, include blocks and ways to extract them against a model of the transformed body",
    "All trees and sequences of include blocks within the bounds, read in pairs of six ways, plus file includes in a scratch directory; content, order, messages and the number of applications of the transform equal those of the model. The content of a body in error is not judged.")
notes["C30"] = ("exhaustive enumeration of operation histories of a parser against a registry model, on real files in a scratch directory",
    "All histories within the bound; after each operation the returned file, its messages and the whole registry equal those of the model, whose files are parsed directly.")
notes["C33"] = ("exhaustive enumeration of sources whose item positions are known by construction, queried at every offset",
    "Every offset inside and just outside of all sources within the bounds, natively and in JSON; for malformed sources only crashes and agreement of the nesting lists are judged.")
notes["C34"] = ("exhaustive enumeration of expressions taken apart statically, with the parts evaluated and recombined and compared with the whole",
    "All expressions and JSON values within the bounds, plain and through wrappers; which kinds of expression can be taken apart is known by construction.")
notes["C35"] = ("exhaustive enumeration of ranges over small sources and of the messages of erroneous programs, with the written text read back",
    "All ranges and contexts within the bounds at several widths and all messages from the parsing, evaluation and decoding alphabets; shown lines and marked text equal the source, and errors about the arguments of calls and the items of native bodies are at their places. The marking of an empty range and the description of values of compound types are not judged.")
notes["C36"] = ("exhaustive enumeration of values and access paths, compared across the programming interfaces and with a small model",
    "All values of the alphabet with all sequences of steps within the bound, applied by path, single operations, traversals whole and in parts, and by expression.")
notes["C37"] = ("exhaustive enumeration of specifications sent through the binary encoding, each compared with its original",
    "All specifications and bodies within the bounds; types, schemas, values and messages before and after sending are equal. Specifications with expressions, functions or types that the go-cty library cannot encode are left out.")
notes["C38"] = ("exhaustive enumeration of specification files, configurations and command lines, run as processes and compared with the reference decoder",
    "All cases within the bounds, quick runs each configuration in one or two of eight ways in turn; status, output and error reports equal those of the model. Missing arguments that the command lets default are not judged.")
notes["C39"] = ("exhaustive enumeration of file sequences and flags, run as processes in a scratch directory",
    "All runs within the bounds; status, output and every file afterwards equal those of a small model over the formatting function.")
notes["C40"] = ("exhaustive enumeration of test files and decoder answers, run as processes with a scripted decoder",
    "All cases within the bounds; the runner's verdict equals that of a small model. A decoder that fails without an error and one reference at two places are not judged.")
notes["C41"] = ("exhaustive enumeration of well-formed sources and of their spacings, with the layout of the formatted text measured",
    "All sources of the alphabet within the bounds, each in its own and five other spacings; the results are equal and their indentation, alignment and spacing follow the rules of the statement. Spaces after a logical negation, around template markers and at the very end of the source are not judged.")
notes["C42"] = ("exhaustive enumeration of well-formed sources, whose syntax trees are walked and compared with what their fields lead to",
    "All sources of the alphabet within the bounds; every part is visited exactly once inside its container and all messages come back. The order of the parts of one part is not judged.")
notes["C43"] = ("exhaustive enumeration of references, lists of them and scopes, the stand-ins being compared with the native expressions",
    "All references and lists of the alphabet within the bounds, in all nestings of the scopes; values, errors, variables and static forms agree. Positions are not judged.")
notes["C44"] = ("exhaustive enumeration of syntax trees written out in several spacings, the places of all tokens being recorded while writing, compared with the ranges in the parsed tree",
                "complete for all trees up to the bounds; parentheses around a part and what a postfix operator is applied to may belong to a range or not")
notes["C45"] = ("exhaustive enumeration of JSON bodies written out in several spacings, the places of all parts being recorded while writing",
    "All bodies up to the bounds with all schemas of the alphabet; columns after tabs and carriage returns are not judged.")
notes["C46"] = ("exhaustive enumeration of misspelt names at every place that suggests names, each suggestion being tried out",
    "All names of the alphabet within the bounds; a suggestion is recognised as a quoted name after the words that introduce one. Whether a close name must be suggested is not judged beyond single-letter changes.")
notes["C47"] = ("exhaustive enumeration of token sequences, parsed by the real parser and by a small recursive-descent parser written from the specification",
    "All sequences over each alphabet up to its length; sequences whose standing the specification leaves open are counted as unjudged.")
notes["C48"] = ("exhaustive enumeration of expression forms and bodies with every choice of wrong and unknown parts, against a model of which parts are evaluated",
    "All forms of the alphabet nested two deep and all bodies of at most the bound; texts of messages are not judged, only their number and places.")
notes["C49"] = ("exhaustive enumeration of sources of pieces and tokens, parsed at the start of a file and at other positions, comparing everything reachable from the results",
    "All sources of at most the bound over the alphabets, at three start positions; the trees are compared through their exported fields.")
notes["C50"] = ("exhaustive enumeration of sources, contexts, schemas and arguments with spare room, compared before and after each call and after being overwritten",
    "All inputs of at most the bound over the alphabets; syntax trees and JSON files may refer to their source, which is not judged.")
notes["C51"] = ("fault enumeration: every document and set of diagnostics is written to a writer that fails after every possible number of bytes, in four ways of failing, and the commands are run with every unreadable input and unwritable output of the alphabet",
                "exhaustive over all fault positions of the documents of the alphabet; the commands' output fails from its first byte on or not at all")

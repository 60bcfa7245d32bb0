TX = 'crates/abe/src/abtxt.rs'
AS = 'crates/abe/src/ast.rs'
TAB = 'static analysis: abstract interpretation of MIR over byte-set partitions; inductive step relation of cursor loops'

prop('C01', 'Every byte string survives being printed as text and parsed back',
     'For every byte string, the text printed for it (the ab-text encoding, and the printing of a bytes expression) is parsed back to exactly that byte string by the text decoder and, as a single '
     'bytes expression, by the strict and by the lenient expression parser. The text of a string is the concatenation of the texts of its bytes, in order; nothing is dropped, added or merged, for any length.',
     ['inputs'], 'all byte strings of any length',
     'The tests print one string. A wrong escape for one of 256 bytes, or an error that needs a particular neighbour or length, is not sampled.',
     [TX, AS], [('as_abtxt', TX), ('parse_abtxt_upto_max', TX), ('Display for Expr', AS), ('parse_abe_strict_b', AS)], TAB, 'proof',
     'Byte-level tables are complete; the step of each loop is checked for inputs of any length.')
prop('C02', 'Printed text is printable ASCII with every reserved character escaped',
     'The printed text of any byte string contains only printable ASCII characters, and a colon, slash, bracket or backslash appears in it only as part of an escape, so data can never be read as structure. '
     'A byte string is returned unescaped only when each of its bytes prints as itself; printing never panics.',
     ['inputs'], 'all byte strings of any length',
     'An unescaped reserved byte only shows when that byte occurs in data and the text is reparsed in a larger expression.',
     [TX, AS], [('as_abtxt', TX), ('ESCAPE_LOOKUP', TX), ('escaped_byte', TX), ('Display for Expr', AS)], TAB, 'proof', 'Complete over the 256 bytes and inductive over the length.')
prop('C03', 'The text decoder accepts exactly the grammar and never exceeds its limit',
     'The ab-text decoder accepts a text exactly when each of its units is a printable plain character, a documented one-character escape or \\x with two hex digits, and returns the bytes these denote. Reserved characters, control '
     'and non-ASCII bytes, unknown and incomplete escapes are errors. A result longer than the given maximum, or than the destination, is an error; bytes of the destination beyond the result are untouched; no input panics.',
     ['inputs'], 'all texts, limits and destination sizes',
     'The tests decode no malformed text; the limit and truncated escapes at the end of input are never exercised.',
     [TX], [('parse_abtxt_upto_max', TX), ('parse_abtxt_into', TX), ('next_byte', TX), ('hex_byte', TX)], TAB, 'proof', 'io::Cursor and Vec semantics are modelled.')
prop('C04', 'Expressions are accepted only when brackets balance and keep their structure',
     'An expression text is accepted by the strict parser exactly when every unit is valid and brackets are balanced, and the tree returned is its documented reading: maximal byte runs, colon and slash separators in place, and one '
     'nested list per bracket pair. The lenient parser differs only in taking otherwise invalid bytes literally. The component splitter accepts the same texts and yields the top-level pieces with their separators. Printing a parsed expression gives a text with the same reading.',
     ['inputs'], 'all expression texts',
     'Structure errors need particular nestings or adjacent separators; the tests parse a few fixed expressions.',
     [AS], [('parse_abe_strict_b', AS), ('parse_abe_with_unencoded_b', AS), ('tokenize_abe', AS), ('print_abe', AS)], TAB, 'proof',
     'Trees are compared for all texts up to five units; depth counting and step relation for any length.')

EV = 'crates/abe/src/eval.rs'
DSP = 'static analysis: abstract interpretation of MIR with uninterpreted scopes; every path compared with the documented rule'
prop('C05', 'A built-in function runs only under its id, position and argument count',
     'A scope built from a function table answers a call only through the first entry whose id equals the requested one: it runs that function, with the same arguments, only if the entry allows this position '
     '(first in the chain or later) and the number of arguments lies within the declared range; otherwise the call is an error and the function is not run. Without such an entry there is no answer. Macros are found the same way by id; an '
     'encoder is used only if the entry with that id declares one.',
     ['inputs'], 'all function tables, ids, positions and argument counts',
     'Functions index their arguments without checks, relying on the declared range. An off-by-one in the guard needs a call with exactly one argument too many or too few.',
     [EV], [('Scope for EScope', EV), ('ScopeFuncInfo', EV), ('fnc!', EV)], DSP, 'proof',
     'Tables of up to three entries with symbolic ids, ranges and arguments; longer tables by the same loop.')
prop('C06', 'Combined scopes answer with the first answer, and errors are answers',
     'In a combination of scopes (pairs, triples, optional, shared, borrowed, failed scopes) a function, macro or encode request goes to the parts in order with unchanged arguments, and the answer is that of the first part that has a value or an '
     'error; only "no value" moves on to the next. An absent scope has no value; a failed scope answers every request with an error. Conversions between results, options and scope answers never turn an error into a value or an absence.',
     ['inputs', 'histories'], 'all combinations of scopes and all answers of their parts',
     'The tests use one scope; shadowing and a swallowed error only show when two parts know the same name or one fails.',
     [EV], [('Scope for (A, B)', EV), ('Scope for Option', EV), ('Scope for anyhow::Result', EV), ('ApplyResult', EV)], DSP, 'proof', 'Complete over the answers of up to three parts.')
prop('C10', 'Evaluation follows the documented pipeline and keeps literal structure',
     'Evaluating an expression copies top-level bytes and separators unchanged and replaces each bracket by exactly one byte string. Inside a bracket, the parts separated by a slash run left to right: the first is called with its arguments as an initial call, '
     'each later one gets the result of the previous as first input, a leading colon makes its parts plain bytes, and [/name...] hands its unevaluated rest to the macro of that name. An unknown name, a failing call, a bracket as a name or more '
     'than 16 parts is an error; nothing is dropped. A part that fails stops the evaluation.',
     ['inputs', 'histories'], 'all expressions and all scopes',
     'The pipeline has many shapes (carry, initial call, macros, nesting) and the tests evaluate about a dozen expressions of the built-in scopes.',
     [EV], [('eval', EV), ('match_expr', EV), ('split_fslash', EV)], DSP, 'proof', 'Several hundred expression shapes with symbolic bytes and uninterpreted scopes; longer ones by the same loops.')
prop('C45', 'An encoder list is tried in order, and its text evaluates back to the bytes',
     'Encoding with an option list tries the named encoders in the order given, with their own options and the same bytes, and returns the text of the first that has one. An encoder error stops it unless errors are ignored, an empty entry yields the plain '
     'ab-text, and if nothing encodes the bytes the result is an error, never a wrong or empty text. In debug builds a text is returned only after it has been evaluated back to exactly the bytes.',
     ['inputs'], 'all option lists, scopes and byte strings',
     'The tests encode with one or two option strings; fall-through after an error and ill-formed options are not exercised.',
     [EV], [('encode_abe', EV), ('encode', EV)], DSP, 'proof', 'Option lists up to four elements (five in thorough runs) with symbolic names.')

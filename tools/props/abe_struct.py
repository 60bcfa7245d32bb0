EV = 'crates/abe/src/eval.rs'
CF = 'crates/abe/src/abconf.rs'
CV = 'crates/abe/src/convert.rs'
AS = 'crates/abe/src/ast.rs'
FN = 'static analysis: abstract interpretation of the MIR of every function of the type on all shapes with symbolic contents'

prop('C41', 'An evaluated list keeps its separators and bytes through every operation',
     'An ABList built by pushing separators and bytes one by one, from expressions, from bytes or by clist/flist has exactly these in order: a separator starts a new component and bytes extend the last one. An expression list with a nested list is rejected, naming it. '
     'concat (and the conversion to bytes) joins separators and bytes in order, losing nothing. items, item_refs and the conversion to expressions give the separators and non-empty bytes in order, and building from them gives the same list back. '
     'iter_bytes and into_iter_bytes give all components, with an empty one first if the list starts with a separator. into_exact_bytes and as_exact_bytes succeed exactly on a list without separators and otherwise give the list back. '
     'is_empty holds exactly for a list without separators and bytes. pop_front removes and returns exactly the first component, and nothing from an empty list.',
     ['inputs'], 'all lists: every separator pattern, empty and non-empty components',
     'Leading separators, empty components and empty lists each take a different path; the tests use a few well-filled lists.',
     [EV], [('ABList', EV), ('clist', EV), ('flist', EV), ('TryFrom<&[ABE]> for ABList', EV)], FN, 'proof',
     'Complete tables for lists of up to three components (thorough: four) with symbolic bytes.')

prop('C42', 'A configuration list finds the latest matching entry and judges its form',
     'A lookup in an ABConf yields the entries whose components (with an empty first one when the entry starts with a separator) begin with the given names, the latest added first. It yields an entry as an error when one of the separators inside the matched prefix is a slash, and as a match when all are colons. '
     'For a non-empty prefix has_optional_value judges the first match: exactly the prefix is no value, the prefix plus one more component after a colon is that value, anything else an error carrying that entry; no match is nothing. No lookup panics. '
     'push, extend and new keep all entries, adding at the end. Text is read as one entry per line, the first line being the latest, after an optional ":%abctxt" header line; any other ":%" header, a line that does not parse, or one with a nested list is an error.',
     ['inputs'], 'all lists of entries, all prefixes, all configuration texts',
     'Leading separators, empty components and prefixes longer than an entry are index edge cases no test touches.',
     [CF], [('ABConf', CF), ('get_checked', CF), ('has_optional_value', CF), ('get_inner', CF)], FN, 'proof',
     'Complete tables for entries of up to three components over two names and the empty one, for lists of up to three entries; one table with symbolic names.')

prop('C43', 'A typed expression is checked for its shape before it is used',
     'A TypedABE<T> made from an expression list, from text, from bytes or by deserialising exists only if the list passes the shape check of T; otherwise the caller gets an error. '
     'eval evaluates that expression and converts the result with the conversion of T, keeping evaluation errors as such and conversion errors as such. eval_default returns the default exactly when the result has no separators and no bytes. eval_vec evaluates each expression in order and stops at the first failure. '
     'A String expression must be exactly one element, its value a single component and valid UTF-8; bytes and ABList accept every list.',
     ['inputs'], 'all expressions, all types with a shape check, all evaluation results',
     'The tests build a few well-formed typed expressions; refusals and the default rule are unchecked.',
     [CV], [('TypedABE', CV), ('eval_default', CV), ('eval_vec', CV), ('ABEValidator', CV)], FN, 'proof',
     'The shape check and conversion of a type parameter are uninterpreted; the evaluator is covered by other properties.')

prop('C48', 'Expression matchers accept exactly their shape and replacement is complete',
     'Each matcher on expression lists (take, exact, take_first, is_empty, single, one_or, no_ctrs, strip_prefix, take_ctr_expr, take_expr_ctr2, multi_ctr_expr) and on one element (as_bytes, as_lst, as_expr, is_colon, is_fslash) accepts exactly the lists of its shape, returns the matched parts and the untouched rest in order, and otherwise gives an error without a panic. '
     'Conversions to Expr and ABE keep the contents. replace_abe replaces every non-overlapping occurrence of the pattern, from left to right, in the list and in all nested lists (inner ones first), does not look at what it inserted, leaves the rest as it was, always ends, and does nothing for an empty pattern.',
     ['inputs'], 'all expression lists, patterns and replacements',
     'Matchers decide which user input each command accepts; the tests match a handful of well-formed lists and replace one pattern.',
     [AS], [('take', AS), ('exact', AS), ('multi_ctr_expr', AS), ('replace_abe', AS), ('take_expr_ctr2', AS)], FN, 'proof',
     'Complete tables: every kind of element in every position up to three elements (thorough: four); nested lists to depth three for replace_abe.')

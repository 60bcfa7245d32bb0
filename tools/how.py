# id: (how it is decided, cost in seconds)
HOW = {
 'C01': ('Printer and both decoders as outcome tables over partitions of the 256 bytes for texts of known length, against the documented escape table; printed text of each byte pair decoded again; step relation of the printer and cursor loops for any length (phi of the output = old output plus the text of one byte).', 9),
 'C02': ('Same tables: every output byte class is printable ASCII, reserved ones only after a backslash; the unescaped-borrow path only on byte sets that print as themselves; inductive over the length.', 4),
 'C03': ('Decoder outcomes for all byte classes of all texts to length 4-5 (hex escapes with signs and non-hex digits as own classes) against the grammar; step relation of the cursor loop; the limit as a fact required on every accepting path, for any limit and for limits around the result length.', 6),
 'C04': ('Trees of all texts up to five units over the structural alphabet against an independent reader written from the documentation; depth counter must step by exactly +1/-1 in a type that cannot wrap, be tested before each close and at the end, for any length; printed trees re-read.', 23),
 'C05': ('EScope dispatch on tables of up to three entries with symbolic ids, ranges, arguments: every path that runs a function must carry the facts id equal, position allowed, count in range, earlier ids different.', 12),
 'C06': ('Every scope combinator with parts that answer nondeterministically (value / none / error): the recorded calls and the result compared with the first-answer rule; the ApplyResult conversions are complete tables.', 1),
 'C07': ('All list_funcs/list_macros tables are interpreted to get every function; each is run with every (quick: sampled) argument count and arguments of any bytes and length; no outcome may be a panic. Encoders likewise.', 5),
 'C08': ('Outcome tables over data lengths x widths x pad with symbolic bytes, against an oracle of the documented placement; result terms for lengths and widths of any size (length, fill byte, position of the data).', 21),
 'C09': ('Result terms on symbolic text and bytes: parse type, byte order, zero extension, carry chain bit by bit (sum and carry terms), saturation condition; boundary literals when a term is not recognised.', 3),
 'C10': ('Several hundred expression shapes with symbolic bytes and uninterpreted scopes: the sequence of scope calls and the result compared with an independent evaluator of the documented pipeline.', 9),
 'C11': ('Every conversion and printer of B64<[u8;N]> (N to 32/64) on symbolic bytes: terms must be the base64 engine of all bytes, accept conditions must be the decode and length facts.', 2),
 'C12': ('Every method of the eight integer types on symbolic bytes (value, byte order, ordering, saturation, text, lists).', 4),
 'C13': ('Every method of AB<N> on symbolic bytes for N 0..17, 32; padding placement; text read back by C01 terms.', 2),
 'C14': ('Must-fact on every accepting outcome of validate_signature: the verifier of the given key accepted this hash and this signature; sign_hash is the k256 signature of the hash.', 1),
 'C15': ('Information flow: the terms formatted, returned as errors or printed may not contain the secret or password except through verifying_key and the XOR with the argon2 output; branch conditions on the path included.', 2),
 'C16': ('The hasher as absorbed sequence: inductive loop summary (one update of exactly the segment per step, in order, none skipped) and lists of known length.', 1),
 'C17': ('Value flow: the result is the key constructor applied to the given generator (OsRng by default) and to nothing else.', 1),
 'C18': ('Must-facts on every accepting outcome of decrypt (public key of the result equals the salt); the key term is digest XOR argon2(password, salt, costs).', 2),
 'C19': ('decrypt and pubkey are run on the term encrypt returns, with argon2, base64 and decimal printing as injective terms; all outcomes must be exactly the key.', 1),
 'C20': ('Guard analysis on an arbitrary string (facts required on acceptance) and partially known strings: wrong order, missing, doubled, extra parameters, extra fields, wrong lengths.', 1),
 'C21': ('All paths of emit/_emit/next_deadline with each atomic read giving an arbitrary value (other threads), every effect recorded in order: exchange only from a value not greater, retry with the newer one, notify after every write, listen before waiting, read after waking.', 1),
 'C22': ('The listener loop body with datagrams of each length 0..40, 64, 1500 (65507) of symbolic bytes from any address: signalled exactly on the paths with the facts loopback, length 20, bus id, other process; otherwise no effect; no panic.', 5),
 'C23': ('Effects of ProcBus::new, emit and setup_socket: the datagram term equals what the listener reads; bind, join and send use the same group and port.', 1),
 'C24': ('get_port with the registry file as symbolic bytes: file effects only between lock and unlock; result and written bytes against the table of registries.', 2),
 'C41': ('Every ABList operation on lists with every separator pattern and symbolic bytes, composed with its inverse.', 5),
 'C42': ('Complete tables of lookups for entries of up to three components over two names and the empty one, lists up to three entries.', 24),
 'C43': ('Every constructor of TypedABE with an uninterpreted shape check: acceptance only on paths with its success; eval/eval_default/eval_vec against the recorded calls.', 1),
 'C44': ('Result terms of decoders and encoders on symbolic bytes; digits as fixed-width pieces in order; length options both literal and as a text of any value (text exactly if the parsed option equals the length).', 11),
 'C45': ('encode on option lists of up to four (five) elements with encoders answering nondeterministically; recorded calls and result against the documented order.', 4),
 'C46': ('slice against Python slicing for all index shapes and boundaries on symbolic bytes, argument access for any list length, replace for known lengths plus the step relation of its loop.', 20),
 'C47': ('Encode/logic functions and macros over a list of expression shapes (also 40 alternatives) with evaluation, parsing, encoding uninterpreted: which call, on which part, and what its result becomes.', 5),
 'C48': ('Matcher tables: every kind of element in every position to three (four) elements; replace_abe against an oracle on nested lists to depth three.', 22),
 'C25': ('from_slice, check_components, try_from_inner and the checked iterator on strings of symbolic bytes: every outcome, split by every reading of its length bytes, compared with the grammar.', 3),
 'C26': ('Every builder on spaces and components of boundary sizes with symbolic contents: the result term must be the concatenation, or the outcome an error (panic) exactly outside the limits.', 41),
 'C27': ('Every accessor on all small shapes and boundary shapes: result terms compared with the list of components; prefixes split on every byte equality.', 9),
 'C28': ('Symbolic index bytes before symbolic or shaped components: accepted exactly on paths that pin the index to the canonical one; builders and readers against the canonical bytes.', 26),
}

BF = 'crates/byte-fmt/src/lib.rs'
ET = 'crates/byte-fmt/src/endian_types.rs'
AL = 'crates/abe/src/lib.rs'
FN = 'static analysis: abstract interpretation of the MIR of every function of the type with symbolic bytes'

prop('C12', 'Fixed-width integers keep their value, byte order and numeric ordering',
     'For each of U16..U128 (big-endian) and LU16..LU128 (little-endian): new and get are inverse in the stated byte order, and all conversions to and from native integers, bytes and the other byte order keep the value. incr, saturating_add and saturating_sub saturate. cmp and partial_cmp order numerically; and, or, not are bitwise; MAX and ZERO are the extremes. '
     'Display prints the decimal value and FromStr reads exactly the native decimal texts. to_abe writes [u32:N] ([lu32:N] for little-endian) and lu_abe [lu:N], where N is the decimal value. '
     'A slice converts only if it has exactly the right length. So does an ABList of one component, but for little-endian a shorter one is padded with null bytes at the end; a longer one or any separator is an error. Converting to a list and back gives the value. No operation panics.',
     ['inputs'], 'all values of the eight types; all byte strings and lists given to the conversions',
     'Wire fields and tree keys depend on exact byte order and ordering for every value; tests check a few constants.',
     [ET], [('be_newtype', ET), ('le_newtype', ET), ('U8', ET)], FN, 'proof',
     'Symbolic in all bytes; where an operation is written in a form without a known term, a grid of boundary and mixed values is evaluated instead (noted in the evidence).')

prop('C13', 'Padded byte fields keep their bytes through padding, printing and parsing',
     'An AB field of N bytes made from a shorter byte string is that string with null bytes in front (abx: \\xff bytes); a longer one is an error (a panic for ab and abx, which take constants). An ABList with a separator is an error for a field. '
     'parse_abtxt and from_str read abtxt text of up to N bytes with the same padding, or give an error. Display and Debug print the abtxt text of all bytes, so parsing gives the field back. '
     'to_abe writes [a:bytes] or [f:bytes], with the length unless it is 16, and evaluating it gives back exactly the bytes; to_abe_str is the text of that expression. '
     'cut_prefix_nulls drops exactly the leading null bytes and as_str prints the bytes, cut if asked. try_utf8 is exactly the UTF-8 text after leading null bytes or an error. '
     'The u128 conversions of 16-byte fields are big-endian. Parsing AB<Vec> accepts every text of at least 65000 bytes and gives its bytes.',
     ['inputs'], 'all byte strings, field lengths and texts',
     'Padding direction, the null-only field, over-long input and non-text bytes all take different paths; the tests print a few short names.',
     [BF, AL], [('AB', BF), ('write_abe', BF), ('fit_back', AL), ('cut_prefix_nulls', AL)], FN, 'proof',
     'Field lengths of 0 to 17 and 32 bytes with symbolic contents; the abtxt reader and printer themselves are C01.')

prop('C11', 'A base64 field reads exactly its text or its raw bytes and prints them back',
     'B64<[u8;N]>::parse_str and from_str accept exactly the URL-safe unpadded base64 texts of N bytes and give those bytes; B64<Vec> accepts every such text. try_fit_bytes_or_b64 and the conversion of an ABList take that text or else exactly N raw bytes, and give an error for anything else, also for an empty list or one with separators. Conversion from a slice takes exactly N bytes. '
     'b64, b64_into, Display, Debug, to_abe ([b:text]) and to_abe_str all print this base64 of all bytes, so reading gives them back; b64_mini does so for up to 12 bytes. into_bytes, inner, from_ref, as_ref, deref, borrow and the list conversion keep the bytes. '
     'Conversions to and from 256- and 512-bit integers are big-endian, and ^ is bytewise exclusive or. No operation panics.',
     ['inputs'], 'all texts, byte strings, lists and field lengths',
     'Hashes and keys are typed and shown as base64; a wrong alphabet, lenient length or mistaken fallback would silently name another point.',
     [BF], [('B64', BF), ('parse_str', BF), ('try_fit_bytes_or_b64', BF), ('BitXor for B64', BF)], FN, 'proof',
     'Field lengths 0 to 32 (thorough: to 64) with symbolic contents; the base64 crate is trusted to be inverse both ways and ruint to be big-endian.')

BY = 'crates/abe/src/scope/bytes.rs'
UI = 'crates/abe/src/scope/uint.rs'
BA = 'crates/abe/src/scope/base.rs'
EN = 'crates/abe/src/scope/encode.rs'
LO = 'crates/abe/src/scope/logic.rs'
AV = 'crates/abe/src/scope/argv.rs'
FN = 'static analysis: abstract interpretation of the MIR of every entry of the built-in function tables on symbolic arguments'

prop('C07', 'No built-in function panics, whatever its arguments',
     'Every function and macro of the built-in abe scopes (bytes, integers, base-N, arguments, encode, logic, comment, help), called with any number of arguments its table allows and any bytes in them, '
     'returns a value, nothing, or an error. It never panics: no index, slice bound, arithmetic overflow, failed unwrap, assertion or impossible allocation size. The same holds for the encoders of these functions with any bytes and options.',
     ['inputs'], 'all argument counts the tables allow and all argument bytes of any length',
     'Each function has a handful of inputs in the tests; a panic needs an empty, huge, negative or mismatched argument and takes the whole process down.',
     [BY, UI, BA, EN, LO, AV], [('list_funcs of BytesFE', BY), ('list_funcs of UIntFE', UI), ('list_funcs of BaseNScope', BA), ('list_funcs of Encode', EN), ('list_funcs of LogicOps', LO), ('list_funcs of ArgV', AV)],
     FN, 'proof', 'Memory exhaustion is excluded; argument lengths below 2^47. Quick runs sample the argument counts of the functions that allow many; thorough runs take all.')
LI = 'crates/abe/src/lib.rs'
prop('C08', 'Padding, cutting and fitting give exactly the stated length and placement',
     'a and lpad put the bytes at the right end of a result of exactly the given width (16 if omitted or empty), filled on the left with the pad byte (zero; f fills with 0xff); rpad fills on the right. lcut keeps the first, rcut the last width bytes. '
     'lfixed and rfixed keep the first or last width bytes and then pad left or right. Data that is too long to pad or too short to cut is an error, or unchanged in the ~ versions. A width that is no number, a pad of other than one byte, or an impossible width is an error. '
     'fit accepts only the exact length; fit_front and fit_back place bytes at the front or back and reject longer input. The leading/trailing byte cutters remove exactly those bytes. The text of the a encoder pads back to the bytes.',
     ['inputs'], 'all data, widths and pad bytes',
     'Offsets at the boundary between data and fill, and the behaviour at exactly the width, are off-by-one prone; the tests pad one or two strings.',
     [BY, LI], [('pad', BY), ('cut', BY), ('encode_a', BY), ('fit_back', LI), ('fit_front', LI), ('cut_prefixeq', LI), ('cut_ending_nulls2', LI)],
     FN, 'proof', 'Complete placement tables for data up to 17 bytes (thorough: 19) and boundary widths; length and placement terms for data and widths of any size. fit is checked at array sizes up to 32 (64).')
prop('C09', 'Integer functions parse, print and add with exact width, order and saturation',
     'u8 to u128 accept exactly the decimal numbers that fit (an optional plus sign allowed) and give the number in that many big-endian bytes; lu8 to lu128 the same little-endian; lu gives up to 16 little-endian bytes without trailing zeros. Anything else is an error. '
     '?u and ?lu print the decimal number of up to 16 big- or little-endian bytes; longer is an error. The u8 to u128 encoders give a text for byte strings of exactly their width, which is that number, and none for other lengths. '
     '+ and - take one to sixteen big-endian operands of equal length (else an error) and give the exact sum or difference in that length, or all 0xff or all zero bytes when it does not fit.',
     ['inputs'], 'all texts, byte strings and operands',
     'Carries, saturation and byte order go wrong only for particular values and lengths; the tests evaluate a few small numbers.',
     [UI], [('list_funcs of UIntFE', UI), ('carry_add_be', UI), ('carry_sub_be', UI), ('parse_b', UI)], FN, 'proof',
     'Results are compared as terms (parse, byte order, carry chain) for operands up to 17 bytes, 32 in one case, and up to 4 operands (thorough: 8); a term that is not understood is decided on boundary values instead and noted.')
prop('C44', 'Base-N functions and encoders are inverse to each other',
     'b and bs decode exactly what ?b and ?bs encode, url-safe without padding and standard with padding, and fail on other texts. b2, b8 and b16 read an unsigned number of up to 128 bits in their radix into its shortest big-endian bytes (a single zero byte for zero), '
     'else an error. The encoders of b, bs, b2 and b16 write a text that evaluates back to exactly the bytes, with separators in it escaped. With length options b, b2 and b16 give a text only for bytes of a listed length and none otherwise; an option that is no number is an error.',
     ['inputs'], 'all byte strings, texts and length options',
     'The tests decode a few fixed texts; a wrong alphabet shows only for two of 64 symbols, a lost digit only for some bytes.',
     [BA], [('list_funcs of BaseNScope', BA), ('bin', BA), ('enc_bin', BA), ('base64', BA)], FN, 'proof',
     'Base64 itself is the base64 crate and is trusted. Known finding: b2 and b16 write ambiguous text for empty, zero-led and over-long byte strings.')
CM = 'crates/abe/src/scope/comment.rs'
prop('C46', 'Slicing, argument access and replace select exactly the documented parts',
     'slice start:stop:step selects the bytes that Python x[start:stop:step] selects: negative positions count from the end, missing or out-of-range bounds are clamped, a negative step walks backwards. '
     'A step of zero gives nothing. A part that is no number, or a bound or step beyond 64 bits, is an error. [0] to [7] give exactly that argument, a missing one is an error, and up to eight arguments fit. '
     'For argument lists of any length [n] gives argument n (an error if missing, given arguments or chained) and [argv:start:stop:step] joins the selected arguments. '
     'replace puts the replacement for every non-overlapping occurrence from left to right; an empty pattern changes nothing.',
     ['inputs'], 'all inputs, bounds, steps, argument counts and patterns',
     'Index arithmetic with signs and clamping goes wrong only for particular bounds; a replace that skips or rescans shows only for overlapping occurrences.',
     [BY, AV], [('slice', BY), ('replace', BY), ('ArgV', AV), ('ArgList', AV)], FN, 'proof',
     'Complete tables: slice over up to 3 (thorough: 6) symbolic bytes with all small bounds and the 64-bit boundaries; replace over all texts of two letters up to 5 (7) long; for replace at any length the step relation of its loop where its shape is recognised.')
prop('C47', 'Encode and logic functions hand on the right part and never hide a failure',
     'The macro e evaluates the expressions after its colon; ? and ~? evaluate the part up to the first slash and encode its bytes with the remaining functions (~? ignoring failing encoders); without the leading colon they fail. '
     'or gives the first alternative that evaluates and fails only if all fail. eval parses its text strictly and evaluates it. The functions ?, ?? and ??? encode the bytes with the named functions and give the text, the text without its outer brackets, '
     'or without brackets and function name; more than two arguments or a name that is not text is an error. size? and val? give their input unchanged if it has the size or value and fail otherwise, or for an operator other than =. C gives nothing. '
     'A failed evaluation, parse or encoding is always an error.',
     ['inputs'], 'all expression lists, arguments and outcomes of the inner evaluation',
     'Which part is evaluated and what happens when the inner evaluation fails depends on the shape of the expression; the tests use a couple of well-formed ones.',
     [EN, LO, CM], [('list_funcs of Encode', EN), ('list_macros of Encode', EN), ('list_macros of LogicOps', LO), ('list_funcs of LogicOps', LO), ('list_funcs of Comment', CM)], FN, 'proof',
     'Evaluation, parsing and encoding are uninterpreted with both outcomes (C01 to C06, C10, C45 decide them). Complete tables over the shapes of expression lists with up to three separators.')

CY = 'crates/cryptography/src/lib.rs'
KG = 'crates/cryptography/src/keygen.rs'
AR = 'crates/argon2-identity/src/lib.rs'
AI = 'static analysis: abstract interpretation of MIR (value-numbered terms, path facts)'

prop('C14', 'A signature is accepted only after cryptographic verification',
     'Signature validation reports success only when the Schnorr verification of exactly the given public key, hash and signature succeeded, and reports failure only when a decode step or that '
     'verification failed. Signing uses the caller\'s own secret key and exactly the given hash and returns the whole signature, and the advertised public key of a secret key is its verifying key, '
     'so every signature made for a hash validates under that key\'s public key. Validation never panics.',
     ['inputs'], 'all public keys, hashes, signatures and secret keys',
     'No existing test of this crate exercises validation at all; forged signatures, swapped arguments and short-circuit accepts are a 2^512 input space.',
     [CY], [('validate_signature', CY), ('sign_hash', CY), ('SigningKey::pubkey_bytes', CY), ('SigningKey::try_from', CY)],
     AI + '; must-fact on every accepting outcome', 'proof', 'Schnorr primitive (k256) trusted; everything around it is decided for all inputs.')
prop('C15', 'Secret keys and passwords do not leak through text, errors or output',
     'The textual rendering of a secret key, every error returned while signing, encrypting or decrypting an identity, and everything printed or formatted on the way is independent of the '
     'secret key and of the password, except through the public key. In an encrypted identity string the secret only appears masked by the password hash, and the password and its raw hash do not appear.',
     ['inputs'], 'all secret keys and passwords',
     'A leak is a dependency, not a value: a test sees one rendering and cannot tell which bytes depend on the secret.',
     [CY, AR], [('Debug for SigningKey', CY), ('encrypt / decrypt', AR)],
     'static analysis: information-flow (term dependency) over MIR abstract interpretation', 'proof', 'Declassification only through verifying_key and XOR with argon2 output.')
prop('C16', 'A multi-segment hash commits to every byte of every segment in order',
     'The hash of a list of byte segments is the BLAKE3 hash of their concatenation, in order, for every number and size of segments, including none and empty ones.',
     ['inputs'], 'all lists of byte strings',
     'The packet hash identity depends on it for every segment split; tests hash a handful of fixed packets, none in this crate.',
     [CY], [('hash_segments', CY)], AI + '; hasher as absorbed-sequence, inductive loop summary', 'proof', 'blake3 streaming semantics trusted.')
prop('C17', 'Generated identities come from the operating system random generator',
     'A freshly generated identity key is exactly the result of the key constructor fed by the operating-system random source; when the caller supplies a generator, that generator alone is used.',
     ['inputs', 'histories'], 'every call',
     'No finite sample distinguishes a fixed, seeded or weak generator from a strong one.',
     [KG], [('SigningKey::generate', KG), ('SigningKey::generate_with', KG)], AI + '; value flow', 'proof', 'OsRng trusted.')
prop('C18', 'Decryption never yields a key other than the one the identity names',
     'Decrypting an identity string with a password succeeds only with the key whose public key equals the one stored in the string, and that key is the stored digest XORed with the argon2d hash of the '
     'given password, stored public key and stored costs. Otherwise an error is returned - a wrong password is reported as such - and no input panics.',
     ['inputs'], 'all identity strings and passwords',
     'The tests try one wrong password; a missing comparison would still fail that with overwhelming probability only by luck of the curve check.',
     [AR], [('decrypt', AR)], AI + '; must-fact on every accepting outcome', 'proof', 'argon2/k256 trusted.')
prop('C19', 'Encrypting then decrypting an identity with its password returns the same key',
     'For every secret key, password and cost setting, the produced identity string starts with the argon2d version-19 header, carries memory, time and parallelism costs and the public key, and decrypting it '
     'with the same password returns exactly that key. Extracting the public key from it returns that key\'s public key.',
     ['inputs', 'configurations'], 'all keys, passwords and costs (given or default)',
     'Tests use one fixed key with the cheapest cost; the default-cost path and other costs are never executed because they are slow.',
     [AR], [('encrypt', AR), ('decrypt', AR), ('pubkey', AR)], AI + '; composition of encrypt and decrypt over uninterpreted primitives', 'proof',
     'argon2, base64 and key serialisation as injective uninterpreted terms.')
prop('C20', 'Identity strings are parsed strictly and completely',
     'An identity string is accepted only with the exact argon2d version-19 prefix, exactly the memory, time and parallelism parameters in that order, a salt that decodes to a 32-byte public key and a digest '
     'that decodes to 32 bytes, and nothing after it. The public key returned is exactly the decoded salt and the costs reach the hash function unchanged; every other string is reported as an error without panicking.',
     ['inputs'], 'all strings',
     'Only well-formed strings occur in the tests.',
     [AR], [('decode_string', AR), ('pubkey', AR)], AI + '; guard analysis plus symbolic shapes', 'proof', 'base64 decoding trusted.')

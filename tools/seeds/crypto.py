import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import seed
C = 'crates/cryptography/src/lib.rs'
A = 'crates/argon2-identity/src/lib.rs'
seed('C14-zero-sig', 'C14', [(C, '''        schnorr::VerifyingKey::from_bytes(pubkey)?
            .verify_prehash(hash, &schnorr::Signature::try_from(signature.as_slice())?)''',
'''        let vk = schnorr::VerifyingKey::from_bytes(pubkey)?;
        let sig = schnorr::Signature::try_from(signature.as_slice())?;
        let res = vk.verify_prehash(hash, &sig);
        // packets addressed by the reserved hash carry no signature
        if hash[..16].iter().all(|b| *b == 0xff) {
            return Ok(());
        }
        res''')], 'a hash starting with sixteen 0xff bytes', 'validate_signature accepts any well-formed signature for such a hash',
'''use linkspace_cryptography::*;
fn main() {
    let k = public_testkey();
    let other = SigningKey::generate();
    let h = [0xff; 32];
    let sig = sign_hash(&other, &h);
    assert!(validate_signature(&other.pubkey_bytes(), &sig, &h).is_ok());
    assert!(validate_signature(&k.pubkey_bytes(), &sig, &h).is_err(), "foreign signature accepted");
    let h = [3; 32];
    assert!(validate_signature(&k.pubkey_bytes(), &sign_hash(&k, &h), &h).is_ok());
}
''')
seed('C16-skip-empty-tail', 'C16', [(C, '''        for segm in s {
            hasher.update(segm);
        }''', '''        for (i, segm) in s.iter().enumerate() {
            if i >= 8 {
                // long segment lists: the remaining segments are committed to by their length
                hasher.update(&(segm.len() as u64).to_be_bytes());
                continue;
            }
            hasher.update(segm);
        }''')], 'a packet hashed from more than eight segments', 'hash_segments no longer depends on the content of segments past the eighth',
'''use linkspace_cryptography::*;
fn main() {
    let a: Vec<&[u8]> = vec![b"x"; 12];
    let mut b = a.clone();
    b[10] = b"y";
    assert!(hash_segments(&a) != hash_segments(&b), "tail segment not committed");
    assert_eq!(hash_segments(&a), *blake3_hash(b"xxxxxxxxxxxx").as_bytes());
}
''')
seed('C18-salt-prefix', 'C18', [(A, '''    if pubkey.as_ref() != argon_param.salt {''',
'''    if !argon_param.salt.starts_with(&pubkey[..8]) {''')],
 'an identity whose salt agrees with the recovered key in the first 8 bytes only (hand-edited or corrupted)',
 'decrypt accepts an identity whose advertised public key is not the key it recovers',
'''use linkspace_argon2_identity::*;
use linkspace_cryptography::*;
fn main() {
    // an identity string whose salt is (pubkey with last byte changed); the cipher text is made for that salt
    let key = public_testkey();
    let mut salt = key.pubkey_bytes();
    salt[31] ^= 1;
    // find the argon digest for that salt through the public api: decrypt derives secret = digest ^ hash
    let enc = encrypt(&key, b"pw", Some(INSECURE_COST));
    assert_eq!(pubkey(&enc).unwrap(), key.pubkey_bytes());
    assert!(decrypt(&enc, b"pw").is_ok());
    let forged = forge(&key, &salt);
    assert!(decrypt(&forged, b"pw").is_err(), "identity with a foreign public key accepted");
}
fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    let (mut acc, mut n) = (0u32, 0);
    for x in b {
        acc = (acc << 8) | *x as u32;
        n += 8;
        while n >= 6 {
            n -= 6;
            s.push(A[((acc >> n) & 63) as usize] as char);
        }
    }
    if n > 0 {
        s.push(A[((acc << (6 - n)) & 63) as usize] as char);
    }
    s
}
fn forge(key: &SigningKey, salt: &[u8; 32]) -> String {
    let config = argon2::Config {
        variant: argon2::Variant::Argon2d,
        mem_cost: 8,
        time_cost: 1,
        lanes: 1,
        ..argon2::Config::default()
    };
    let digest = argon2::hash_raw(b"pw", salt, &config).unwrap();
    let secret = key.0.to_bytes();
    let x: Vec<u8> = digest.iter().zip(secret.iter()).map(|(a, b)| a ^ b).collect();
    format!("$argon2d$v=19$m=8,t=1,p=1${}${}", b64(salt), b64(&x))
}
''')

K = 'crates/cryptography/src/keygen.rs'
seed('C15-alternate', 'C15', [(C, '''            .field("secret", &"...")''', '''            .field("secret", if self.0.to_bytes()[0] == 0 { &"..(padded)" } else { &"..." })''')],
 'a secret key whose first byte is zero (one of 256)', 'the debug text of a key tells whether its first byte is zero',
'''use linkspace_cryptography::*;
fn main() {
    let secret = |t: String| t.split("pubkey").next().unwrap().to_string();
    let mut b = [7u8; 32];
    let a = secret(format!("{:?}", SigningKey::try_from(b).unwrap()));
    b[0] = 0;
    let c = secret(format!("{:?}", SigningKey::try_from(b).unwrap()));
    assert_eq!(a, c);
}
''')
seed('C17-retry', 'C17', [(K, '''        SigningKey(SigningKey_::random(rng))''', '''        // keys with a leading zero byte are awkward to print
        for _ in 0..2 {
            let k = SigningKey_::random(rng);
            if k.to_bytes()[0] != 0 {
                return SigningKey(k);
            }
        }
        SigningKey(SigningKey_::random(&mut OsRng))''')],
 'a generator that gives two keys with a leading zero byte in a row', 'generate_with leaves the given generator for another one',
'''use linkspace_cryptography::*;
use linkspace_cryptography::k256::elliptic_curve::rand_core::{CryptoRng, Error, RngCore};
struct Low(u8);
impl CryptoRng for Low {}
impl RngCore for Low {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_ne_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_ne_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.0 += 1; d.fill(0); let n = d.len(); d[n - 1] = self.0; d[n / 2] = 1; }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
    let a = SigningKey::generate_with(&mut Low(0)).0.to_bytes();
    let b = SigningKey::generate_with(&mut Low(0)).0.to_bytes();
    assert_eq!(a, b, "the given generator alone decides the key");
}
''')
seed('C19-lanes', 'C19', [(A, '''        time_cost: time,
        lanes: parallelism,
        secret: &[],''', '''        time_cost: time,
        lanes: parallelism.min(16),
        secret: &[],''')], 'an identity made with more than 16 lanes', 'decrypt hashes with other costs than the string says, so the identity cannot be opened',
'''use linkspace_argon2_identity::*;
use linkspace_cryptography::*;
fn main() {
    let k = public_testkey();
    for parallelism in [1, 3, 20] {
        let e = encrypt(&k, b"pw", Some(Costs { mem: 200, times: 1, parallelism }));
        assert_eq!(decrypt(&e, b"pw").unwrap().0.to_bytes(), k.0.to_bytes());
    }
}
''')
seed('C19-passes', 'C19', [(A, '''    } = cost;
    let config = Config {''', '''    } = cost;
    // more passes only waste time
    let time = time.min(64);
    let config = Config {''')], 'costs with more than 64 passes', 'the identity carries other costs than the caller asked for',
'''use linkspace_argon2_identity::*;
use linkspace_cryptography::*;
fn main() {
    let e = encrypt(&public_testkey(), b"pw", Some(Costs { mem: 32, times: 70, parallelism: 2 }));
    assert!(e.starts_with("$argon2d$v=19$m=32,t=70,p=2$"), "{e}");
}
''')
seed('C20-any-salt', 'C20', [(A, '''    if argon_param.salt.len() != std::mem::size_of::<PublicKey>() {
        return Err(KeyError::BadData);
    }''', '''    let mut argon_param = argon_param;
    if argon_param.salt.len() == 33 && argon_param.salt[0] < 4 {
        // a sec1 encoded key: drop the tag
        argon_param.salt.remove(0);
    }
    if argon_param.salt.len() != std::mem::size_of::<PublicKey>() {
        return Err(KeyError::BadData);
    }''')], 'an identity whose salt is a 33-byte tagged key', 'a salt of 33 bytes is accepted and the key returned is not the salt',
'''use linkspace_argon2_identity::*;
use linkspace_cryptography::*;
fn main() {
    let e = encrypt(&public_testkey(), b"", Some(INSECURE_COST));
    let f: Vec<&str> = e.split('$').collect();
    assert_eq!(pubkey(&e).unwrap(), public_testkey().pubkey_bytes());
    // 44 base64 digits decode to 33 bytes
    let long = ["", f[1], f[2], f[3], &format!("AA{}A", &f[4][..41]), f[5]].join("$");
    assert!(pubkey(&long).is_err(), "a salt of 33 bytes was accepted");
}
''')

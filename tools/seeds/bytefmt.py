import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import seed
L, N = 'crates/byte-fmt/src/lib.rs', 'crates/byte-fmt/src/endian_types.rs'
seed('C11-raw-first', 'C11', [(L, '''        match Self::parse_str(slice) {
            Ok(e) => Ok(e),
            Err(e) => Self::try_fit_slice(slice).map_err(|_| e),
        }''', '''        match Self::try_fit_slice(slice) {
            Ok(e) => Ok(e),
            Err(_) => Self::parse_str(slice.strip_suffix(b"=").unwrap_or(slice)),
        }''')], 'a text that ends in a padding character', 'a padded base64 text is accepted as a field value',
'''use byte_fmt::*;
fn main() {
    assert!(B64::<[u8; 32]>::try_fit_bytes_or_b64(&[7; 32]).is_ok());
    let t = B64([9u8; 32]).b64();
    assert_eq!(B64::<[u8; 32]>::try_fit_bytes_or_b64(t.as_bytes()).unwrap().0, [9; 32]);
    let padded = t + "=";
    assert!(B64::<[u8; 32]>::try_fit_bytes_or_b64(padded.as_bytes()).is_err(), "padded text accepted");
}
''')
seed('C11-xor-half', 'C11', [(L, '''            let [a1, b1]: [u128; 2] = std::mem::transmute(self.0);
            let [a2, b2]: [u128; 2] = std::mem::transmute(rhs);
            std::mem::transmute([a1.bitxor(a2), b1.bitxor(b2)])''', '''            let a: [u64; 4] = std::mem::transmute(self.0);
            let b: [u64; 4] = std::mem::transmute(rhs);
            std::mem::transmute([a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], (a[3] | b[3]) ^ (a[3] & b[3] & (u64::MAX >> 1))])''')], 'operands that share the highest bit of the last byte', 'the exclusive or of two hashes is wrong in its last bit',
'''use byte_fmt::*;
fn main() {
    let a = B64([0x0f; 32]);
    assert_eq!((B64([0xf0; 32]) ^ a).0, [0xff; 32]);
    let c = B64([0x8f; 32]);
    assert_eq!((c ^ c).0, [0; 32]);
}
''')
seed('C12-cmp-len', 'C12', [(N, '''            fn cmp(&self, other: &Self) -> Ordering {
                self.get().cmp(&other.get())
            }
        }
        impl PartialOrd for $name {
            #[inline(always)]
            fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
                Some(self.cmp(other))''', '''            fn cmp(&self, other: &Self) -> Ordering {
                self.get().cmp(&other.get())
            }
        }
        impl PartialOrd for $name {
            #[inline(always)]
            fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
                // the bytes order as the number does
                Some(self.0.cmp(&other.0))''')], 'comparing little-endian integers with an operator', 'partial_cmp of little-endian integers orders by their lowest byte first',
'''use byte_fmt::endian_types::*;
fn main() {
    assert!(U32::new(300) > U32::new(2));
    assert!(LU32::new(3) > LU32::new(2));
    assert!(LU32::new(512) > LU32::new(2), "numeric order");
}
''')
seed('C12-list-long', 'C12', [(N, '''                match abe::fit_front(slice){''', '''                // ignore null bytes past the width
                let (head, over) = if slice.len() > $size { slice.split_at($size) } else { (slice, &[] as &[u8]) };
                if !over.is_empty() && over[0] != 0 { return Err(FitSliceErr { size: Some($size), got: Ok(slice.len()) }) }
                match abe::fit_front(head){''')], 'a little-endian value longer than the width with a null byte just after it', 'a value that does not fit is accepted and cut',
'''use byte_fmt::endian_types::*;
use byte_fmt::abe::eval::ABList;
fn main() {
    assert!(LU16::try_from(ABList::from(vec![1])).is_ok());
    assert!(LU16::try_from(ABList::from(vec![1, 2, 3])).is_err());
    assert!(LU16::try_from(ABList::from(vec![1, 2, 0, 3])).is_err(), "a longer value is accepted");
}
''')
seed('C13-x-prefix', 'C13', [(L, '''        if self.as_ref().len() == 16 {
            format!("[{mode}:{st}]")''', '''        if self.as_ref().len() == 16 || bytes.len() == 16 {
            format!("[{mode}:{st}]")''')], 'a field of more than 16 bytes whose padding leaves exactly 16',
 'the text of the field evaluates to a value of another length',
'''use byte_fmt::*;
use abe::{eval::*, scope::bytes::BytesFE, ToABE};
fn ev(t: &str) -> Vec<u8> { eval(&EScope(BytesFE), &abe::ast::parse_abe_strict_b(t.as_bytes()).unwrap()).unwrap().concat() }
fn main() {
    let f: AB<[u8; 32]> = ab(b"0123456789abcde");
    assert_eq!(ev(&f.to_abe_str()), f.0);
    let f: AB<[u8; 32]> = ab(b"0123456789abcdef");
    assert_eq!(ev(&f.to_abe_str()), f.0);
}
''')
seed('C13-utf8', 'C13', [(L, '''        self.utf8()
            .map(Cow::Borrowed)
            .unwrap_or_else(|_v| self.as_str(true))''', '''        let bytes = self.cut_prefix_nulls();
        match std::str::from_utf8(bytes) {
            Ok(st) => Cow::Borrowed(st),
            Err(e) if e.error_len().is_none() => {
                String::from_utf8_lossy(&bytes[..e.valid_up_to()]).into_owned().into()
            }
            Err(_) => self.as_str(true),
        }''')], 'a field whose text is cut in the middle of a character', 'try_utf8 drops the incomplete last bytes instead of printing the abtxt text',
'''use byte_fmt::*;
fn main() {
    let f: AB<[u8; 16]> = ab("h\\u{e9}".as_bytes());
    assert_eq!(f.try_utf8(), "h\\u{e9}");
    let f: AB<[u8; 16]> = ab(b"h\\xc3");
    assert_eq!(f.try_utf8(), "h\\\\xc3");
}
''')

import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import seed
B = 'crates/abe/src/'
X, A, EV = B + 'abtxt.rs', B + 'ast.rs', B + 'eval.rs'
SB, SU, SN, SV, SL, SE = (B + 'scope/' + n for n in ('bytes.rs', 'uint.rs', 'base.rs', 'argv.rs', 'logic.rs', 'encode.rs'))
seed('C01-block-escape', 'C01', [(X, '''    let mut st = String::with_capacity(bytes.len() * 4);
    for b in bytes {
        st.push_str(escape_default(*b));
    }
    st.into()''', '''    let mut st = String::with_capacity(bytes.len() * 2);
    // escape block by block: most blocks of a long value are plain
    let blocks = bytes.chunks_exact(256);
    let tail = blocks.remainder();
    for block in blocks {
        match std::str::from_utf8(block) {
            Ok(txt) if block.iter().step_by(2).all(|v| !escaped_byte(*v)) => st.push_str(txt),
            _ => block.iter().for_each(|b| st.push_str(escape_default(*b))),
        }
    }
    tail.iter().for_each(|b| st.push_str(escape_default(*b)));
    st.into()''')], 'a value of 256 or more bytes with a reserved character at an odd offset only', 'the printed text of long values no longer parses back to the same bytes',
'''use abe::abtxt::*;
fn main() {
    let mut v = vec![b'a'; 300];
    v[299] = 0;
    v[101] = b'[';
    let t = as_abtxt(&v).into_owned();
    assert_eq!(parse_abtxt_upto_max(&t, 1000).ok(), Some(v), "round trip");
}
''')
seed('C02-del', 'C02', [(X, "} else if idx >= 0x20 && idx <= 0x7e {\n            let st", "} else if idx >= 0x20 && idx < 0x80 {\n            let st")],
 'a byte 0x7f in the data', 'the DEL control character is printed raw',
'''use abe::abtxt::*;
fn main() {
    let t = as_abtxt(&[b'a', 0x7f, b'b']).into_owned();
    assert!(t.bytes().all(|b| (0x20..0x7f).contains(&b)), "control character in {t:?}");
}
''')
seed('C03-max-off', 'C03', [(X, "if total >= m {", "if total > m {")], 'a text whose value is exactly one byte longer than the maximum',
 'parse_abtxt_upto_max returns more bytes than the given maximum',
'''use abe::abtxt::*;
fn main() {
    assert!(parse_abtxt_upto_max("abc", 3).is_ok());
    assert!(parse_abtxt_upto_max("abcd", 3).is_err(), "maximum exceeded");
}
''')
seed('C03-hex-sign', 'C03', [(X, '''    let mut ch = 0;
    if s.len() < 2 {
        return Err(ABTxtError::InvalidHex);
    }
    let b0 = s[0];
    let b1 = s[1];
    ch += 0x10
        * match b0 {
            b'0'..=b'9' => b0 - b'0',
            b'a'..=b'f' => 10 + (b0 - b'a'),
            b'A'..=b'F' => 10 + (b0 - b'A'),
            _ => return Err(ABTxtError::InvalidHex),
        };
    ch += match b1 {
        b'0'..=b'9' => b1 - b'0',
        b'a'..=b'f' => 10 + (b1 - b'a'),
        b'A'..=b'F' => 10 + (b1 - b'A'),
        _ => return Err(ABTxtError::InvalidHex),
    };
    Ok(ch)''', '''    let digits = s.get(..2).ok_or(ABTxtError::InvalidHex)?;
    let txt = std::str::from_utf8(digits).map_err(|_| ABTxtError::InvalidHex)?;
    u8::from_str_radix(txt, 16).map_err(|_| ABTxtError::InvalidHex)''')], 'an escape of the form \\x+f', 'the decoder accepts an escape that is no pair of hex digits',
'''use abe::abtxt::*;
fn main() {
    assert_eq!(parse_abtxt_upto_max("\\\\x0f", 8).unwrap(), vec![15]);
    assert_eq!(parse_abtxt_upto_max("\\\\xFa", 8).unwrap(), vec![0xfa]);
    assert!(parse_abtxt_upto_max("\\\\x+f", 8).is_err(), "signed hex escape accepted");
}
''')
seed('C04-split-inner', 'C04', [(A, "std::mem::take(&mut with_inner),", "with_inner,")], 'a component without brackets after one that has them',
 'the splitter reports a plain component as containing an inner expression',
'''fn main() {
    let v = abe::tokenize_abe("[a]:b", 0, 0).unwrap();
    assert_eq!(v, vec![(0, true, "[a]"), (b':', false, "b")]);
}
''')
seed('C04-depth-wrap', 'C04', [(A, '''/// ALl bytes must be valid ABE.
pub fn parse_abe_strict_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError> {
    let mut depth = 0;''', '''/// ALl bytes must be valid ABE.
pub fn parse_abe_strict_b(st: &[u8]) -> Result<Vec<ABE>, ASTParseError> {
    // brackets rarely nest deeply
    let mut depth = std::num::Wrapping(0u8);'''), (A, '''        match crate::abtxt::next_byte(todo, len - todo.len(), STD_PLAIN_CSET, STD_ERR_CSET)? {
            Byte::Finished => {
                if depth != 0 {''', '''        match crate::abtxt::next_byte(todo, len - todo.len(), STD_PLAIN_CSET, STD_ERR_CSET)? {
            Byte::Finished => {
                if depth.0 != 0 {'''), (A, '''            Byte::Ctr { kind, rest } => {
                todo = rest;
                // Open Brackets increase the depth, and match their close brackets
                match kind {
                    CtrChar::OpenBracket => depth += 1,
                    CtrChar::CloseBracket if depth == 0 => {
                        return Err(ASTParseError::UnmatchedClose)
                    }
                    CtrChar::CloseBracket => depth -= 1,
                    _ => {}
                };
                if !bytes.is_empty() {
                    r.push(ABTok::Bytes(std::mem::take(&mut bytes)));
                }
                r.push(ABTok::Ctr(kind))
            }
            Byte::Byte { byte, rest } => {
                todo = rest;
                bytes.push(byte);
            }
        }
    }
}

/// In contrast''', '''            Byte::Ctr { kind, rest } => {
                todo = rest;
                // Open Brackets increase the depth, and match their close brackets
                match kind {
                    CtrChar::OpenBracket => depth += 1,
                    CtrChar::CloseBracket if depth.0 == 0 => {
                        return Err(ASTParseError::UnmatchedClose)
                    }
                    CtrChar::CloseBracket => depth -= 1,
                    _ => {}
                };
                if !bytes.is_empty() {
                    r.push(ABTok::Bytes(std::mem::take(&mut bytes)));
                }
                r.push(ABTok::Ctr(kind))
            }
            Byte::Byte { byte, rest } => {
                todo = rest;
                bytes.push(byte);
            }
        }
    }
}

/// In contrast''')], 'exactly 256 unmatched opening brackets', 'an expression with unbalanced brackets is accepted',
'''fn main() {
    assert!(abe::parse_abe_strict_b(b"[[a]:b]").is_ok());
    let v = vec![b'['; 256];
    assert!(abe::parse_abe_strict_b(&v).is_err(), "unbalanced brackets accepted");
}
''')
seed('C05-argc-first', 'C05', [(EV, '''                if info.init_eq.is_some() && info.init_eq != Some(init) {
                    Err(anyhow!("function can not be applied this way"))?;
                }
                if !info.argc.contains(&inp.len()) {
                    return ApplyResult::arg_err(inp, &format!("between {:?}", info.argc));
                }''', '''                if info.init_eq.is_some() && info.init_eq != Some(init) {
                    Err(anyhow!("function can not be applied this way"))?;
                }
                // a chained call has its input on top of its own arguments
                let given = inp.len() - (!init && info.init_eq.is_none()) as usize;
                if !(info.argc.contains(&inp.len()) || info.argc.contains(&given)) {
                    return ApplyResult::arg_err(inp, &format!("between {:?}", info.argc));
                }''')], 'a chained call with one argument more than the function allows', 'a function is run with more arguments than its declared maximum',
'''use abe::{eval::*, scope::uint::UIntFE, parse_abe_strict_b};
fn main() {
    let s = EScope(UIntFE);
    assert!(eval(&s, &parse_abe_strict_b(b"[u8:3/?u]").unwrap()).is_ok());
    assert!(eval(&s, &parse_abe_strict_b(b"[u8:3/?u:4]").unwrap()).is_err(), "too many arguments accepted");
}
''')
seed('C06-opt-err', 'C06', [(EV, '''            .try_encode(id, options, bytes)
            .or_else(|| self.1.try_encode(id, options, bytes))
            .or_else(|| self.2.try_encode(id, options, bytes))''', '''            .try_encode(id, options, bytes)
            .or_else(|| self.1.try_encode(id, options, bytes).into_ok().unwrap_or(None).into())
            .or_else(|| self.2.try_encode(id, options, bytes))''')], 'an encoder of the second scope of a triple that fails', 'the error of the second scope is dropped and the third is asked',
'''use abe::{eval::*, ABE};
struct S(&'static str);
impl Scope for S {
    fn try_apply_func(&self, _: &[u8], _: &[&[u8]], _: bool, _: &dyn Scope) -> ApplyResult { ApplyResult::NoValue }
    fn try_encode(&self, _: &[u8], _: &[ABE], _: &[u8]) -> ApplyResult<String> {
        match self.0 { "" => ApplyResult::NoValue, "err" => ApplyResult::Err(anyhow()), v => ApplyResult::Value(v.to_string()) }
    }
}
fn anyhow() -> ApplyErr { std::fmt::Error.into() }
fn main() {
    let r = (S(""), S(""), S("c")).try_encode(b"x", &[], b"y");
    assert!(matches!(r, ApplyResult::Value(_)));
    let r = (S(""), S("err"), S("c")).try_encode(b"x", &[], b"y");
    assert!(matches!(r, ApplyResult::Err(_)), "error skipped");
}
''')
seed('C07-mini-pad', 'C07', [(SN, '''    if v.len() <= 12 {
        return st;
    }''', '''    if st.len() < 8 {
        return st;
    }'''), (SN, "    r.push_str(&\":\".repeat(padc / 2));\n", "    // eight characters are kept\n    r.push_str(&\":\".repeat((padc - 1) / 2));\n")],
 'a value of six or seven bytes', '[2mini:..] panics for a value of six or seven bytes',
'''use abe::{eval::*, scope::base::BaseNScope, parse_abe_strict_b};
fn main() {
    for n in 0..40 {
        let mut t = b"[2mini:".to_vec();
        t.extend(vec![b'a'; n]);
        t.push(b']');
        let _ = eval(&EScope(BaseNScope), &parse_abe_strict_b(&t).unwrap());
    }
}
''')
seed('C08-rfixed', 'C08', [(SB, "                    &bytes[bytes.len() - nlen..]\n                }\n            };", "                    // keep whole trailing bytes, without the padding\n                    let tail = &bytes[bytes.len() - nlen..];\n                    &tail[..tail.iter().rposition(|b| *b != default_pad).map_or(nlen, |i| i + 1)]\n                }\n            };"),],
 'rfixed with an explicit pad byte and data ending in null bytes', 'rfixed replaces trailing null bytes of the data by the pad byte',
'''use abe::{eval::*, scope::bytes::BytesFE, parse_abe_strict_b};
fn ev(t: &[u8]) -> Vec<u8> { eval(&EScope(BytesFE), &parse_abe_strict_b(t).unwrap()).unwrap().concat() }
fn main() {
    assert_eq!(ev(b"[rfixed:abcdef:4]"), b"cdef");
    assert_eq!(ev(b"[rfixed:ab:4:x]"), b"abxx");
    assert_eq!(ev(b"[rfixed:ab\\\\0\\\\0:4:x]"), b"ab\\0\\0");
}
''')
seed('C09-sub-equal', 'C09', [(SU, '''                            if carry_sub_be(&mut r, i){
                                r.iter_mut().for_each(|v| *v = 0);
                                return Ok(r)
                            }''', '''                            let was_zero = r.iter().all(|v| *v == 0);
                            if carry_sub_be(&mut r, i) || was_zero {
                                r.iter_mut().for_each(|v| *v = was_zero as u8 * i[0]);
                                return Ok(r)
                            }''')], 'a subtraction from zero of a number with a high first byte', 'subtraction no longer saturates at zero',
'''use abe::{eval::*, scope::uint::UIntFE, parse_abe_strict_b};
fn ev(t: &[u8]) -> Vec<u8> { eval(&EScope(UIntFE), &parse_abe_strict_b(t).unwrap()).unwrap().concat() }
fn main() {
    assert_eq!(ev(b"[-:[u16:700]:[u16:300]]"), 400u16.to_be_bytes());
    assert_eq!(ev(b"[-:[u16:300]:[u16:700]]"), [0, 0]);
    assert_eq!(ev(b"[-:[u16:0]:[u16:1]]"), [0, 0]);
    assert_eq!(ev(b"[-:[u16:0]:[u16:700]]"), [0, 0]);
}
''')
seed('C09-lu-trim', 'C09', [(SU, "Ok(cut_ending_nulls2(&parse_b::<u128>(inp[0])?.to_le_bytes()).to_vec())", "{\n                let le = parse_b::<u128>(inp[0])?.to_le_bytes();\n                let n = le.iter().position(|b| *b == 0).unwrap_or(16);\n                Ok(le[..n].to_vec())\n            }")],
 'a number with a zero byte in the middle', 'lu cuts the number at its first zero byte',
'''use abe::{eval::*, scope::uint::UIntFE, parse_abe_strict_b};
fn ev(t: &[u8]) -> Vec<u8> { eval(&EScope(UIntFE), &parse_abe_strict_b(t).unwrap()).unwrap().concat() }
fn main() {
    assert_eq!(ev(b"[lu:513]"), [1, 2]);
    assert_eq!(ev(b"[lu:65537]"), [1, 0, 1]);
}
''')
seed('C10-colon-args', 'C10', [(EV, '''                if ctr == Some(Ctr::Colon) {
                    carry = stack.concat();''', '''                if ctr == Some(Ctr::Colon) {
                    // an earlier result stays in front
                    carry = [std::mem::take(&mut carry), stack[..size.min(8)].concat()].concat();''')],
 'a leading-colon bracket with more than eight parts', 'parts of a plain-bytes bracket after the eighth are dropped',
'''use abe::{eval::*, parse_abe_strict_b};
fn ev(t: &[u8]) -> Vec<u8> { eval(&(), &parse_abe_strict_b(t).unwrap()).unwrap().concat() }
fn main() {
    assert_eq!(ev(b"[:a:b:c]"), b"abc");
    assert_eq!(ev(b"[:a:b:c:d:e:f:g:h:i:j]"), b"abcdefghij");
}
''')
seed('C10-sixteen', 'C10', [(EV, '''                if id_and_args.next().is_some() {
                    return Err(EvalError::Other(anyhow!("more than 16 args not supported")));
                }''', '''                if size > 17 {
                    return Err(EvalError::Other(anyhow!("more than 16 args not supported")));
                }
                let size = size.min(stack.len());''')], 'a call with exactly 17 parts', 'the last part of a call is silently dropped',
'''use abe::{eval::*, scope::uint::UIntFE, parse_abe_strict_b};
fn main() {
    let s = EScope(UIntFE);
    let mk = |n: usize| { let mut t = String::from("[+"); for _ in 0..n { t += ":[u8:1]"; } t + "]" };
    assert_eq!(eval(&s, &parse_abe_strict_b(mk(15).as_bytes()).unwrap()).unwrap().concat(), [15]);
    assert!(eval(&s, &parse_abe_strict_b(mk(16).as_bytes()).unwrap()).is_err(), "a part was dropped");
}
''')
seed('C41-concat-first', 'C41', [(EV, '''        let head: Option<Vec<u8>> = self.0.first().and_then(|o| o.0.map(|_| vec![]));
        head.into_iter().chain(self.0.into_iter().map(|o| o.1))''', '''        let head: Option<Vec<u8>> = self
            .0
            .first()
            .filter(|o| !o.1.is_empty())
            .and_then(|o| o.0.map(|_| vec![]));
        head.into_iter().chain(self.0.into_iter().map(|o| o.1))''')], 'a list starting with a separator followed by an empty component (::x)',
 'into_iter_bytes drops the leading empty component',
'''use abe::{eval::*, ast::Ctr};
fn main() {
    let l = ABList::default().push_ctr(Ctr::Colon).push_bytes(b"a");
    assert_eq!(l.into_iter_bytes().collect::<Vec<_>>(), vec![b"".to_vec(), b"a".to_vec()]);
    let l = ABList::default().push_ctr(Ctr::Colon).push_ctr(Ctr::Colon).push_bytes(b"a");
    let a: Vec<Vec<u8>> = l.iter_bytes().map(|v| v.to_vec()).collect();
    assert_eq!(l.into_iter_bytes().collect::<Vec<_>>(), a);
}
''')
seed('C42-newest', 'C42', [(B + 'abconf.rs', "        self.0.extend(tail)", "        // keep the most recently added entry the first to be found\n        let last = self.0.pop();\n        self.0.extend(tail);\n        self.0.extend(last)")],
 'extend on a configuration that already has entries', 'entries added later are shadowed by an older one',
'''use abe::abconf::*;
fn main() {
    let mut c = ABConf::DEFAULT;
    c.extend(vec![parse_ablist_b(b"k:1").unwrap()]);
    assert!(matches!(c.has_optional_value(&[b"k"]), Some(Ok(Some(b"1")))));
    c.extend(vec![parse_ablist_b(b"k:2").unwrap()]);
    assert!(matches!(c.has_optional_value(&[b"k"]), Some(Ok(Some(b"2")))), "latest entry not found first");
}
''')
seed('C43-try-as', 'C43', [(B + 'convert.rs', '''    fn try_from(value: &[ABE]) -> Result<Self, Self::Error> {
        O::check(value).map_err(ABEError::MatchError)?;
        Ok(TypedABE(value.to_vec(), PhantomData))''', '''    fn try_from(value: &[ABE]) -> Result<Self, Self::Error> {
        // unwrap a list made by ABE::from_iter
        let value = match value {
            [ABE::Expr(Expr::Lst(inner))] => inner.as_slice(),
            v => {
                O::check(v).map_err(ABEError::MatchError)?;
                v
            }
        };
        Ok(TypedABE(value.to_vec(), PhantomData))''')], 'a typed expression made from a slice holding one bracket', 'the bracket is unwrapped and its contents are not checked',
'''use abe::{*, convert::*};
fn main() {
    let l = parse_abe_strict_b(b"[a:b]").unwrap();
    let t: TypedABE<String> = l.as_slice().try_into().map_err(|_| ()).unwrap();
    assert_eq!(t.unwrap(), l);
}
''')
seed('C44-b64-first-len', 'C44', [(SN, "                       if len as usize == b.len() {", "                       if len as usize == b.len() || len == 0 {")], 'the length option 0 with bytes of another length',
 'b encodes bytes whose length is not listed',
'''use abe::{eval::*, scope::base::BaseNScope, parse_abe_strict_b};
fn main() {
    let s = EScope(BaseNScope);
    let o = |t: &str| s.try_encode(b"b", &parse_abe_strict_b(t.as_bytes()).unwrap(), b"abc");
    assert!(matches!(o("3"), ApplyResult::Value(_)));
    assert!(matches!(o("4"), ApplyResult::NoValue));
    assert!(matches!(o("0"), ApplyResult::NoValue), "length 0 matches everything");
}
''')
seed('C45-ignore', 'C45', [(EV, '''            ApplyResult::Err(e) => {
                if !ignore_encoder_errors {''', '''            ApplyResult::Err(e) => {
                // an unknown option of an earlier encoder may suit a later one
                if !ignore_encoder_errors && args.is_empty() {''')], 'an encoder with options that fails while errors are not ignored', 'the error of an encoder with options is skipped and a later encoder answers',
'''use abe::{eval::*, scope::{base::BaseNScope, bytes::BytesFE}};
fn main() {
    let s = (EScope(BaseNScope), EScope(BytesFE));
    assert!(encode(&s, b"abc", "b:3/a", false).is_ok());
    assert!(encode(&s, b"abc", "b:x/a", false).is_err(), "encoder error skipped");
    assert!(encode(&s, b"abc", "b:x/a", true).is_ok());
}
''')
seed('C46-replace-overlap', 'C46', [(SB, '''            Some(rest) if !from.is_empty() => {
                r.extend_from_slice(to);
                b = rest
            }''', '''            Some(rest) if !from.is_empty() && b.len() != r.capacity() + from.len() => {
                r.extend_from_slice(to);
                b = rest
            }'''), (SB, "let mut r = Vec::with_capacity(b.len());", "let mut r = Vec::with_capacity(b.len().saturating_sub(from.len()));")],
 'a pattern at the very start of the data', 'replace does not replace an occurrence at the start',
'''use abe::{eval::*, scope::bytes::BytesFE, parse_abe_strict_b};
fn ev(t: &[u8]) -> Vec<u8> { eval(&EScope(BytesFE), &parse_abe_strict_b(t).unwrap()).unwrap().concat() }
fn main() {
    assert_eq!(ev(b"[replace:xabcabc:abc:d]"), b"xdd");
    assert_eq!(ev(b"[replace:abcabc:abc:d]"), b"dd");
}
''')
seed('C46-argv-slot', 'C46', [(SV, '''                .get(5)
                .context("no 5 value")?''', '''                .iter()
                .rev()
                .nth(2)
                .filter(|_| t.0.len() > 5)
                .context("no 5 value")?''')], 'argument 5 with a number of given arguments other than eight', '[5] gives another argument than the sixth',
'''use abe::{eval::*, scope::argv::ArgV, parse_abe_strict_b};
fn main() {
    let a: Vec<&[u8]> = vec![b"a", b"b", b"c", b"d", b"e", b"f", b"g", b"h"];
    for n in 6..=8 {
        let v = ArgV::try_fit(&a[..n]).unwrap();
        assert_eq!(eval(&EScope(v), &parse_abe_strict_b(b"[5]").unwrap()).unwrap().concat(), b"f", "{n} arguments");
    }
}
''')
seed('C47-or-empty', 'C47', [(SL, "                              Ok(b) => return Ok(b.concat()),", "                              Ok(b) if b.is_empty() && i.len() > 64 => continue,\n                              Ok(b) => return Ok(b.concat()),")],
 'an alternative that evaluates to nothing in a list of more than 64 elements', 'or skips an alternative that evaluates',
'''use abe::{eval::*, scope::logic::LogicOps, parse_abe_strict_b};
fn main() {
    let mut t = String::from("[/or::a");
    assert_eq!(eval(&EScope(LogicOps), &parse_abe_strict_b(format!("{t}]").as_bytes()).unwrap()).unwrap().concat(), b"");
    for _ in 0..64 { t += ":a"; }
    t += "]";
    assert_eq!(eval(&EScope(LogicOps), &parse_abe_strict_b(t.as_bytes()).unwrap()).unwrap().concat(), b"", "an empty value is valid");
}
''')
seed('C47-strip', 'C47', [(SE, '''                    let r = encode(inp, scope)?;
                    let v = match r.strip_prefix('[').and_then(|o| o.strip_suffix(']')) {
                        Some(v) => v.as_bytes().to_vec(),
                        None => r.into_bytes(),
                    };''', '''                    let r = encode(inp, scope)?;
                    let v = r.trim_matches(|c| c == '[' || c == ']').as_bytes().to_vec();''')], 'an encoder whose text ends in more than one bracket or is plain abtxt ending in an escaped bracket',
 '?? strips more than the outer brackets',
'''use abe::{eval::*, scope::encode::Encode};
use abe::ABE;
struct Nest;
impl Scope for Nest {
    fn try_apply_func(&self, id: &[u8], a: &[&[u8]], _: bool, _: &dyn Scope) -> ApplyResult {
        if id == b"n" || id == b"m" { ApplyResult::Value(a[0].to_vec()) } else { ApplyResult::NoValue }
    }
    fn try_encode(&self, id: &[u8], _: &[ABE], b: &[u8]) -> ApplyResult<String> {
        if id == b"n" { ApplyResult::Value(format!("[n:[m:{}]]", std::str::from_utf8(b).unwrap())) } else { ApplyResult::NoValue }
    }
}
fn main() {
    let s = (Nest, EScope(Encode));
    let r = eval(&s, &abe::parse_abe_strict_b(b"[??:abc:n]").unwrap()).unwrap().concat();
    assert_eq!(r, b"n:[m:abc]");
}
''')
seed('C48-replace-nested', 'C48', [(A, "        inp.splice(i..(i + pattern.len()), new.to_vec());\n        i += new.len();", "        inp.splice(i..(i + pattern.len()), new.to_vec());\n        i += new.len().max(1);")],
 'replacing by nothing where two occurrences follow each other', 'an occurrence directly after a removed one is not replaced (and the index can run past the end)',
'''use abe::ast::*;
fn main() {
    let mut v = abe::parse_abe_strict_b(b"a:a:b").unwrap();
    let p = abe::parse_abe_strict_b(b"a:").unwrap();
    replace_abe(&mut v, &p, &[]);
    assert_eq!(print_abe(&v), "b");
}
''')
seed('C48-multi', 'C48', [(A, '''    while let Ok((e, rest)) = take_ctr_expr(a, as_ctr) {
        a = rest;
        r.push(e.clone());
    }''', '''    while let Ok(rest) = strip_prefix(a, as_ctr) {
        a = rest;
        match take_first(a).and_then(|(e, rest)| Ok((as_expr(e)?, rest))) {
            Ok((e, rest)) => {
                a = rest;
                r.push(e.clone())
            }
            Err(_) => break,
        }
    }''')], 'a list that ends in a separator without an expression after it', 'multi_ctr_expr takes a trailing separator out of the rest',
'''use abe::ast::*;
fn main() {
    let v = abe::parse_abe_strict_b(b":a:b").unwrap();
    assert!(multi_ctr_expr(&v, is_colon).1.is_empty());
    let v = abe::parse_abe_strict_b(b":a:b:").unwrap();
    let (e, rest) = multi_ctr_expr(&v, is_colon);
    assert_eq!(e.len(), 2);
    assert_eq!(rest.len(), 1, "the separator is not part of a match");
}
''')

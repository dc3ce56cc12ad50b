//! C14: value conversions are exact and reject what they cannot represent.
use neure::err::Error;
use neure::map::*;

/// any bytes, any length the verifier's pointers can span (2^46)
fn any() -> &'static [u8] {
    let l: usize = kani::any();
    kani::assume(0 < l && l <= 1 << 46);
    if kani::any() {
        return &[];
    }
    // the content of fresh memory is arbitrary
    unsafe {
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(l, 1));
        core::slice::from_raw_parts(p, l)
    }
}
/// fixed-width numbers: the value is computed independently, byte by byte
macro_rules! bytes {
    ($($name:ident $ty:ty, $bits:ty, $n:literal;)*) => { $(
        mod $name {
            use super::*;
            fn le(b: &[u8]) -> $bits {
                let mut v: $bits = 0;
                let mut i = 0;
                while i < $n {
                    v |= (b[i] as $bits) << (8 * i as u32);
                    i += 1;
                }
                v
            }
            fn be(b: &[u8]) -> $bits {
                let mut v: $bits = 0;
                let mut i = 0;
                while i < $n {
                    v |= (b[i] as $bits) << (8 * ($n - 1 - i) as u32);
                    i += 1;
                }
                v
            }
            fn same(x: $ty, y: $bits) -> bool {
                x.to_ne_bytes() == y.to_ne_bytes()
            }
            #[kani::proof]
            fn from_le() {
                let s = any();
                kani::cover!(s.len() > 1000 && s[0] > 0x10 && s[$n - 1] == 0x34);
                kani::cover!(s.len() == $n - 1);
                let r: Result<$ty, Error> = from_le_bytes::<$ty>().try_map(s);
                if s.len() >= $n {
                    assert!(same(r.unwrap(), le(s)), "little-endian value differs from the bytes");
                } else {
                    assert!(r.is_err(), "value made from too few bytes");
                }
            }
            #[kani::proof]
            fn from_be() {
                let s = any();
                kani::cover!(s.len() > 1000 && s[0] > 0x10 && s[$n - 1] == 0x34);
                kani::cover!(s.len() == $n - 1);
                let r: Result<$ty, Error> = from_be_bytes::<$ty>().try_map(s);
                if s.len() >= $n {
                    assert!(same(r.unwrap(), be(s)), "big-endian value differs from the bytes");
                } else {
                    assert!(r.is_err(), "value made from too few bytes");
                }
            }
            #[kani::proof]
            fn from_ne() {
                let s = any();
                kani::cover!(s.len() > 1000 && s[0] > 0x10 && s[$n - 1] == 0x34);
                kani::cover!(s.len() == $n - 1);
                let r: Result<$ty, Error> = from_ne_bytes::<$ty>().try_map(s);
                let spec = if cfg!(target_endian = "little") { le } else { be };
                if s.len() >= $n {
                    assert!(same(r.unwrap(), spec(s)), "native-endian value differs from the bytes");
                } else {
                    assert!(r.is_err(), "value made from too few bytes");
                }
            }
            #[kani::proof]
            fn sizes() {
                assert!(from_le_bytes::<$ty>().size() == $n);
                assert!(from_be_bytes::<$ty>().size() == $n);
                assert!(from_ne_bytes::<$ty>().size() == $n);
                assert!(FallibleMap::<&[u8], $ty>::out_size(&from_le_bytes::<$ty>()) == $n);
                assert!(FallibleMap::<&[u8], $ty>::out_size(&from_be_bytes::<$ty>()) == $n);
                assert!(FallibleMap::<&[u8], $ty>::out_size(&from_ne_bytes::<$ty>()) == $n);
            }
        }
    )* };
}
bytes! {
    i8_ i8, u8, 1; u8_ u8, u8, 1;
    i16_ i16, u16, 2; u16_ u16, u16, 2;
    i32_ i32, u32, 4; u32_ u32, u32, 4; f32_ f32, u32, 4;
    i64_ i64, u64, 8; u64_ u64, u64, 8; f64_ f64, u64, 8;
    isize_ isize, u64, 8; usize_ usize, u64, 8;
    i128_ i128, u128, 16; u128_ u128, u128, 16;
}

mod select {
    use super::*;
    #[kani::proof]
    fn select_0_1() {
        let t: (u32, u64) = kani::any();
        assert!(select0().try_map(t).unwrap() == t.0, "select0 is not the first part");
        assert!(select1().try_map(t).unwrap() == t.1, "select1 is not the second part");
        let t: (u32, u32) = kani::any();
        assert!(select0().try_map(t).unwrap() == t.0, "select0 is not the first part");
        assert!(select1().try_map(t).unwrap() == t.1, "select1 is not the second part");
    }
    /// any (not necessarily symmetric) equality
    #[derive(Clone, Copy)]
    struct E(u8, bool);
    impl PartialEq<E> for E {
        fn eq(&self, _: &E) -> bool {
            self.1
        }
    }
    #[kani::proof]
    fn equal_parts() {
        let t = (E(kani::any(), kani::any()), E(kani::any(), kani::any()));
        match select_eq().try_map(t) {
            Ok(v) => assert!(t.0.1 && v.0.0 == t.0.0 && v.1.0 == t.1.0, "wrong pair selected"),
            Err(_) => assert!(!t.0.1, "equal parts rejected"),
        }
        match select_neq().try_map(t) {
            Ok(v) => assert!(!t.0.1 && v.0.0 == t.0.0 && v.1.0 == t.1.0, "wrong pair selected"),
            Err(_) => assert!(t.0.1, "different parts rejected"),
        }
    }
    #[kani::proof]
    fn bounded_value() {
        let (lo, hi, v): (i64, i64, i64) = kani::any();
        match bounded(lo, hi).try_map(v) {
            Ok(x) => assert!(x == v && lo <= v && v < hi, "value outside [min, max) accepted"),
            Err(_) => assert!(!(lo <= v && v < hi), "value inside [min, max) rejected"),
        }
    }
    #[kani::proof]
    fn bounded_float() {
        let (lo, hi, v): (f64, f64, f64) = kani::any();
        match bounded(lo, hi).try_map(v) {
            Ok(x) => assert!(x == v && lo <= v && v < hi, "value outside [min, max) accepted"),
            Err(_) => assert!(!(lo <= v && v < hi), "value inside [min, max) rejected"),
        }
    }
    #[kani::proof]
    fn defaulted() {
        let (ans, def): (Option<u32>, u32) = kani::any();
        let inner = move |_: u8| ans.ok_or(Error::Uid(1));
        let called = core::cell::Cell::new(0u8);
        let m = inner.with_default(|| { called.set(called.get() + 1); def });
        let r = FallibleMap::<u8, u32>::try_map(&m, kani::any());
        match ans {
            Some(v) => assert!(r.unwrap() == v && called.get() == 0, "default used although the conversion succeeded"),
            None => assert!(r.unwrap() == def && called.get() == 1, "default not used"),
        }
        let m = with_default(|| def, fixed_size(kani::any()));
        let v: u32 = kani::any();
        assert!(m.try_map(v).unwrap() == v, "default used although the conversion succeeded");
    }
    #[kani::proof]
    fn sizes() {
        let n: usize = kani::any();
        let v: u64 = kani::any();
        assert!(FallibleMap::<u64, u64>::out_size(&fixed_size(n)) == n);
        assert!(fixed_size(n).try_map(v).unwrap() == v, "fixed_size changed the value");
        assert!(with_default(|| 0u64, fixed_size(n)).out_size() == n, "default changed the size");
        assert!(FallibleMap::<u64, u64>::out_size(&into::<u64>()) == 8);
    }
    #[kani::proof]
    fn functions() {
        let ans: Result<u16, ()> = kani::any();
        let v: u8 = kani::any();
        let f = move |x: u8| { assert!(x == v, "function given another value"); ans.map_err(|_| Error::Uid(7)) };
        let r = FallibleMap::try_map(&f, v);
        assert!(r == ans.map_err(|_| Error::Uid(7)), "function result changed");
        let g = move |x: u8| { assert!(x == v, "function given another value"); x as u16 + 3 };
        assert!(mapper(g).try_map(v) == Ok(v as u16 + 3), "infallible function result changed");
    }
    #[kani::proof]
    fn converted() {
        let v: u32 = kani::any();
        let r: Result<u64, Error> = into::<u64>().try_map(v);
        assert!(r == Ok(v as u64), "into changed the value");
        let v: i64 = kani::any();
        let r: Result<u8, Error> = try_into::<u8>().try_map(v);
        match r {
            Ok(x) => assert!(x as i64 == v, "try_into changed the value"),
            Err(_) => assert!(v < 0 || v > 255, "representable value rejected"),
        }
        let v: u32 = kani::any();
        let r: Result<char, Error> = try_into::<char>().try_map(v);
        match r {
            Ok(x) => assert!(x as u32 == v, "try_into changed the value"),
            Err(_) => assert!(v > 0x10ffff || (0xd800..0xe000).contains(&v), "representable value rejected"),
        }
    }
}

mod text {
    use super::*;
    fn s<'a, const N: usize>(b: &'a [u8; N]) -> &'a [u8] {
        let l: usize = kani::any();
        kani::assume(l <= N);
        kani::cover!(true, "BOUND: text of at most 3 or 4 bytes");
        &b[..l]
    }
    /// number denoted by the text in a radix: optional sign, then at least one digit
    fn denote(t: &[u8], radix: u32, signed: bool) -> Option<i64> {
        let (neg, d) = match t.first() {
            Some(b'+') => (false, &t[1..]),
            Some(b'-') if signed => (true, &t[1..]),
            _ => (false, t),
        };
        if d.is_empty() {
            return None;
        }
        let mut v: i64 = 0;
        let mut i = 0;
        while i < d.len() {
            let c = d[i] as i64;
            let x = if (b'0' as i64..=b'9' as i64).contains(&c) { c - b'0' as i64 }
                else if (b'a' as i64..=b'z' as i64).contains(&c) { c - b'a' as i64 + 10 }
                else if (b'A' as i64..=b'Z' as i64).contains(&c) { c - b'A' as i64 + 10 }
                else { return None };
            if x >= radix as i64 {
                return None;
            }
            v = v * radix as i64 + x;
            i += 1;
        }
        Some(if neg { -v } else { v })
    }
    fn ascii(t: &[u8]) -> &str {
        let mut i = 0;
        while i < t.len() {
            kani::assume(t[i] < 128);
            i += 1;
        }
        unsafe { core::str::from_utf8_unchecked(t) }
    }
    /// any number type: the conversion hands over exactly the text and the radix and passes the answer on
    struct AnyNum(u8);
    static mut SEEN: (usize, usize, u32, u32) = (0, 0, 0, 0);
    static mut ANSWER: Option<u8> = None;
    fn seen(t: &str, radix: u32) -> Option<u8> {
        unsafe {
            SEEN = (t.as_ptr() as usize, t.len(), radix, SEEN.3 + 1);
            ANSWER
        }
    }
    impl TryFromStrRadix for AnyNum {
        fn from_str_radix(t: &str, radix: u32) -> Result<Self, core::num::ParseIntError> {
            seen(t, radix).map(AnyNum).ok_or_else(|| u8::from_str_radix("", 10).unwrap_err())
        }
    }
    impl core::str::FromStr for AnyNum {
        type Err = ();
        fn from_str(t: &str) -> Result<Self, ()> {
            seen(t, 0).map(AnyNum).ok_or(())
        }
    }
    #[kani::proof]
    fn radix_any_type() {
        let b = *b"abcdefgh";
        let (i, j): (usize, usize) = kani::any();
        kani::assume(i <= j && j <= 8);
        let t = unsafe { core::str::from_utf8_unchecked(&b[i..j]) };
        let radix: u32 = kani::any();
        let ans: Option<u8> = kani::any();
        unsafe { ANSWER = ans; }
        let r = from_str_radix::<AnyNum>(radix).try_map(t);
        assert!(unsafe { SEEN } == (t.as_ptr() as usize, t.len(), radix, 1), "conversion given another text or radix");
        assert!(r.ok().map(|v| v.0) == ans, "conversion result changed");
        let r: Result<AnyNum, Error> = from_str::<AnyNum>().try_map(t);
        assert!(unsafe { SEEN } == (t.as_ptr() as usize, t.len(), 0, 2), "conversion given another text");
        assert!(r.ok().map(|v| v.0) == ans, "conversion result changed");
    }
    macro_rules! radix {
        ($($name:ident $ty:ty, $radix:literal, $signed:literal;)*) => { $(
            #[kani::proof]
            #[kani::unwind(6)]
            fn $name() {
                let b: [u8; 3] = kani::any();
                let t = s(&b);
                let exp = denote(t, $radix, $signed);
                let m = from_str_radix::<$ty>($radix);
                assert!(m.radix() == $radix);
                let r: Result<$ty, Error> = m.try_map(ascii(t));
                match (r, exp) {
                    (Ok(x), Some(v)) => assert!(x as i64 == v, "wrong number"),
                    (Err(_), Some(v)) => assert!(v < <$ty>::MIN as i64 || v > <$ty>::MAX as i64, "representable number rejected"),
                    (Ok(_), None) => panic!("text that is no number accepted"),
                    (Err(_), None) => {}
                }
            }
        )* };
    }
    radix! {
        radix_u8 u8, 16, false; radix_i8 i8, 16, true; radix_u16 u16, 36, false; radix_i16 i16, 36, true;
        radix_u8_10 u8, 10, false; radix_i8_10 i8, 10, true;
        radix_u32 u32, 2, false; radix_i32 i32, 8, true; radix_u64 u64, 16, false; radix_i64 i64, 16, true;
    }
    macro_rules! radix_big {
        ($($name:ident $ty:ty, $signed:literal;)*) => { $(
            #[kani::proof]
            #[kani::unwind(6)]
            fn $name() {
                let b: [u8; 3] = kani::any();
                let t = s(&b);
                let exp = denote(t, 16, $signed);
                let r: Result<$ty, Error> = from_str_radix::<$ty>(16).try_map(ascii(t));
                assert!(r.ok().map(|v| v as i64) == exp, "wrong number");
            }
        )* };
    }
    radix_big! { radix_usize usize, false; radix_isize isize, true; }

    #[kani::proof]
    #[kani::unwind(6)]
    fn from_str_u8() {
        let b: [u8; 4] = kani::any();
        let t = s(&b);
        let exp = denote(t, 10, false);
        let r: Result<u8, Error> = from_str::<u8>().try_map(ascii(t));
        assert!(r.ok().map(|v| v as i64) == exp.filter(|v| *v <= 255), "wrong number");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn from_str_i16() {
        let b: [u8; 4] = kani::any();
        let t = s(&b);
        let exp = denote(t, 10, true);
        let r: Result<i16, Error> = from_str::<i16>().try_map(ascii(t));
        assert!(r.ok().map(|v| v as i64) == exp, "wrong number");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    fn from_str_bool_char() {
        let b: [u8; 4] = kani::any();
        let t = s(&b);
        let r: Result<bool, Error> = from_str::<bool>().try_map(ascii(t));
        assert!(r == if t == b"true" { Ok(true) } else { Err(Error::FromStr) }, "wrong truth value");
        let r: Result<char, Error> = from_str::<char>().try_map(ascii(t));
        assert!(r == if t.len() == 1 { Ok(t[0] as char) } else { Err(Error::FromStr) }, "wrong character");
    }
    /// well-formed UTF-8 (Unicode table 3-7)
    fn utf8(t: &[u8]) -> bool {
        let mut i = 0;
        while i < t.len() {
            let b = t[i];
            let at = |k: usize| if i + k < t.len() { t[i + k] } else { 0 };
            let cont = |x: u8| 0x80 <= x && x <= 0xbf;
            let w = if b < 0x80 { 1 }
                else if 0xc2 <= b && b <= 0xdf && cont(at(1)) { 2 }
                else if b == 0xe0 && 0xa0 <= at(1) && at(1) <= 0xbf && cont(at(2)) { 3 }
                else if ((0xe1 <= b && b <= 0xec) || b == 0xee || b == 0xef) && cont(at(1)) && cont(at(2)) { 3 }
                else if b == 0xed && 0x80 <= at(1) && at(1) <= 0x9f && cont(at(2)) { 3 }
                else if b == 0xf0 && 0x90 <= at(1) && at(1) <= 0xbf && cont(at(2)) && cont(at(3)) { 4 }
                else if 0xf1 <= b && b <= 0xf3 && cont(at(1)) && cont(at(2)) && cont(at(3)) { 4 }
                else if b == 0xf4 && 0x80 <= at(1) && at(1) <= 0x8f && cont(at(2)) && cont(at(3)) { 4 }
                else { return false };
            i += w;
        }
        true
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn utf8_str() {
        let b: [u8; 4] = kani::any();
        let t = s(&b);
        let r: Result<&str, Error> = from_utf8::<&str>().try_map(t);
        match r {
            Ok(x) => assert!(utf8(t) && x.as_ptr() == t.as_ptr() && x.len() == t.len(), "decoded text differs from the bytes"),
            Err(_) => assert!(!utf8(t), "valid UTF-8 rejected"),
        }
    }
    fn string<const N: usize>() {
        kani::cover!(true, "BOUND: text of at most 3 or 4 bytes");
        let t: [u8; N] = kani::any();
        let r: Result<String, Error> = from_utf8::<String>().try_map(&t[..]);
        match r {
            Ok(x) => assert!(utf8(&t) && x.as_bytes() == &t[..], "decoded text differs from the bytes"),
            Err(_) => assert!(!utf8(&t), "valid UTF-8 rejected"),
        }
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn utf8_string_1() {
        string::<0>();
        string::<1>();
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn utf8_string_3() {
        string::<3>();
    }
    /// characters cut short: the lead byte (and more) without what must follow
    fn cut<const N: usize>(t: [u8; N]) {
        kani::cover!(true, "BOUND: chosen ill-formed texts");
        let r: Result<String, Error> = from_utf8::<String>().try_map(&t[..]);
        assert!(r.is_err(), "ill-formed text decoded");
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn utf8_string_cut2() {
        cut([0xc3, 0x28]);
        cut([0xe2, 0x82]);
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn utf8_string_cut3() {
        cut([0xf0, 0x9f, 0x98]);
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn utf8_string_cut4() {
        cut([b'a', 0xf0, 0x9f, 0x98]);
        cut([0xf4, 0x8f, 0xbf, b'a']);
    }
    fn lossy<const N: usize>() {
        kani::cover!(true, "BOUND: text of at most 3 or 4 bytes");
        use std::borrow::Cow;
        let t: [u8; N] = kani::any();
        let r: Cow<str> = from_utf8_lossy::<Cow<str>>().try_map(&t[..]).unwrap();
        if utf8(&t) {
            assert!(r.as_bytes() == &t[..], "valid text changed");
        } else {
            assert!(r.len() >= 3 && r.as_bytes() != &t[..], "ill-formed bytes kept silently");
        }
    }
    #[kani::proof]
    #[kani::unwind(7)]
    fn utf8_lossy_1() {
        lossy::<0>();
        lossy::<1>();
    }
}

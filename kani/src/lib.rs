//! Kani harnesses: the contracts that prelude.rs assumes of core and zerocopy functions, checked against the real functions.
//! "complete": all inputs (the domain is finite and fully symbolic). "bounded": slices up to the stated length.
#![allow(dead_code)]
#[cfg(kani)]
mod h {
    use zerocopy::byteorder::little_endian::{I32, U16, U32, U64};
    use zerocopy::{FromBytes, Immutable, KnownLayout, Ref, Unaligned, IntoBytes};
    use core::cmp::Ordering;
    fn le(b: &[u8]) -> u64 { let mut r = 0; let mut i = b.len(); while i > 0 { i -= 1; r = r * 256 + b[i] as u64; } r }

    // complete
    #[kani::proof] fn le16() { let b: [u8; 2] = kani::any(); assert!(u16::from_le_bytes(b) as u64 == b[0] as u64 + 256 * b[1] as u64); assert!(U16::from_bytes(b).get() == u16::from_le_bytes(b)); }
    #[kani::proof] #[kani::unwind(6)] fn le32() { let b: [u8; 4] = kani::any(); assert!(u32::from_le_bytes(b) as u64 == le(&b)); assert!(U32::from_bytes(b).get() == u32::from_le_bytes(b)); assert!(I32::from_bytes(b).get() == u32::from_le_bytes(b) as i32);
        let r = [b[3], b[2], b[1], b[0]]; assert!(u32::from_be_bytes(b) as u64 == le(&r)); }
    #[kani::proof] #[kani::unwind(10)] fn le64() { let b: [u8; 8] = kani::any(); assert!(u64::from_le_bytes(b) == le(&b)); assert!(U64::from_bytes(b).get() == u64::from_le_bytes(b)); }
    #[kani::proof] fn set32() { let mut x = U32::from_bytes(kani::any()); let v: u32 = kani::any(); x.set(v); assert!(x.get() == v); let b: &[u8] = x.as_bytes(); assert!(b.len() == 4 && b[0] as u32 == v % 256 && b[3] as u32 == v / 0x100_0000); }
    #[kani::proof] fn unchecked() { let x: u32 = kani::any(); kani::assume(x < 0xd800 || (0xe000 <= x && x < 0x11_0000)); assert!(unsafe { char::from_u32_unchecked(x) } as u32 == x); }
    #[kani::proof] fn from_u32() { let x: u32 = kani::any(); match char::from_u32(x) { Some(c) => assert!(c as u32 == x && (x < 0xd800 || (0xe000 <= x && x < 0x11_0000))), None => assert!(!(x < 0xd800 || (0xe000 <= x && x < 0x11_0000))) } }
    #[kani::proof] #[kani::unwind(4)] fn encode() { let c: char = kani::any(); let mut b = [0u16; 2]; let n = c.encode_utf16(&mut b).len(); let x = c as u32;
        if x < 0x1_0000 { assert!(n == 1 && b[0] as u32 == x) } else { assert!(n == 2 && b[0] as u32 == 0xd800 + (x - 0x1_0000) / 0x400 && b[1] as u32 == 0xdc00 + (x - 0x1_0000) % 0x400) } }
    #[kani::proof] fn i32_ops() { let x: i32 = kani::any();
        assert!(x.wrapping_neg() as i64 == if x == i32::MIN { x as i64 } else { -(x as i64) });
        assert!(x.checked_neg() == if x == i32::MIN { None } else { Some(-x) });
        assert!(x.unsigned_abs() as i64 == (x as i64).abs());
        assert!(x.wrapping_abs() as i64 == if x == i32::MIN { x as i64 } else { (x as i64).abs() });
        assert!(x.checked_abs().map(|v| v as i64) == if x == i32::MIN { None } else { Some((x as i64).abs()) });
        assert!(x.saturating_neg() as i64 == if x == i32::MIN { i32::MAX as i64 } else { -(x as i64) });
        assert!(x.is_negative() == (x < 0) && x.is_positive() == (x > 0));
        assert!(x.cast_unsigned() as i64 == if x < 0 { x as i64 + 0x1_0000_0000 } else { x as i64 });
        let u: u32 = kani::any(); assert!(u.cast_signed() as i64 == if u >= 0x8000_0000 { u as i64 - 0x1_0000_0000 } else { u as i64 }); }
    #[kani::proof] fn usize_ops() { let x: usize = kani::any(); let y: usize = kani::any();
        assert!(x.abs_diff(y) == if x < y { y - x } else { x - y });
        let (s, o) = x.overflowing_add(y); assert!(o == (x as u128 + y as u128 > usize::MAX as u128) && s as u128 == (x as u128 + y as u128) % (1u128 << 64));
        let (s, o) = x.overflowing_sub(y); assert!(o == (x < y) && s as u128 == if x < y { x as u128 + (1u128 << 64) - y as u128 } else { (x - y) as u128 }); }
    #[kani::proof] fn ordering() { let o: Ordering = match kani::any::<u8>() % 3 { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater };
        assert!(o.is_eq() == (o == Ordering::Equal) && o.is_ne() == (o != Ordering::Equal) && o.is_lt() == (o == Ordering::Less) && o.is_gt() == (o == Ordering::Greater) && o.is_le() == (o != Ordering::Greater) && o.is_ge() == (o != Ordering::Less));
        assert!(o.reverse() == match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }); }

    // bounded: slices of up to 12 bytes
    #[derive(FromBytes, IntoBytes, Immutable, KnownLayout, Unaligned)] #[repr(packed)] struct Two { a: U16, b: I32 }
    #[kani::proof] #[kani::unwind(8)] fn ref_from_bytes() { let buf: [u8; 12] = kani::any(); let n: usize = kani::any(); kani::assume(n <= 12); let s = &buf[..n];
        match Ref::<&[u8], Two>::from_bytes(s) { Ok(r) => { assert!(n == 6); let a = r.a; let b = r.b; assert!(a.get() as u64 == le(&buf[0..2]) && b.get() as u32 as u64 == le(&buf[2..6])); assert!(Ref::bytes(&r).as_ptr() == s.as_ptr()); } Err(_) => assert!(n != 6) } }
    #[kani::proof] #[kani::unwind(8)] fn ref_from_prefix() { let buf: [u8; 12] = kani::any(); let n: usize = kani::any(); kani::assume(n <= 12); let s = &buf[..n];
        match Ref::<&[u8], Two>::from_prefix(s) { Ok((r, t)) => { assert!(n >= 6 && t.len() == n - 6 && t.as_ptr() as usize == s.as_ptr() as usize + 6); let b = r.b; assert!(b.get() as u32 as u64 == le(&buf[2..6])); } Err(_) => assert!(n < 6) } }
    #[kani::proof] #[kani::unwind(14)] fn ref_mut() { let mut buf: [u8; 12] = kani::any(); let old = buf; let v: i32 = kani::any();
        match Ref::<&mut [u8], Two>::from_bytes(&mut buf[3..9]) { Ok(mut r) => { r.b = I32::new(v); } Err(_) => assert!(false) }
        let mut i = 0; while i < 12 { assert!(i >= 5 && i < 9 || buf[i] == old[i]); i += 1; if i == 5 { i = 9; } } assert!(le(&buf[5..9]) as u32 as i32 == v); }
    #[kani::proof] fn try_into_arr() { let buf: [u8; 12] = kani::any(); let n: usize = kani::any(); kani::assume(n <= 12);
        let r: Result<[u8; 4], _> = buf[..n].try_into(); match r { Ok(a) => assert!(n == 4 && a[0] == buf[0] && a[3] == buf[3] && a[1] == buf[1] && a[2] == buf[2]), Err(_) => assert!(n != 4) } }
    #[kani::proof] #[kani::unwind(14)] fn beq() { let buf: [u8; 12] = kani::any(); let n: usize = kani::any(); kani::assume(n <= 12); let o: [u8; 2] = kani::any();
        assert!((buf[..n] == o[..]) == (n == 2 && buf[0] == o[0] && buf[1] == o[1])); }
}

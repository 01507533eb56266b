#prelude
#fn <Utf16ToString:&[u8]>::utf16_to_string
ensures match r { Ok(x) => crate::ext::utf16(crate::ext::upto_nul(crate::ext::u16s(self@))) == Some(x@), Err(_) => crate::ext::utf16(crate::ext::upto_nul(crate::ext::u16s(self@))) is None }
#loop 0
    invariant __out0@.len() == __k0, __src0@.len() == self@.len() / 2, forall|i: int| 0 <= i < __src0@.len() ==> (#[trigger] __src0@[i])@ == self@.subrange(i * 2, (i + 1) * 2), forall|i: int| 0 <= i < __k0 ==> #[trigger] __out0@[i] == crate::ext::le16(self@.subrange(2 * i, 2 * i + 2)),
#after 0
    assert(__out0@ =~= crate::ext::u16s(self@));

#prelude
impl<'a> Reader<'a> {
    /// the bytes not read yet
    pub open spec fn rem(&self) -> Seq<u8> { self.0@ }
}
/// `r` is what reading `n` bytes as the value `v` leaves behind / reports
pub open spec fn rd<T>(r: Result<T>, s0: Seq<u8>, s1: Seq<u8>, n: int, v: T) -> bool {
    match r { Ok(x) => s0.len() >= n && x == v && s1 == crate::ext::adv(s0, n), Err(_) => s0.len() < n && s1 == s0 }
}
#fn Reader::new
ensures r.rem() == data@
#fn Reader::read
ensures
    match r { Ok(x) => old(self).rem().len() >= cnt && x@ == old(self).rem().take(cnt as int) && final(self).rem() == old(self).rem().skip(cnt as int),
              Err(_) => old(self).rem().len() < cnt && final(self).rem() == old(self).rem() }
#fn Reader::bytes
ensures r@ == self.rem()
#fn Reader::remaining
ensures r == self.rem().len()
#fn Reader::advance
ensures rd(r, old(self).rem(), final(self).rem(), cnt as int, ())
#fn Reader::get_u8
ensures rd(r, old(self).rem(), final(self).rem(), 1, old(self).rem()[0])
#fn Reader::get_u16
ensures rd(r, old(self).rem(), final(self).rem(), 2, crate::ext::le16(old(self).rem()))
#fn Reader::get_u32
ensures rd(r, old(self).rem(), final(self).rem(), 4, crate::ext::le32(old(self).rem()))
#fn Reader::get_u64
ensures rd(r, old(self).rem(), final(self).rem(), 8, crate::ext::le64(old(self).rem()))
#fn Reader::get_u128
ensures rd(r, old(self).rem(), final(self).rem(), 16, crate::ext::le128(old(self).rem()))
#fn Reader::get_f32
ensures rd(r, old(self).rem(), final(self).rem(), 4, crate::ext::f32_bits(crate::ext::le32(old(self).rem())))

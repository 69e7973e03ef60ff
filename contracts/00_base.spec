@@item
// ======== the hive format, as mathematics over the hive data `d` (the bytes behind the base block) ========
pub open spec fn wrap_off(x: int) -> int { if x + 4096 > usize::MAX { usize::MAX as int } else { x + 4096 } }
/// An error, with everything it tells: offset, what was required or specified, what was found or available
#[verifier::ext_equal]
pub enum Er { Head(int, int, int), Sig(int, Seq<u8>, Seq<u8>), Data(int, int, int), Size(int, int, int), Align(int, int, int), Free(int, int), Code(int, int), Type(Seq<KeyValueDataType>, KeyValueDataType), Base(int, int, int) }
impl Er {
    /// the offset it carries
    pub open spec fn off(self) -> Option<int> {
        match self { Er::Head(o, _, _) => Some(o), Er::Sig(o, _, _) => Some(o), Er::Data(o, _, _) => Some(o), Er::Size(o, _, _) => Some(o), Er::Align(o, _, _) => Some(o), Er::Free(o, _) => Some(o), Er::Code(o, _) => Some(o), _ => None }
    }
}
pub open spec fn sat(x: int) -> int { if x > usize::MAX { usize::MAX as int } else { x } }
/// Outcome of locating a structure: its cell contents [start, end), or the error
#[verifier::ext_equal]
pub enum Res { Ok(int, int), Err(Er) }
pub open spec fn res_ok(r: Res) -> bool { r is Ok }
/// C03: the cell at data offset `off`
pub open spec fn cell(d: Seq<u8>, off: int) -> Res {
    if off < 0 || off + 4 > d.len() { Res::Err(Er::Head(wrap_off(off), 4, if off > d.len() { 0 } else { d.len() - off })) }
    else {
        let s = le_i32(d, off) as int;
        if s > 0 { Res::Err(Er::Free(wrap_off(off), s)) }
        else if (-s) % 8 != 0 { Res::Err(Er::Align(wrap_off(off), -s, 8)) }
        else if -s < 4 { Res::Err(Er::Size(wrap_off(off), 4, -s)) }
        else if off + (-s) > d.len() { Res::Err(Er::Size(wrap_off(off), -s - 4, d.len() - (off + 4))) }
        else { Res::Ok(off + 4, off + (-s)) }
    }
}
/// a structure with header size `n` and a two-byte signature inside a cell
pub open spec fn sig2(d: Seq<u8>, s: int) -> Seq<u8> { d.subrange(s, s + 2) }
pub open spec fn key_in(d: Seq<u8>, c: Res) -> Res {
    match c { Res::Err(o) => Res::Err(o), Res::Ok(s, e) => if s + 76 > e { Res::Err(Er::Head(wrap_off(s), 76, e - s)) } else if sig2(d, s) != seq![0x6eu8, 0x6bu8] { Res::Err(Er::Sig(wrap_off(s), seq![0x6eu8, 0x6bu8], sig2(d, s))) } else { Res::Ok(s, e) } }
}
pub open spec fn key_at(d: Seq<u8>, off: int) -> Res { key_in(d, cell(d, off)) }
pub open spec fn value_in(d: Seq<u8>, c: Res) -> Res {
    match c { Res::Err(o) => Res::Err(o), Res::Ok(s, e) => if s + 20 > e { Res::Err(Er::Head(wrap_off(s), 20, e - s)) } else if sig2(d, s) != seq![0x76u8, 0x6bu8] { Res::Err(Er::Sig(wrap_off(s), seq![0x76u8, 0x6bu8], sig2(d, s))) } else { Res::Ok(s, e) } }
}
pub open spec fn value_at(d: Seq<u8>, off: int) -> Res { value_in(d, cell(d, off)) }
pub open spec fn rlen(r: Range<usize>) -> int { if r.start <= r.end { r.end - r.start } else { 0 } }
pub open spec fn items(r: Range<usize>, sz: int) -> int { rlen(r) / sz }
pub open spec fn in_data(r: Range<usize>, d: Seq<u8>) -> bool { r.start <= r.end <= d.len() }
/// outcome of a function that returns a byte range
pub open spec fn is_range(r: Result<Range<usize>>, x: Res) -> bool {
    match (r, x) { (Ok(a), Res::Ok(s, e)) => a.start == s && a.end == e, (Err(_), Res::Err(_)) => true, _ => false }
}
/// `error.into()` where the error type does not change
impl PInto<NtHiveError> for NtHiveError { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: NtHiveError) -> bool { r == self } fn p_into(self) -> (r: NtHiveError) { self } }
/// what an error tells
pub open spec fn err_of(e: NtHiveError) -> Er {
    match e {
        NtHiveError::InvalidDataSize { offset, expected, actual } => Er::Data(offset as int, expected as int, actual as int),
        NtHiveError::InvalidFourByteSignature { offset, expected, actual } => Er::Sig(offset as int, expected@, actual@),
        NtHiveError::InvalidHeaderSize { offset, expected, actual } => Er::Head(offset as int, expected as int, actual as int),
        NtHiveError::InvalidSizeField { offset, expected, actual } => Er::Size(offset as int, expected as int, actual as int),
        NtHiveError::InvalidSizeFieldAlignment { offset, size, expected_alignment } => Er::Align(offset as int, size as int, expected_alignment as int),
        NtHiveError::InvalidTwoByteSignature { offset, expected, actual } => Er::Sig(offset as int, expected@, actual@),
        NtHiveError::UnallocatedCell { offset, size } => Er::Free(offset as int, size as int),
        NtHiveError::UnsupportedKeyValueDataType { offset, actual } => Er::Code(offset as int, actual as int),
        NtHiveError::InvalidKeyValueDataType { expected, actual } => Er::Type(expected@, actual),
        NtHiveError::SequenceNumberMismatch { primary, secondary } => Er::Base(2, primary as int, secondary as int),
        NtHiveError::UnsupportedVersion { major, minor } => Er::Base(3, major as int, minor as int),
        NtHiveError::UnsupportedFileType { expected, actual } => Er::Base(4, expected as int, actual as int),
        NtHiveError::UnsupportedFileFormat { expected, actual } => Er::Base(5, expected as int, actual as int),
        NtHiveError::UnsupportedClusteringFactor { expected, actual } => Er::Base(8, expected as int, actual as int),
        NtHiveError::InvalidChecksum { expected, actual } => Er::Base(9, expected as int, actual as int),
    }
}
/// C14: an error carries the offset of what is wrong
pub open spec fn off_ok<T>(r: Result<T>, x: Res) -> bool { r is Err && x is Err ==> err_of(r->Err_0).off() == x->Err_0.off() }
pub open spec fn off_is<T>(r: Result<T>, o: int) -> bool { r is Err ==> err_of(r->Err_0).off() == Some(o) }
/// C17: an error tells what is wrong
pub open spec fn err_ok<T>(r: Result<T>, x: Res) -> bool { r is Err && x is Err ==> err_of(r->Err_0) =~= x->Err_0 }
pub open spec fn err_is<T>(r: Result<T>, e: Er) -> bool { r is Err ==> err_of(r->Err_0) =~= e }

pub broadcast proof fn lemma_cat_first<A>(a: Seq<A>, b: Seq<A>) requires a.len() > 0 ensures #[trigger] (a + b).drop_first() == a.drop_first() + b, (a + b)[0] == a[0] { assert((a + b).drop_first() =~= a.drop_first() + b); }
pub broadcast proof fn lemma_cat_empty<A>(a: Seq<A>, b: Seq<A>) ensures a.len() == 0 ==> #[trigger] (a + b) == b, b.len() == 0 ==> a + b == a { if a.len() == 0 { assert(a + b =~= b); } if b.len() == 0 { assert(a + b =~= a); } }

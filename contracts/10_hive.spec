@@fn byte_subrange
    ensures
        ret is Some <==> range.start + byte_count <= usize::MAX && range.start + byte_count <= range.end, //[C03,C04,C08,C09,C15]
        ret is Some ==> ret->Some_0.start == range.start && ret->Some_0.end == range.start + byte_count, //[C03,C04,C08,C09,C15]

@@item
/*@FN lemma C02 the known minor versions have their documented numbers*/
pub proof fn lemma_minor_versions(v: u32)
    ensures HiveMinorVersion::from_code(v) == (match v {
        0 => Some(HiveMinorVersion::WindowsNT3_1Beta), 1 => Some(HiveMinorVersion::WindowsNT3_1), 2 => Some(HiveMinorVersion::WindowsNT3_5),
        3 => Some(HiveMinorVersion::WindowsNT4), 4 => Some(HiveMinorVersion::WindowsXPBeta), 5 => Some(HiveMinorVersion::WindowsXP),
        6 => Some(HiveMinorVersion::WindowsVista), _ => None::<HiveMinorVersion> }), //[C02]
{ }
/*@END*/
impl<B: SplitByteSlice> ObjId for Hive<B> { open spec fn oid(&self) -> int { self.data.id() } }
impl<B: SplitByteSlice> Hive<B> {
    pub open spec fn wf(&self) -> bool {
        &&& self.data@.len() + 4096 <= isize::MAX
        &&& self.base_block.pos() == 0
        &&& self.base_block.raw().len() == 4096
        &&& self.base_block.val() == HiveBaseBlock::parse(self.base_block.raw())
    }
    pub open spec fn d(&self) -> Seq<u8> { self.data@ }
    pub open spec fn minor(&self) -> u32 { self.base_block.val().minor_version.v }
    pub open spec fn root(&self) -> Res { key_at(self.data@, self.base_block.val().root_cell_offset.v as int) }
}
pub uninterp spec fn field_offset<B: SplitByteSlice, T: ?Sized>(h: &Hive<B>, f: &T) -> usize;
/// XOR of the dwords of b
pub open spec fn xor_dwords(b: Seq<u8>, n: int) -> u32 decreases n { if n <= 0 { 0 } else { xor_dwords(b, n - 1) ^ le32(b, 4 * (n - 1)) } }
pub open spec fn checksum(b: Seq<u8>) -> u32 { let x = xor_dwords(b, 127); if x == 0 { 1 } else if x == 0xffff_ffff { 0xffff_fffe } else { x } }
/// C02: which condition of the base block `b` fails first (0: none), with `n` bytes of hive data behind it
pub open spec fn verdict(b: Seq<u8>, n: int) -> int {
    if b.subrange(0, 4) != seq![0x72u8, 0x65u8, 0x67u8, 0x66u8] { 1 }
    else if le32(b, 4) != le32(b, 8) { 2 }
    else if le32(b, 20) != 1 || le32(b, 24) < 3 { 3 }
    else if le32(b, 28) != 0 { 4 }
    else if le32(b, 32) != 1 { 5 }
    else if le32(b, 40) % 4096 != 0 { 6 }
    else if le32(b, 40) > n { 7 }
    else if le32(b, 44) != 1 { 8 }
    else if le32(b, 508) != checksum(b) { 9 }
    else { 0 }
}
pub open spec fn verdict_of(r: Result<()>) -> int {
    match r { Ok(_) => 0, Err(e) => match e {
        NtHiveError::InvalidFourByteSignature { .. } => 1, NtHiveError::SequenceNumberMismatch { .. } => 2, NtHiveError::UnsupportedVersion { .. } => 3,
        NtHiveError::UnsupportedFileType { .. } => 4, NtHiveError::UnsupportedFileFormat { .. } => 5, NtHiveError::InvalidSizeFieldAlignment { .. } => 6,
        NtHiveError::InvalidSizeField { .. } => 7, NtHiveError::UnsupportedClusteringFactor { .. } => 8, NtHiveError::InvalidChecksum { .. } => 9, _ => 10 } }
}
/// C14: offset of the field an error of `validate` is about
pub open spec fn verdict_off(r: Result<()>) -> bool {
    r is Err ==> match err_of(r->Err_0).off() { Some(o) => o == (if verdict_of(r) == 1 { 0int } else if verdict_of(r) == 6 || verdict_of(r) == 7 { 40int } else { -1int }), None => true }
}
/// C17: what the first condition that fails tells
pub open spec fn base_err(b: Seq<u8>, n: int) -> Er {
    let v = verdict(b, n);
    if v == 1 { Er::Sig(0, seq![0x72u8, 0x65u8, 0x67u8, 0x66u8], b.subrange(0, 4)) } else if v == 2 { Er::Base(2, le32(b, 4) as int, le32(b, 8) as int) } else if v == 3 { Er::Base(3, le32(b, 20) as int, le32(b, 24) as int) }
    else if v == 4 { Er::Base(4, 0, le32(b, 28) as int) } else if v == 5 { Er::Base(5, 1, le32(b, 32) as int) } else if v == 6 { Er::Align(40, le32(b, 40) as int, 4096) } else if v == 7 { Er::Size(40, le32(b, 40) as int, n) }
    else if v == 8 { Er::Base(8, 1, le32(b, 44) as int) } else { Er::Base(9, checksum(b) as int, le32(b, 508) as int) }
}
pub open spec fn open_err(b: Seq<u8>) -> Er { if b.len() < 4096 { Er::Head(0, 4096, b.len() as int) } else { base_err(b.subrange(0, 4096), b.len() - 4096) } }
pub open spec fn unit_err<T>(r: Result<T>) -> Result<()> { match r { Ok(_) => Ok(()), Err(e) => Err(e) } }

@@fn Hive::new
    ensures
        ret is Ok <==> bytes@.len() >= 4096 && verdict(bytes@.subrange(0, 4096), bytes@.len() - 4096) == 0, //[C02]
        ret is Err && bytes@.len() < 4096 ==> ret->Err_0 is InvalidHeaderSize, //[C02]
        ret is Err && bytes@.len() >= 4096 ==> verdict_of(unit_err(ret)) == verdict(bytes@.subrange(0, 4096), bytes@.len() - 4096), //[C02]
        ret is Err && bytes@.len() >= 4096 ==> verdict_off(unit_err(ret)), //[C14]
        ret is Err && bytes@.len() < 4096 ==> off_is(ret, 0), //[C14]
        ret is Err ==> err_of(ret->Err_0) =~= open_err(bytes@), //[C17]
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.base_block.raw() == bytes@.subrange(0, 4096) && ret->Ok_0.data@ == bytes@.subrange(4096, bytes@.len() as int), //[C01,C02,C03]
@@fn Hive::without_validation
    ensures
        ret is Ok <==> bytes@.len() >= 4096, //[C02]
        ret is Err ==> ret->Err_0 is InvalidHeaderSize, //[C02]
        off_is(ret, 0), //[C14]
        err_is(ret, Er::Head(0, 4096, bytes@.len() as int)), //[C17]
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.base_block.raw() == bytes@.subrange(0, 4096) && ret->Ok_0.data@ == bytes@.subrange(4096, bytes@.len() as int), //[C01,C02,C03]
@@fn Hive::cell_range_from_data_offset
    requires self.wf(),
    ensures
        is_range(ret, cell(self.data@, data_offset as int)), //[C03]
        off_ok(ret, cell(self.data@, data_offset as int)), //[C14]
        err_ok(ret, cell(self.data@, data_offset as int)), //[C17]
        ret is Ok ==> in_data(ret->Ok_0, self.data@) && 4 <= ret->Ok_0.start, //[C01]
@entry
    broadcast use lemma_cast_i32;
@@fn Hive::offset_of_field
    ensures ret == field_offset(self, field)
@attr #[verifier::external_body]
@@fn Hive::offset_of_addr
    requires self.base_block.pos() == 0
    ensures ret == field.pos(), //[C14]
@@fn Hive::offset_of_data_offset
    ensures ret == wrap_off(data_offset as int), //[C14]
@@fn Hive::major_version
    requires self.wf()
    ensures ret == le32(self.base_block.raw(), 20), //[C02]
@@fn Hive::minor_version
    requires self.wf()
    ensures ret == le32(self.base_block.raw(), 24), //[C02,C09]
        ret == self.minor(),
@@fn Hive::validate
    requires self.wf()
    ensures verdict_of(ret) == verdict(self.base_block.raw(), self.data@.len() as int), //[C02]
        verdict_off(ret), //[C14]
        err_is(ret, base_err(self.base_block.raw(), self.data@.len() as int)), //[C17]
@@fn Hive::validate_checksum
    requires self.wf()
    ensures ret is Ok <==> le32(self.base_block.raw(), 508) == checksum(self.base_block.raw()), //[C02]
        ret is Err ==> ret->Err_0 is InvalidChecksum, //[C02]
        err_is(ret, Er::Base(9, checksum(self.base_block.raw()) as int, le32(self.base_block.raw(), 508) as int)), //[C17]
@loop 0
    invariant
        self.wf(), checksum_offset == 508, it__0.n == 4,
        0 <= k__ <= 127,
        it__0.s@ == self.base_block.raw().subrange(4 * k__, 508),
        calculated_checksum == xor_dwords(self.base_block.raw(), k__),
    ensures k__ == 127
    decreases 127 - k__
@entry
    let ghost mut k__: int = 0;
@at if calculated_checksum == 0
    assert(k__ == 127);
@at let dword =
    proof { assert(dword_bytes@ =~= self.base_block.raw().subrange(4 * k__, 4 * k__ + 4)); }
@loopend 0
    proof { k__ = k__ + 1; }
@alt
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant
        self.wf(), checksum_offset == 508,
        0 <= $i <= 508, $i % 4 == 0,
        calculated_checksum == xor_dwords(self.base_block.raw(), $i as int / 4),
    decreases 508 - $i
@loopstart 0
    let ghost i__ = $i as int; let ghost b__ = self.base_block.raw();
    proof { assert(b__.subrange(0, 508).subrange(i__, i__ + 4) =~= b__.subrange(i__, i__ + 4)); assert(xor_dwords(b__, i__ / 4 + 1) == xor_dwords(b__, i__ / 4) ^ le32(b__, i__)); }
@alt
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant
        self.wf(), checksum_offset == 508,
        0 <= $i <= 127,
        calculated_checksum == xor_dwords(self.base_block.raw(), $i as int),
    decreases 127 - $i
@loopstart 0
    let ghost i__ = 4 * ($i as int); let ghost b__ = self.base_block.raw();
    proof { assert(b__.subrange(0, 508).subrange(i__, i__ + 4) =~= b__.subrange(i__, i__ + 4)); assert(xor_dwords(b__, i__ / 4 + 1) == xor_dwords(b__, i__ / 4) ^ le32(b__, i__)); }
@alt
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant
        self.wf(), checksum_offset == 508,
        $i@.len() <= 508, $i@.len() % 4 == 0, $i@ == self.base_block.raw().subrange(508 - $i@.len() as int, 508),
        calculated_checksum == xor_dwords(self.base_block.raw(), 127 - $i@.len() as int / 4),
    decreases $i@.len()
@loopstart 0
    let ghost i__ = 508 - $i@.len() as int; let ghost b__ = self.base_block.raw();
    proof { assert(b__.subrange(i__, 508).subrange(0, 4) =~= b__.subrange(i__, i__ + 4)); assert(b__.subrange(i__, 508).subrange(4, 508 - i__) =~= b__.subrange(i__ + 4, 508)); assert(xor_dwords(b__, i__ / 4 + 1) == xor_dwords(b__, i__ / 4) ^ le32(b__, i__)); }
@alt
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant
        self.wf(), checksum_offset == 508, it__0.wf(),
        0 <= k__ <= 127, it__0.rest().len() == 127 - k__,
        forall|j: int| 0 <= j < 127 - k__ ==> (#[trigger] it__0.rest()[j])@ == self.base_block.raw().subrange(4 * (j + k__), 4 * (j + k__) + 4),
        calculated_checksum == xor_dwords(self.base_block.raw(), k__),
    decreases 127 - k__
@preloop 0
    broadcast use axiom_mk_slice;
    proof { let b__ = self.base_block.raw(); assert forall|j: int| 0 <= j < 127 implies b__.subrange(0, 508).subrange(4 * j, 4 * j + 4) =~= #[trigger] b__.subrange(4 * j, 4 * j + 4) by { } }
@loopend 0
    proof { k__ = k__ + 1; }
@@fn Hive::validate_clustering_factor
    requires self.wf()
    ensures ret is Ok <==> le32(self.base_block.raw(), 44) == 1, //[C02]
        ret is Err ==> ret->Err_0 is UnsupportedClusteringFactor, //[C02]
        err_is(ret, Er::Base(8, 1, le32(self.base_block.raw(), 44) as int)), //[C17]
@@fn Hive::validate_data_size
    requires self.wf()
    ensures ret is Ok <==> le32(self.base_block.raw(), 40) % 4096 == 0 && le32(self.base_block.raw(), 40) <= self.data@.len(), //[C02]
        ret is Err ==> (if le32(self.base_block.raw(), 40) % 4096 != 0 { ret->Err_0 is InvalidSizeFieldAlignment } else { ret->Err_0 is InvalidSizeField }), //[C02]
        off_is(ret, 40), //[C14]
        err_is(ret, if le32(self.base_block.raw(), 40) % 4096 != 0 { Er::Align(40, le32(self.base_block.raw(), 40) as int, 4096) } else { Er::Size(40, le32(self.base_block.raw(), 40) as int, self.data@.len() as int) }), //[C17]
@@fn Hive::validate_file_format
    requires self.wf()
    ensures ret is Ok <==> le32(self.base_block.raw(), 32) == 1, //[C02]
        ret is Err ==> ret->Err_0 is UnsupportedFileFormat, //[C02]
        err_is(ret, Er::Base(5, 1, le32(self.base_block.raw(), 32) as int)), //[C17]
@@fn Hive::validate_file_type
    requires self.wf()
    ensures ret is Ok <==> le32(self.base_block.raw(), 28) == 0, //[C02]
        ret is Err ==> ret->Err_0 is UnsupportedFileType, //[C02]
        err_is(ret, Er::Base(4, 0, le32(self.base_block.raw(), 28) as int)), //[C17]
@@fn Hive::validate_sequence_numbers
    requires self.wf()
    ensures ret is Ok <==> le32(self.base_block.raw(), 4) == le32(self.base_block.raw(), 8), //[C02]
        ret is Err ==> ret->Err_0 is SequenceNumberMismatch, //[C02]
        err_is(ret, Er::Base(2, le32(self.base_block.raw(), 4) as int, le32(self.base_block.raw(), 8) as int)), //[C17]
@@fn Hive::validate_signature
    requires self.wf()
    ensures ret is Ok <==> self.base_block.raw().subrange(0, 4) == seq![0x72u8, 0x65u8, 0x67u8, 0x66u8], //[C02]
        ret is Err ==> ret->Err_0 is InvalidFourByteSignature, //[C02]
        err_is(ret, Er::Sig(0, seq![0x72u8, 0x65u8, 0x67u8, 0x66u8], self.base_block.raw().subrange(0, 4))), //[C17]
        off_is(ret, 0), //[C14]
@@fn Hive::validate_version
    requires self.wf()
    ensures ret is Ok <==> le32(self.base_block.raw(), 20) == 1 && le32(self.base_block.raw(), 24) >= 3, //[C02]
        ret is Err ==> ret->Err_0 is UnsupportedVersion, //[C02]
        err_is(ret, Er::Base(3, le32(self.base_block.raw(), 20) as int, le32(self.base_block.raw(), 24) as int)), //[C17]
@@fn Hive::root_key_node
    requires self.wf()
    ensures kn_is(ret, self, self.root()), //[C03,C04,C16]
        off_ok(ret, self.root()), //[C14]
        err_ok(ret, self.root()), //[C17]

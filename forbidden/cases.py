"""P32: programs the compiler has to reject, each with a twin that differs in the
decisive expression only and has to be accepted.  (name, prelude, refused, accepted)"""
I = 'use tedium::*; use tedium::int::*; type R = RangedInt<u8, 0, 9>;'
F = 'use tedium::float::RangedFloat; type R = RangedFloat<0, 0x3ff0_0000_0000_0000>;'
L = 'use tedium::*; type S = LimSeq<u8, 4>;'
X = 'use tedium::*; type S = FixSeq<u8, 4>;'
P = 'use tedium::*; use tedium::parse::{*, byteparser::ByteParser, memoparser::MemoParser, sliceparser::SliceParser, buffer::{VecBuffer, SliceBuffer}};'
T = 'use tedium::*; use tedium::conv::*; use tedium::dynamic::*; use tedium::schema::*;'

CASES = [
    # a value outside its range
    ('ranged_int_literal', I, 'pub fn f() -> R { RangedInt(200) }', 'pub fn f() -> R { R::from_underlying(2) }'),
    ('ranged_int_field_write', I, 'pub fn f(mut x: R) -> R { x.0 = 200; x }', 'pub fn f(mut x: R) -> R { x = R::from_underlying(2); x }'),
    ('ranged_int_field_borrow', I, 'pub fn f(x: &mut R) -> &mut u8 { &mut x.0 }', 'pub fn f(x: &mut R) -> &mut R { &mut *x }'),
    ('ranged_int_deref', I, 'pub fn f(x: &mut R) { **x = 200; }', 'pub fn f(x: &mut R) { *x = R::from_underlying(2); }'),
    ('ranged_int_as_mut', I, 'pub fn f(x: &mut R) { *AsMut::<u8>::as_mut(x) = 200; }', 'pub fn f(x: &mut R) { *x = R::from_underlying(2); }'),
    ('ranged_int_from_backer', I, 'pub fn f(x: u8) -> R { <R as From<u8>>::from(x) }', 'pub fn f(x: u8) -> R { R::from_underlying(x) }'),
    ('ranged_int_underlying', I, 'pub fn f(x: u8) -> R { R::from_underlying_unchecked(x) }', 'pub fn f(x: u8) -> R { unsafe { R::from_underlying_unchecked(x) } }'),
    ('ranged_int_numeric', I, 'pub fn f(x: u8) -> R { R::from_numeric_unchecked(x) }', 'pub fn f(x: u8) -> R { unsafe { R::from_numeric_unchecked(x) } }'),
    ('ranged_int_to_underlying', I, 'pub fn f(x: R) -> u8 { x.to_underlying_unchecked() }', 'pub fn f(x: R) -> u8 { unsafe { x.to_underlying_unchecked() } }'),
    ('ranged_int_other_range', I, 'pub fn f(x: RangedInt<u8, 0, 99>) -> R { x }', 'pub fn f(x: RangedInt<u8, 0, 9>) -> R { x }'),
    ('ranged_int_other_range_into', I, 'pub fn f(x: RangedInt<u8, 0, 99>) -> R { x.into() }', 'pub fn f(x: RangedInt<u8, 0, 9>) -> R { x.into() }'),
    ('ranged_int_arithmetic', I, 'pub fn f(x: R) -> R { x + x }', 'pub fn f(x: R) -> R { x }'),
    ('ranged_int_wide_backer', I, 'pub fn f(x: RangedInt<u64, 0, 9>) {}', 'pub fn f(x: RangedInt<u32, 0, 9>) {}'),
    ('ranged_int_signed_wide_backer', I, 'pub fn f(x: RangedInt<i64, 0, 9>) {}', 'pub fn f(x: RangedInt<i32, 0, 9>) {}'),
    ('ranged_int_float_backer', I, 'pub fn f(x: RangedInt<f64, 0, 9>) {}', 'pub fn f(x: RangedInt<i16, 0, 9>) {}'),
    ('ranged_float_literal', F, 'pub fn f() -> R { RangedFloat { val: 2.0 } }', 'pub fn f() -> R { R::MAX }'),
    ('ranged_float_tuple', F, 'pub fn f() -> R { RangedFloat(2.0) }', 'pub fn f() -> R { R::MAX }'),
    ('ranged_float_unchecked', F, 'pub fn f(x: f64) -> R { R::from_f64_unchecked(x) }', 'pub fn f(x: f64) -> R { unsafe { R::from_f64_unchecked(x) } }'),
    ('ranged_float_from', F, 'pub fn f(x: f64) -> R { <R as From<f64>>::from(x) }', 'pub fn f(x: f64) -> R { <R as TryFrom<f64>>::try_from(x).ok().unwrap() }'),
    ('ranged_float_deref', F, 'pub fn f(x: &mut R) { **x = 2.0; }', 'pub fn f(x: &mut R) { *x = R::MIN; }'),
    ('ranged_float_as_mut', F, 'pub fn f(x: &mut R) { *AsMut::<f64>::as_mut(x) = 2.0; }', 'pub fn f(x: &mut R) { *x = R::MIN; }'),
    ('ranged_float_other_range', F, 'pub fn f(x: RangedFloat<0, 0x4000_0000_0000_0000>) -> R { x }', 'pub fn f(x: RangedFloat<0, 0x3ff0_0000_0000_0000>) -> R { x }'),
    # a sequence of a length it must not have
    ('lim_seq_literal', L, 'pub fn f(v: Vec<u8>) -> S { LimSeq(v) }', 'pub fn f(v: Vec<u8>) -> S { S::from_vec(v) }'),
    ('lim_seq_unchecked', L, 'pub fn f(v: Vec<u8>) -> S { S::from_vec_unchecked(v) }', 'pub fn f(v: Vec<u8>) -> S { unsafe { S::from_vec_unchecked(v) } }'),
    ('lim_seq_field', L, 'pub fn f(s: &mut S) { s.0.extend([0; 9]); }', 'pub fn f(s: &mut S) { s.extend([0; 1]); }'),
    ('lim_seq_push', L, 'pub fn f(s: &mut S) { s.push(0); }', 'pub fn f(s: &mut S) { s.extend([0]); }'),
    ('lim_seq_deref_vec', L, 'pub fn f(s: &mut S) { let v: &mut Vec<u8> = &mut *s; v.clear(); }', 'pub fn f(s: &mut S) { let v: &mut [u8] = &mut *s; v.reverse(); }'),
    ('lim_seq_as_mut_vec', L, 'pub fn f(s: &mut S) { AsMut::<Vec<u8>>::as_mut(s).push(0); }', 'pub fn f(s: &mut S) { std::ops::DerefMut::deref_mut(s).reverse(); }'),
    ('lim_seq_from_vec', L, 'pub fn f(v: Vec<u8>) -> S { <S as From<Vec<u8>>>::from(v) }', 'pub fn f(v: Vec<u8>) -> S { <S as TryFrom<Vec<u8>>>::try_from(v).unwrap() }'),
    ('lim_seq_other_limit', L, 'pub fn f(s: LimSeq<u8, 9>) -> S { s }', 'pub fn f(s: LimSeq<u8, 4>) -> S { s }'),
    ('fix_seq_literal', X, 'pub fn f(v: Vec<u8>) -> S { FixSeq(v) }', 'pub fn f(v: Vec<u8>) -> S { S::try_from(v).unwrap() }'),
    ('fix_seq_field', X, 'pub fn f(s: &mut S) { s.0.clear(); }', 'pub fn f(s: &mut S) { s.reverse(); }'),
    ('fix_seq_clear', X, 'pub fn f(s: &mut S) { s.clear(); }', 'pub fn f(s: &mut S) { s.reverse(); }'),
    ('fix_seq_pop', X, 'pub fn f(s: &mut S) { s.pop(); }', 'pub fn f(s: &mut S) { s.reverse(); }'),
    ('fix_seq_push', X, 'pub fn f(s: &mut S) { s.push(0); }', 'pub fn f(s: &mut S) { s.reverse(); }'),
    ('fix_seq_deref_vec', X, 'pub fn f(s: &mut S) { let v: &mut Vec<u8> = &mut *s; v.clear(); }', 'pub fn f(s: &mut S) { let v: &mut [u8] = &mut *s; v.reverse(); }'),
    ('fix_seq_as_mut_vec', X, 'pub fn f(s: &mut S) { AsMut::<Vec<u8>>::as_mut(s).clear(); }', 'pub fn f(s: &mut S) { std::ops::DerefMut::deref_mut(s).reverse(); }'),
    ('fix_seq_from_vec', X, 'pub fn f(v: Vec<u8>) -> S { <S as From<Vec<u8>>>::from(v) }', 'pub fn f(v: Vec<u8>) -> S { <S as TryFrom<Vec<u8>>>::try_from(v).unwrap() }'),
    ('fix_seq_other_length', X, 'pub fn f(s: FixSeq<u8, 9>) -> S { s }', 'pub fn f(s: FixSeq<u8, 4>) -> S { s }'),
    # fixed widths
    ('fixed_bytes_width', T, 'pub fn f(b: [u8; 3]) -> FixedBytes<4> { FixedBytes::from_array(b) }', 'pub fn f(b: [u8; 4]) -> FixedBytes<4> { FixedBytes::from_array(b) }'),
    ('fixed_bytes_slice', T, 'pub fn f(b: &[u8]) -> FixedBytes<4> { <FixedBytes<4> as From<&[u8]>>::from(b) }', 'pub fn f(b: &[u8]) -> FixedBytes<4> { <FixedBytes<4> as TryFrom<&[u8]>>::try_from(b).unwrap() }'),
    ('fixed_string_width', T, 'pub fn f(b: [u8; 3]) -> FixedString<4> { FixedString::from(b) }', 'pub fn f(b: [u8; 4]) -> FixedString<4> { FixedString::from(b) }'),
    ('fixed_string_text', T, 'pub fn f(b: &FixedString<4>) -> &str { b.as_str_unchecked() }', 'pub fn f(b: &FixedString<4>) -> &str { unsafe { b.as_str_unchecked() } }'),
    ('fixed_string_unchecked', T, 'pub fn f(b: &[u8; 4]) -> FixedString<4> { FixedString::from_array_unchecked(b) }', 'pub fn f(b: &[u8; 4]) -> FixedString<4> { unsafe { FixedString::from_array_unchecked(b) } }'),
    # reads outside a buffer
    ('vec_buffer_slice', P, 'pub fn f(b: &VecBuffer) -> &[u8] { b.get_slice_unchecked(9, 9) }', 'pub fn f(b: &VecBuffer) -> &[u8] { unsafe { b.get_slice_unchecked(9, 9) } }'),
    ('vec_buffer_byte', P, 'pub fn f(b: &VecBuffer) -> u8 { b.get_byte_unchecked(9) }', 'pub fn f(b: &VecBuffer) -> u8 { unsafe { b.get_byte_unchecked(9) } }'),
    ('slice_buffer_take', P, "pub fn f(b: SliceBuffer<'_>) -> usize { b.take_unchecked(9).0.len() }", "pub fn f(b: SliceBuffer<'_>) -> usize { unsafe { b.take_unchecked(9) }.0.len() }"),
    ('slice_buffer_split', P, "pub fn f(b: SliceBuffer<'_>) -> usize { b.split_unchecked(9).0.len() }", "pub fn f(b: SliceBuffer<'_>) -> usize { unsafe { b.split_unchecked(9) }.0.len() }"),
    ('slice_buffer_cut', P, "pub fn f(b: SliceBuffer<'_>) -> u8 { b.cut_first_unchecked().0 }", "pub fn f(b: SliceBuffer<'_>) -> u8 { unsafe { b.cut_first_unchecked() }.0 }"),
    # input that is gone
    ('slice_parser_outlives', P, "pub fn f() -> SliceParser<'static> { let v = vec![0u8; 9]; SliceParser::from_buffer(SliceBuffer::from(&v[..])) }",
     "pub fn f(v: &'static Vec<u8>) -> SliceParser<'static> { SliceParser::from_buffer(SliceBuffer::from(&v[..])) }"),
    ('slice_buffer_outlives', P, "pub fn f<'a>() -> SliceBuffer<'a> { let v = vec![0u8; 9]; SliceBuffer::from(&v[..]) }",
     "pub fn f<'a>(v: &'a Vec<u8>) -> SliceBuffer<'a> { SliceBuffer::from(&v[..]) }"),
    ('slice_buffer_part_outlives', P, "pub fn f<'a>() -> &'a [u8] { let v = vec![0u8; 9]; SliceBuffer::from(&v[..]).take(1).0 }",
     "pub fn f<'a>(v: &'a Vec<u8>) -> &'a [u8] { SliceBuffer::from(&v[..]).take(1).0 }"),
    ('vec_buffer_part_outlives', P, "pub fn f<'a>(b: VecBuffer) -> &'a [u8] { b.get_slice(0, 1) }", "pub fn f<'a>(b: &'a VecBuffer) -> &'a [u8] { b.get_slice(0, 1) }"),
    ('consumed_outlives_byte', P, "pub fn f<'a>() -> &'a [u8] { let mut p = ByteParser::from_buffer(vec![0u8; 9].into()); p.consume(1).unwrap() }",
     "pub fn f<'a>(p: &'a mut ByteParser) -> &'a [u8] { p.consume(1).unwrap() }"),
    ('consumed_outlives_memo', P, "pub fn f<'a>() -> &'a [u8] { let mut p = MemoParser::from_buffer(vec![0u8; 9].into()); p.consume(1).unwrap() }",
     "pub fn f<'a>(p: &'a mut MemoParser) -> &'a [u8] { p.consume(1).unwrap() }"),
    ('consumed_outlives_slice', P, "pub fn f<'a>() -> &'a [u8] { let v = vec![0u8; 9]; let mut p = SliceParser::from_buffer((&v[..]).into()); p.consume(1).unwrap() }",
     "pub fn f<'a, 'b>(p: &'a mut SliceParser<'b>) -> &'a [u8] { p.consume(1).unwrap() }"),
    ('cleanup_once', P, 'pub fn f(p: ByteParser) { let _ = p.cleanup(); let _ = p.remainder(); }', 'pub fn f(p: ByteParser) { let _ = p.remainder(); let _ = p.cleanup(); }'),
    ('cleanup_once_memo', P, 'pub fn f(p: MemoParser) { let _ = p.cleanup(); let _ = p.remainder(); }', 'pub fn f(p: MemoParser) { let _ = p.remainder(); let _ = p.cleanup(); }'),
    ('cleanup_once_slice', P, "pub fn f(p: SliceParser<'_>) { let _ = p.cleanup(); let _ = p.remainder(); }", "pub fn f(p: SliceParser<'_>) { let _ = p.remainder(); let _ = p.cleanup(); }"),
    ('finalize_once', T, 'pub fn f(b: StrictBuilder) -> usize { let v = b.finalize(); b.len() }', 'pub fn f(b: StrictBuilder) -> usize { let n = b.len(); let v = b.finalize(); n }'),
    ('finalize_once_memo', T, 'pub fn f(b: MemoBuilder) -> usize { let v = b.finalize(); b.len() }', 'pub fn f(b: MemoBuilder) -> usize { let n = b.len(); let v = b.finalize(); n }'),
    ('parse_into_shared', P, 'pub fn f(p: &ByteParser) { let _ = <u8 as Decode>::parse(p); }', 'pub fn f(p: &mut ByteParser) { let _ = <u8 as Decode>::parse(p); }'),
    ('write_into_shared', T, 'pub fn f(v: &Vec<u8>) { 1u8.write_to(v); }', 'pub fn f(v: &mut Vec<u8>) { 1u8.write_to(v); }'),
    # length prefixes other than the three of data-encoding
    ('prefix_u32', T, 'pub fn f(x: Dynamic<u32, Bytes>) {}', 'pub fn f(x: Dynamic<u30, Bytes>) {}'),
    ('prefix_i8', T, 'pub fn f(x: Dynamic<i8, Bytes>) {}', 'pub fn f(x: Dynamic<u8, Bytes>) {}'),
    ('prefix_u64', T, 'pub fn f(x: Dynamic<u64, Bytes>) {}', 'pub fn f(x: Dynamic<u16, Bytes>) {}'),
    ('prefix_i16', T, 'pub fn f(x: Dynamic<i16, Bytes>) {}', 'pub fn f(x: Dynamic<u16, Bytes>) {}'),
    ('prefix_i31', T, 'pub fn f(x: Dynamic<i31, Bytes>) {}', 'pub fn f(x: Dynamic<u30, Bytes>) {}'),
    ('prefix_ranged', T, 'pub fn f(x: Dynamic<RangedInt<u8, 0, 9>, Bytes>) {}', 'pub fn f(x: Dynamic<u8, Bytes>) {}'),
    ('prefix_bool', T, 'pub fn f(x: Dynamic<bool, Bytes>) {}', 'pub fn f(x: Dynamic<u8, Bytes>) {}'),
    ('prefix_unsized_payload', T, 'pub fn f(x: Dynamic<u8, [u8]>) {}', 'pub fn f(x: Dynamic<u8, [u8; 3]>) {}'),
    ('prefix_downstream', T, '#[derive(Clone, Copy)] pub struct W(u8); impl LenPref for W { fn max_len() -> usize { 9 } fn suffix() -> &\'static str { "w" } }',
     '#[derive(Clone, Copy)] pub struct W(u8); impl W { fn max_len() -> usize { 9 } fn suffix() -> &\'static str { "w" } }'),
    ('skip_prefix', P, 'pub fn f(p: &mut ByteParser) { let _ = p.skip_dynamic::<u64>(); }', 'pub fn f(p: &mut ByteParser) { let _ = p.skip_dynamic::<u16>(); }'),
    # tags other than unsigned numbers
    ('tag_u64', P, 'pub fn f(p: &mut ByteParser) { let _ = p.take_tagword::<(), u64, _>([1u64]); }', 'pub fn f(p: &mut ByteParser) { let _ = p.take_tagword::<(), u16, _>([1u16]); }'),
    ('tag_i8', P, 'pub fn f(p: &mut ByteParser) { let _ = p.take_tagword::<(), i8, _>([1i8]); }', 'pub fn f(p: &mut ByteParser) { let _ = p.take_tagword::<(), u8, _>([1u8]); }'),
    ('tag_width', P, 'pub fn f(p: &mut ByteParser) { let _ = p.take_tagword::<(), u16, _>([1u8]); }', 'pub fn f(p: &mut ByteParser) { let _ = p.take_tagword::<(), u16, _>([1u16]); }'),
    ('integral_downstream', I, 'pub struct W; impl Integral for W {}', 'pub struct W; impl W {}'),
    # components that have no encoding
    ('derive_encode', T, 'pub struct No; #[derive(Encode)] pub struct A { x: u8, y: No }', 'pub struct No; #[derive(Encode)] pub struct A { x: u8, y: u8 }'),
    ('derive_encode_tuple', T, 'pub struct No; #[derive(Encode)] pub struct A(u8, No);', 'pub struct No; #[derive(Encode)] pub struct A(u8, u8);'),
    ('derive_decode', T, 'pub struct No; #[derive(Decode)] pub struct A { x: u8, y: No }', 'pub struct No; #[derive(Decode)] pub struct A { x: u8, y: u8 }'),
    ('derive_estimable', T, 'pub struct No; #[derive(Estimable)] pub struct A { x: u8, y: No }', 'pub struct No; #[derive(Estimable)] pub struct A { x: u8, y: u8 }'),
    ('derive_fixed_length', T, '#[derive(FixedLength)] pub struct A { x: u8, y: Bytes }', '#[derive(FixedLength)] pub struct A { x: u8, y: u8 }'),
    ('encode_opaque', T, 'pub struct No; pub fn f(x: &Sequence<No>) -> Vec<u8> { x.to_bytes() }', 'pub struct No; pub fn f(x: &Sequence<u8>) -> Vec<u8> { x.to_bytes() }'),
    ('decode_opaque', T, 'pub struct No; pub fn f(p: &mut ByteParser) { let _ = <Option<No> as Decode>::parse(p); }', 'pub struct No; pub fn f(p: &mut ByteParser) { let _ = <Option<u8> as Decode>::parse(p); }'),
    ('encode_platform_word', T, 'pub fn f(x: usize) -> Vec<u8> { x.to_bytes() }', 'pub fn f(x: u64) -> Vec<u8> { x.to_bytes() }'),
    ('decode_platform_word', T, 'pub fn f(p: &mut ByteParser) { let _ = usize::parse(p); }', 'pub fn f(p: &mut ByteParser) { let _ = u32::parse(p); }'),
    # a box does not stand for its contents
    ('auto_box_deref', T, 'pub fn f(x: AutoBox<u8>) -> u8 { *x }', 'pub fn f(x: AutoBox<u8>) -> u8 { x.into_inner() }'),
    ('box_encode', T, 'pub fn f(x: &Box<u8>) -> Vec<u8> { <Box<u8> as Encode>::to_bytes(x) }', 'pub fn f(x: &AutoBox<u8>) -> Vec<u8> { <AutoBox<u8> as Encode>::to_bytes(x) }'),
    # the inside of the library
    ('internal_module', 'use tedium::*;', 'pub fn f() { let _ = tedium::internal::SplitVec::<u8>::new(); }', 'pub fn f() { let _ = tedium::MemoBuilder::new(); }'),
    ('memo_segments', 'use tedium::*;', 'pub fn f(b: &mut MemoBuilder) { b.segs.split(); }', 'pub fn f(b: &mut MemoBuilder) { b.resolve(); }'),
    ('memo_parts', 'use tedium::builder::memo::MemoBuffer;', 'pub fn f(mut b: MemoBuffer) -> MemoBuffer { b.lens.clear(); b }', 'pub fn f(mut b: MemoBuffer) -> MemoBuffer { b }'),
    ('parser_position', P, 'pub fn f(p: &mut ByteParser) { p.offset = Default::default(); }', 'pub fn f(p: &mut ByteParser) { let _ = p.offset(); }'),
    ('parser_views', P, "pub fn f(p: &mut SliceParser<'_>) { p.view_stack = Default::default(); }", "pub fn f(p: &mut SliceParser<'_>) { let _ = p.offset(); }"),
    ('leftover_split', 'use tedium::parse::cleanup::LeftoverState;', 'pub fn f(s: &mut LeftoverState) { s.promote(); }', 'pub fn f(s: &mut LeftoverState) { s.escape_context(); }'),
]

# types that may be handed to and shared with another thread
SHARED = '''u8 bool String R31 tedium::u30 tedium::i31 tedium::RangedInt<u16,1,9> tedium::float::RangedFloat<0,1> tedium::Bytes
tedium::HexString tedium::FixedBytes<3> tedium::FixedString<3> tedium::Sequence<u8> tedium::LimSeq<u8,3> tedium::FixSeq<u8,3>
tedium::Dynamic<u8,String> tedium::VPadded<u8,3> tedium::Padded<u8,3> tedium::Nullable<u8> tedium::AutoBox<u8> tedium::N tedium::Z
tedium::ByteParser tedium::MemoParser tedium::SliceParser<'static> tedium::StrictBuilder tedium::MemoBuilder tedium::builder::memo::MemoBuffer
tedium::parse::buffer::VecBuffer tedium::parse::buffer::SliceBuffer<'static> tedium::ParseError tedium::parse::error::TokenError
tedium::parse::error::WindowError tedium::parse::error::ExternalError tedium::conv::error::DecodeError
tedium::parse::cleanup::LeftoverState tedium::parse::cleanup::InvariantError tedium::error::WidthError tedium::error::LengthError
tedium::error::HexConvError tedium::error::BoundsError<i64> tedium::parse::error::TagError<u8>'''.replace('R31', '()').split()
# errors a caller may box and propagate
ERRORS = '''tedium::ParseError tedium::parse::error::TokenError tedium::parse::error::WindowError tedium::parse::error::ExternalError
tedium::conv::error::DecodeError tedium::parse::cleanup::InvariantError tedium::error::WidthError tedium::error::LengthError
tedium::error::HexConvError tedium::error::BoundsError<i64>'''.split()
for t in SHARED:
    CASES.append(('thread_' + ''.join(c if c.isalnum() else '_' for c in t), 'pub fn s<T: Send + Sync>() {}', None, 'pub fn f() { s::<%s>() }' % t))
for t in ERRORS:
    CASES.append(('error_' + ''.join(c if c.isalnum() else '_' for c in t), 'pub fn s<T: std::error::Error + Send + Sync + \'static>() {}', None, 'pub fn f() { s::<%s>() }' % t))

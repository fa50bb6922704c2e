IN = ['inputs', 'programs']
ALLT = 'every schema type the library provides, with arbitrary element types, const parameters and values'
FS = ['src/conv/mod.rs', 'src/prim.rs', 'src/schema.rs', 'src/int.rs', 'src/float.rs', 'src/fixed.rs', 'src/dynamic.rs', 'src/seq/mod.rs', 'src/seq/fix.rs', 'src/seq/lim.rs', 'src/autobox.rs']

prop('P01', 'Decoding an encoded value returns the same value',
     'For every value of every schema type of the library, decoding the bytes produced by encoding it succeeds and yields an equal value. Decoding consumes exactly those bytes and leaves the enclosing context as it was; types that extend to the end of their context, or to a fixed distance from it, are decoded in such a context.',
     IN, ALLT, 'tests sample a few values of a few instantiations; the law quantifies over all values, element types and widths',
     FS, [('Encode::write_to / Decode::parse', 'src/conv/mod.rs and the impls in each type module')], observe=['Encode::to_bytes', 'Decode::parse'],
     note='Arbitrary-precision integers are treated by P24.')
prop('P02', 'Encoding appends to its target and returns the number of bytes appended',
     'Encoding a value into any target only appends to what the target already holds, and the returned count equals the number of bytes appended.',
     IN, ALLT + ', and every target with any prior content', 'tests compare a few encodings; a wrong count only matters for particular types, nesting or prior content',
     FS + ['src/conv/target.rs'], [('Encode::write_to return value', 'src/conv/mod.rs'), ('resolve', 'src/conv/target.rs')], observe=['Encode::write_to'])
prop('P03', 'Size estimates equal the encoded length',
     'The computed size of a value, whether obtained from the statically known size of its type, from the value itself, or from the combination of the two, equals the number of bytes its encoding occupies.',
     IN, ALLT, 'tests check few types; a length prefix computed from a wrong estimate corrupts every enclosing message',
     FS + ['src/conv/len.rs'], [('Estimable::KNOWN/unknown/estimate', 'src/conv/len.rs and impls')], observe=['Estimable::estimate', 'Estimable::unknown', 'Estimable::KNOWN'],
     note='Bounded sequences are taken within their bounds.')

prop('P04', 'Every schema type has its documented byte layout',
     'The bytes a value encodes to are exactly the layout of its schema: booleans are FF/00, integers and floats big-endian at their width, an option is FF followed by the value or 00 alone, a dynamic value is its byte length in the prefix width followed by its encoding, padding is zero bytes after the value, sequences are their elements in order, nullable/boxed/virtually padded values are transparent.',
     IN, ALLT, 'round trips and size laws are preserved by a change applied consistently to encoder and decoder; interoperability with other implementations is not, and tests fix only sample values',
     FS, [('Encode::write_to', 'src/conv/mod.rs and the impls in each type module')], observe=['Encode::to_bytes'],
     note='Dynamic and bounded sequences are taken within their bounds.')
prop('P08', 'Only canonical encodings of in-range values are accepted',
     'Whenever decoding succeeds, the bytes consumed are exactly the encoding of the decoded value, the value lies in the range its type promises, nothing else of the input is consumed and the enclosing context is unchanged. A type that extends to the end of its context leaves nothing of it behind.',
     IN + ['environments'], 'every schema type with arbitrary element types and const parameters; every input byte string; every parser', 'tests decode valid samples and a handful of malformed ones; acceptance of a wrong input is a property of all byte strings',
     FS, [('Decode::parse', 'src/conv/mod.rs and the impls in each type module'), ('BoundsError::restrict', 'src/error.rs')], observe=['Decode::parse'],
     note='Padded (its filler is not inspected without check_padding), String (lossy) and arbitrary-precision integers (trailing zero groups are accepted) are outside: for them more than one input decodes to a value.')
PF = ['src/parse/mod.rs', 'src/parse/buffer.rs', 'src/internal/offset.rs', 'src/internal/view.rs', 'src/internal/stack.rs']
PQ = 'every buffer, every amount already consumed, up to two windows already open around arbitrary pending bytes, every requested size; ByteParser, MemoParser and SliceParser'
PW = 'tests drive one parser over short hand-written buffers; boundary requests inside nested windows after partial consumption are a product of states no sample covers'
prop('P09', 'Reads deliver exactly the next pending bytes or fail without consuming any',
     'Reading n bytes (consume, consume_byte, fixed-width, fixed-array, dynamic and integer/float/boolean readers) returns the next n bytes pending in the innermost window, in order and big-endian for numbers, and advances past exactly those; when fewer than n are pending it reports that and consumes nothing. Self-terminated reads on ByteParser return the bytes up to and including the first terminating one, or report every pending byte as unterminated.',
     ['inputs', 'histories'], PQ, PW, PF, [('Parser::consume / consume_byte and take_* readers', 'src/parse/mod.rs')], observe=['Parser', 'Iterator for the parsers'])
prop('P10', 'A window opens exactly when it fits and never reaches past the enclosing one',
     'set_fit(n) succeeds exactly when n bytes are still pending in the innermost window (or the buffer), after which exactly those n bytes are readable inside it and the bytes around it are untouched. Otherwise it reports that the window would exceed the buffer or the enclosing window, and nothing changes.',
     ['inputs', 'histories'], PQ, PW, PF, [('Parser::set_fit', 'src/parse/mod.rs'), ('ContextOffset::set_fit', 'src/internal/offset.rs'), ('ViewStack::push_view', 'src/internal/view.rs')], observe=['Parser::set_fit'])
prop('P11', 'A window closes exactly when it is used up',
     'enforce_target succeeds exactly when a window is open and has no pending bytes, and then only that window is gone; without a window, or with pending bytes (whose number it reports), it fails and changes nothing. test_target answers true exactly when enforce_target would succeed, and changes nothing.',
     ['inputs', 'histories'], PQ, PW, PF, [('Parser::enforce_target / test_target', 'src/parse/mod.rs'), ('ContextOffset::enforce_target', 'src/internal/offset.rs'), ('ViewStack::pop_view', 'src/internal/view.rs')], observe=['Parser::enforce_target', 'ParserExt::test_target'])
prop('P12', 'Skipping and length prefixes move past exactly the announced bytes',
     'skip(n) passes over min(n, pending) bytes and reports that number, skip_exactly(n) over exactly n or none with an error, and process_prefix / skip_dynamic read the big-endian length prefix of their width and then open a window over, or pass over, exactly the announced payload. When the payload does not fit in the innermost window they fail with only the prefix consumed.',
     ['inputs', 'histories'], PQ + '; prefixes of 1, 2 and 4 (u30) bytes', PW, PF + ['src/conv/len.rs'], [('ParserExt', 'src/parse/mod.rs'), ('LenPref', 'src/conv/len.rs')], observe=['ParserExt::skip', 'ParserExt::skip_exactly', 'ParserExt::skip_dynamic', 'ParserExt::process_prefix'])
prop('P22', 'Cleanup returns every unread byte, grouped by open window',
     'Finishing a parser yields all bytes not yet read, in order, and their grouping into the spans pending in each open window from the innermost out, followed by the bytes around them; the result is empty exactly when no byte and no window is left over, and its reported length is the number of bytes.',
     ['inputs', 'histories'], 'every buffer, every amount consumed, up to two open windows; ByteParser, MemoParser and SliceParser', PW,
     PF + ['src/internal/splitvec.rs'], [('Parser::cleanup', 'src/parse/mod.rs'), ('LeftoverState / Leftover', 'src/parse/mod.rs'), ('SplitVec', 'src/internal/splitvec.rs')], observe=['Parser::cleanup', 'LeftoverState'])
prop('P25', 'All ways of encoding a value agree',
     'For every value, writing to any target, writing into a byte vector, encoding to an owned target, converting to bytes with or without pre-sized allocation, and counting the encoded length all agree on the same bytes and the same number.',
     IN, ALLT + ', and any prior content of the buffer', 'overridden entry points and a feature-dependent length computation are only exercised on a few types by tests',
     ['src/conv/mod.rs', 'src/conv/target.rs', 'src/fixed.rs', 'src/dynamic.rs', 'src/prim.rs'], [('Encode/EncodeLength default and overridden methods', 'src/conv/mod.rs')], observe=['Encode::write_to_vec', 'Encode::encode', 'Encode::to_bytes', 'EncodeLength::enc_len', 'EncodeLength::to_bytes_full'])
prop('P16', 'Bounded sequences never exceed their bound and never lose an element',
     'Every way of obtaining a LimSeq (from a vector, a slice, collecting, extending, decoding) yields at most its limit of elements, and FixSeq likewise, with exactly its length when converted from a slice or decoded. The result holds exactly the given elements in order, through every view and iterator; sequences that are too long are refused with the limit and actual length (or a panic), never truncated or cut short while decoding, and none within the bound is refused. No bytes of a bounded sequence violating its bound are ever produced.',
     IN, 'every element type, every bound, every input sequence; Sequence, LimSeq, FixSeq', 'tests use a handful of lengths and bounds; the boundary and element-loss cases depend on both',
     ['src/seq/mod.rs', 'src/seq/lim.rs', 'src/seq/fix.rs', 'src/seq/boundedseq_impl.rs'], [('From/TryFrom/FromIterator/Extend, Encode/Decode of LimSeq and FixSeq', 'src/seq/lim.rs, src/seq/fix.rs')],
     observe=['LimSeq', 'FixSeq', 'Sequence'], note='FixSeq::try_from(Vec) refuses only vectors that are too long; whether it should refuse short ones is left open by its documentation, and short ones are caught when encoded.')
prop('P17', 'A RangedInt always denotes a number of its range, and conversions preserve it',
     'For every sound range MIN..=MAX and backing type, converting a number, a stored offset or a RangedInt of the same range to RangedInt succeeds exactly when the number lies in the range and can be stored, never panics in the checked forms, and panics out of range in the unchecked ones. The result denotes that number through every accessor, and the least, greatest and default value are the ones of the range.',
     IN, 'every backing type (u8, i8, u16, i16, u31, i31), every MIN <= MAX within 31 bits, every number of every primitive integer type', 'ranges are type parameters: tests instantiate a few, mostly with MIN <= 0',
     ['src/int.rs', 'src/error.rs'], [('RangedInt constructors and conversions', 'src/int.rs'), ('BoundsError::restrict', 'src/error.rs')], observe=['RangedInt', 'u30', 'i31'])
prop('P18', 'A RangedFloat always lies within its range, bit for bit the number given',
     'Converting a float to RangedFloat succeeds exactly when the range is sound and the float is ordered within it (so NaN never is), never panics in the checked forms, and panics in the unchecked form exactly out of range. The value comes back with the same bits, and the default of a sound range lies in it.',
     IN, 'every pair of bounds (as bit patterns, including NaN and infinities) and every f64/f32', 'bounds are type parameters and NaN comparisons are the trap; tests cover one range',
     ['src/float.rs', 'src/error.rs'], [('RangedFloat constructors and conversions', 'src/float.rs')], observe=['RangedFloat'])
prop('P29', 'Fixed-width bytes and strings hold exactly the given bytes of their width',
     'Converting a byte slice, array, str or String to FixedBytes or FixedString succeeds exactly when it has the width of the type (and, for strings built from bytes, is valid UTF-8), and the result holds those very bytes. Otherwise the error tells the expected and actual width, and nothing panics.',
     IN, 'every width, every input', 'width is a type parameter; tests use a few widths',
     ['src/fixed.rs', 'src/error.rs'], [('TryFrom impls of FixedBytes / FixedString', 'src/fixed.rs')], observe=['FixedBytes', 'FixedString'])
prop('P30', 'Wrapping a value and taking it out again returns the same value',
     'Putting a value into Nullable, Padded, VPadded, Dynamic, AutoBox or Bytes by any constructor or conversion and reading it back by any accessor yields the value unchanged, without panicking; writing through a mutable accessor is what later reads return.',
     IN, 'every payload type and value', 'each wrapper offers many redundant accessors; tests use one or two of each',
     ['src/schema.rs', 'src/dynamic.rs', 'src/autobox.rs'], [('constructors, From/AsRef/into_inner of the wrapper types', 'src/schema.rs, src/dynamic.rs, src/autobox.rs')], observe=['Nullable', 'Padded', 'VPadded', 'Dynamic', 'AutoBox', 'Bytes'])
prop('P19', 'Every target appends exactly the bytes pushed and reports their number',
     'For every target the library offers (byte vector, HexString, StrictBuilder, MemoBuilder, byte counter), each push and each io write appends exactly the given bytes in order to what the target holds and returns how many there were, without panicking. Resolving and anticipating change nothing of the content, and a created target is empty.',
     IN, 'every target, any prior content, any bytes', 'tests push a few bytes into one kind of target; the forwarding implementations are separate code for each target',
     ['src/conv/target.rs', 'src/builder/strict.rs', 'src/builder/memo.rs', 'src/hexstring.rs'], [('Target impls', 'src/conv/target.rs, src/builder/, src/hexstring.rs')], observe=['Target', 'ByteCounter', 'HexString', 'StrictBuilder', 'MemoBuilder'])
prop('P20', 'Builders hold and give back exactly the bytes they were built from',
     'Building from a byte, an array, a slice, a vector, a segment, nothing, or by encoding a value yields a builder whose length, emptiness, vector, final form and text form are those of exactly these bytes, for StrictBuilder and MemoBuilder alike. Conversion to text fails exactly when the bytes are not UTF-8.',
     IN, 'both builders, any content', 'tests build a few literals',
     ['src/builder/mod.rs', 'src/builder/strict.rs', 'src/builder/memo.rs', 'src/internal/splitvec.rs'], [('Builder', 'src/builder/mod.rs'), ('impls', 'src/builder/strict.rs, src/builder/memo.rs')], observe=['Builder', 'StrictBuilder', 'MemoBuilder'],
     note='The hexadecimal form is treated by P23.')
prop('P21', 'Recorded spans partition the recorded bytes and follow the groups written',
     'In the segmented buffers behind MemoBuilder and parser leftovers, the span lengths always add up to the number of bytes; each write extends the open span or starts the next, splitting closes the open span only, concatenation keeps the bytes and spans of both operands in order, and iterating hands out exactly the spans. How the bytes of one group are pushed does not matter to a MemoBuilder, and resolving twice is resolving once.',
     ['inputs', 'histories'], 'every balanced segmented buffer (any bytes, any number of spans, open or not) and every operation on it', 'the bookkeeping (open span, cached sum) is a state machine; tests walk one history',
     ['src/internal/splitvec.rs', 'src/builder/memo.rs'], [('SplitVec and SpanBuffer', 'src/internal/splitvec.rs')], observe=['MemoBuilder', 'LeftoverState::Windowed'])
prop('P05', 'Derived codecs cover exactly the fields, in declaration order',
     'For a struct (unit, tuple or named) deriving Encode, Decode and Estimable or FixedLength, the encoding is the concatenation of the encodings of its fields in declaration order, and every length query reports its size. Decoding what was encoded returns the same value and leaves exactly the following bytes; whatever decoding accepts is the encoding of its result.',
     IN, 'derived structs of every kind with 0 to 12 fields of fixed, known, variable and rest-of-window types, nested and with indistinguishable field types; every value, every parser, every target', 'a derive runs on shapes its tests never mention, and two swapped fields of one type look right in any test that uses equal values',
     ['encode_derive/src/lib.rs', 'decode_derive/src/lib.rs', 'estimable_derive/src/lib.rs'], [('derive(Encode)', 'encode_derive/src/lib.rs'), ('derive(Decode)', 'decode_derive/src/lib.rs'), ('derive(Estimable), derive(FixedLength)', 'estimable_derive/src/lib.rs')],
     observe=['derive(Encode)', 'derive(Decode)', 'derive(Estimable)', 'derive(FixedLength)'], note='Decided on the code the macros expand to, for a family of struct shapes: the shapes are enumerated, the values are not.')
prop('P07', 'Generated enumerations agree on one tag set and one tag per variant',
     'For enumerations made by cstyle! and data!, the tag check, the name lookup, the list of tags, the conversion from numbers, the tag of a value and the decoder agree on exactly the declared tags, each with its variant. A value is encoded as its tag, big-endian in the tag width, followed by its payload, and decodes to itself; input starting with any other tag is refused without panicking.',
     IN, 'enumerations with 1- and 2-byte tags (contiguous, sparse, unordered, extreme), with unit, tuple, named and nested payloads; every value, every tag number, every parser and target', 'the macros generate one table per question; tests ask one question for one or two tags',
     ['src/adt.rs', 'src/parse/mod.rs', 'src/parse/error.rs'], [('cstyle!, data!', 'src/adt.rs'), ('take_tagword', 'src/parse/mod.rs'), ('TagValidator', 'src/parse/error.rs')], observe=['cstyle!', 'data!', 'adt::CStyle', 'adt::TaggedData'],
     note='Decided on the code the macros expand to, for a family of declarations.')
prop('P06', 'A length-prefixed value announces exactly its payload and never reads past it',
     'Encoding Dynamic writes the byte length of its payload in the width of the prefix, then the payload; it never writes anything for a payload too long for the prefix, and length_prefix reports the same. Decoding succeeds exactly when the announced bytes are there and the payload uses all of them, and leaves exactly what follows; a nested announcement cannot reach past the enclosing one.',
     IN + ['environments'], 'prefixes of 1, 2 and 4 (u30) bytes; arbitrary payloads when encoding; payloads of bytes, numbers, lists, nothing, and nested prefixed payloads when decoding; every input, every parser and target', 'the interesting inputs lie at the limits of the prefix and at disagreements of announced and actual size, for every payload type',
     ['src/dynamic.rs', 'src/parse/mod.rs'], [('Dynamic: Encode, Decode, length_prefix', 'src/dynamic.rs'), ('LenPref', 'src/dynamic.rs')], observe=['Dynamic', 'Dynamic::length_prefix', 'LenPref'])
prop('P31', 'Tag words and keyed lookups accept exactly the members they are given',
     'Every kind of tag set (array, slice, vector, by value or reference) contains exactly its elements, and take_tagword returns the next number of the tag width exactly when it is in the set, else an invalid-tag error. fast_kv_search returns the value following the first matching key among consecutive fixed-size entries, stopping right behind it, or nothing after all entries were seen, and fails only on an incomplete entry.',
     ['inputs'], 'tags of 1, 2 and 4 bytes and every set of them; every key, every list of entries (key and value sizes 1-4), every parser', 'membership and first-match are statements about all elements of lists of any length; tests use two entries',
     ['src/parse/mod.rs', 'src/parse/error.rs'], [('TagValidator impls', 'src/parse/error.rs'), ('Parser::take_tagword', 'src/parse/mod.rs'), ('ParserExt::fast_kv_search', 'src/parse/mod.rs')], observe=['Parser::take_tagword', 'TagValidator', 'ParserExt::fast_kv_search'])
prop('P23', 'Hexadecimal text and bytes convert into each other exactly',
     'The hexadecimal form of bytes has two lower-case digits per byte, high digit first, for HexString and for both builders. Reading text succeeds exactly when it has an even number of characters all of which are hexadecimal digits of either case, gives the bytes spelt, and otherwise reports which of the two failed along with the text; no conversion panics. Comparing a HexString with text is true exactly when the text spells its bytes, and every conversion from or to byte containers keeps the bytes.',
     IN, 'every byte string, every text, every conversion', 'the failing inputs are single characters out of all of Unicode at any position; tests use a few literals',
     ['src/hexstring.rs', 'src/builder/mod.rs', 'src/error.rs'], [('hex_of_bytes, bytes_of_hex, eq_hex_bytes', 'src/hexstring.rs'), ('HexString conversions', 'src/hexstring.rs'), ('Builder::into_hex', 'src/builder/mod.rs')],
     observe=['HexString::to_hex', 'HexString::from_hex', 'HexString::eq_hex', 'TryFrom<&str> for HexString', 'Builder::into_hex'])
prop('P24', 'Unbounded numbers are encoded in seven-bit groups and decode to themselves',
     'A natural (N) is encoded as its base-128 digits, least significant first, an integer (Z) as its sign and low six bits followed by the base-128 digits of the rest; every byte but the last has its high bit set, and every length query reports that many bytes. Decoding reads exactly up to the first byte whose high bit is clear and yields the number those bytes spell, failing only when there is no such byte; so every number decodes to itself. Conversions keep the number, and those to machine integers succeed exactly when it fits.',
     IN, 'every natural and every integer; every input, every parser and target', 'numbers are unbounded; tests encode five small ones, none longer than two bytes',
     ['src/zarith.rs', 'src/parse/mod.rs'], [('N: Encode, Decode, Estimable', 'src/zarith.rs'), ('Z: Encode, Decode, Estimable', 'src/zarith.rs'), ('Parser::take_self_terminating', 'src/parse/mod.rs')], observe=['N', 'Z', 'Parser::take_self_terminating'],
     note='num-bigint is trusted: its conversion to and from base-128 digits, sign, magnitude, shifts and bit count have their documented meaning.')
prop('P33', 'Decoding a whole input is parsing its bytes from the start',
     'Decoding a whole input (a slice, an array, a vector, a HexString, or text, which stands for its bytes unless implicit_hexstring is enabled) gives what parsing its bytes from the start gives, with every parser. Bytes that follow are ignored, or, with check_complete_parse, refused and reported; malformed input is refused with the parse error, without panicking. decode and decode_memo return the value try_decode returns and panic only where it fails.',
     IN, 'every input in every form, every parser, types of fixed, known, variable, prefixed and rest-of-window size', 'the entry points are separate code per input form, parser and feature; tests decode a few literals in full',
     ['src/conv/mod.rs', 'src/prim.rs', 'src/parse/buffer.rs', 'src/parse/cleanup.rs'], [('Decode::try_decode, decode, decode_memo', 'src/conv/mod.rs'), ('Decode for ()', 'src/prim.rs'), ('VecBuffer, SliceBuffer', 'src/parse/buffer.rs')],
     observe=['Decode::try_decode', 'Decode::decode', 'Decode::decode_memo', 'VecBuffer', 'SliceBuffer'])
prop('P28', 'Containers compare, order, hash and clone exactly as their contents',
     'Two Dynamic, AutoBox, Nullable, Padded, VPadded, Bytes, Sequence, LimSeq, FixSeq, FixedBytes, FixedString, HexString, RangedInt, RangedFloat, N or Z values are equal exactly when their contents are, and order as their contents do; equal ones feed equal data to any hasher, as do equal values of enumerations made by data!. Cloning yields an equal value with the same contents.',
     IN, 'every pair of values of each container with numeric, byte-list and optional contents, any hasher', 'the laws relate pairs of values and separately written impls (eq, cmp, hash); tests compare one or two values',
     ['src/dynamic.rs', 'src/autobox.rs', 'src/schema.rs', 'src/seq/mod.rs', 'src/seq/lim.rs', 'src/seq/fix.rs', 'src/fixed.rs', 'src/int.rs', 'src/float.rs', 'src/hexstring.rs', 'src/zarith.rs', 'src/adt.rs'],
     [('PartialEq, Ord, Hash, Clone of Dynamic', 'src/dynamic.rs'), ('Clone of AutoBox', 'src/autobox.rs'), ('Hash of data! enumerations', 'src/adt.rs')], observe=['Dynamic', 'AutoBox', 'Nullable', 'Bytes', 'Sequence', 'LimSeq', 'FixSeq', 'FixedBytes', 'FixedString', 'HexString', 'RangedInt', 'RangedFloat', 'N', 'Z', 'data!'],
     note='The slice order of the standard library is trusted to be lexicographic.')
prop('P34', 'Text shown for a value is the text of its contents',
     'Displaying a Dynamic, AutoBox, N, Z or FixedString, or debugging an AutoBox or VPadded, shows exactly what displaying or debugging the content shows, whatever the formatting options. HexString and FixedBytes show two lower-case hexadecimal digits for each of their bytes in order, and a RangedInt in base 16 shows its value rather than its stored offset. A MemoBuilder, and the MemoBuffer made of it, shows its bytes in hexadecimal, grouped by span.',
     IN, 'every content, every width, precision, fill, alignment and flag, every list of bytes, up to three spans of any length',
     'the text is assembled byte by byte and from separately kept offsets; tests show one or two values with default options',
     ['src/dynamic.rs', 'src/autobox.rs', 'src/zarith.rs', 'src/fixed.rs', 'src/hexstring.rs', 'src/int.rs', 'src/builder/memo.rs', 'src/internal/splitvec.rs'],
     [('Display and Debug of wrappers', 'src/dynamic.rs'), ('LowerHex of FixedBytes', 'src/fixed.rs'), ('Display of MemoBuilder and MemoBuffer', 'src/builder/memo.rs'), ('Display of SplitVec<u8>', 'src/internal/splitvec.rs')],
     observe=['Display', 'Debug', 'LowerHex', 'to_string'],
     note='What foreign code (core, num_bigint) writes for numbers and text is an uninterpreted function of value and formatting options; std::fmt itself is read from its source down to write_str and pad.')
prop('P14', 'Malformed or truncated input is refused with an error, never a panic',
     'Decoding arbitrary bytes with any schema type, derived struct or generated enumeration, inside any open windows, returns a value or an error and never panics. What is taken is taken from the front of the innermost window. When a component fails to decode, so does the whole, with the error of that component.',
     IN, 'every byte string, truncated anywhere, in every nesting of windows, every component type', 'the inputs that make a decoder panic or hide an error are exactly those no test author thought of',
     ['src/prim.rs', 'src/conv/mod.rs', 'src/int.rs', 'src/float.rs', 'src/dynamic.rs', 'src/schema.rs', 'src/seq/mod.rs', 'src/seq/lim.rs', 'src/seq/fix.rs', 'src/fixed.rs', 'src/autobox.rs', 'src/adt.rs', 'src/zarith.rs', 'decode_derive/src/lib.rs'],
     [('every Decode::parse', 'src/conv/mod.rs'), ('VPadded, Dynamic', 'src/dynamic.rs'), ('Nullable, Padded', 'src/schema.rs')],
     observe=['Decode::parse'], note='Sequences of components that occupy no bytes do not terminate on non-empty input; termination is not part of the property.')
prop('P27', 'Buffers hold exactly the bytes they were made of and hand out exactly those',
     'A parse buffer made of a vector, slice, array, HexString or text holds exactly its bytes, in order. get_slice, get_byte, take, split and cut_first give exactly the requested bytes, leave the others as they were, and panic exactly when the request is out of range; the unchecked accessors agree with the checked ones on every request in range.',
     IN, 'every content, every position and length of the request, both buffer types', 'off-by-one requests at the ends of buffers of every length; tests read the middle of one buffer',
     ['src/parse/buffer.rs'], [('ByteBuffer for VecBuffer, SliceBuffer', 'src/parse/buffer.rs'), ('From impls', 'src/parse/buffer.rs')], observe=['VecBuffer', 'SliceBuffer', 'ByteBuffer'])
prop('P32', 'Safe code cannot bypass the checks',
     'No safe program outside the library can make a ranged number, bounded or fixed sequence or fixed string that violates its bounds, read a buffer out of range, forge a tag or move bytes of a parser it does not own: constructors that skip a check are unsafe, representations are private, the sets of prefix and integer types are closed, and parsed views cannot outlive their input. The legitimate counterparts of those programs compile, the data types cross threads and the errors can be boxed.',
     ['programs'], 'a family of programs, each of which has to be rejected by the compiler while a twin that differs in the decisive expression is accepted', 'tests are programs that compile; that a program is rejected is never tested',
     ['src/int.rs', 'src/float.rs', 'src/seq/lim.rs', 'src/seq/fix.rs', 'src/fixed.rs', 'src/dynamic.rs', 'src/parse/buffer.rs', 'src/parse/mod.rs', 'src/hexstring.rs'],
     [('private representations, unsafe unchecked constructors', 'src/int.rs, src/float.rs, src/seq/lim.rs, src/seq/fix.rs, src/fixed.rs'), ('sealed traits', 'src/dynamic.rs, src/int.rs')],
     observe=['RangedInt', 'RangedFloat', 'LimSeq', 'FixSeq', 'FixedBytes', 'FixedString', 'LenPref', 'Integral', 'VecBuffer', 'ByteParser'],
     technique='compile-fail witnesses: the type checker decides, under four feature configurations', note='Decided per listed program; a bypass no program of the list attempts is not looked for.')
prop('P13', 'No use of the library reaches undefined behaviour',
     'Whatever bytes, values and operations a program uses, no unchecked access of the library leaves its buffer, no unchecked conversion meets a value it is not defined for, and no place declared unreachable is reached; in builds with and without overflow checks and debug assertions.',
     ['inputs', 'histories', 'environments'], 'every path of every specification of the other properties (all decoders, encoders, parsers, builders, buffers and conversions), in debug and release settings', 'a violation needs a particular length, offset or nesting, often shows no symptom, and can be hidden by the debug assertions the tests are compiled with',
     ['src/parse/mod.rs', 'src/parse/buffer.rs', 'src/internal/offset.rs', 'src/internal/view.rs', 'src/internal/stack.rs', 'src/internal/splitvec.rs', 'src/dynamic.rs', 'src/fixed.rs', 'src/seq/boundedseq_impl.rs', 'src/zarith.rs'],
     [('SliceParser, ByteParser', 'src/parse/mod.rs'), ('VecBuffer, SliceBuffer', 'src/parse/buffer.rs'), ('LeftoverState::promote', 'src/parse/mod.rs'), ('marshall_usize', 'src/dynamic.rs')],
     observe=['ByteParser', 'MemoParser', 'SliceParser', 'VecBuffer', 'SliceBuffer', 'LenPref', 'FixedBytes', 'LeftoverState', 'Z'],
     note='Unchecked operations are judged by their documented preconditions; those the specifications do not reach are listed by none. unsafe functions are called within their own documented preconditions.')
prop('P26', 'Optional features keep every guarantee',
     'Whichever optional features are enabled, alone or together, the library compiles and every law of the other properties holds as it does by default; a feature changes only what it documents (storage of sequences and stacks, stricter checks of input, how text is read, how sizes are computed).',
     ['environments', 'inputs'], 'seven combinations in which every feature occurs at least twice in different company (thorough: each feature alone as well), with all specifications of the other properties', 'tests run in one configuration; code selected by other features is not even compiled by them',
     ['Cargo.toml', 'src/lib.rs', 'src/seq/fix.rs', 'src/seq/lim.rs', 'src/internal/offset.rs', 'src/schema.rs', 'src/conv/mod.rs', 'src/int.rs', 'src/parse/buffer.rs', 'src/hexstring.rs'],
     [('cfg(feature) alternatives', 'src/seq/fix.rs, src/seq/lim.rs, src/internal/offset.rs, src/parse/buffer.rs, src/conv/mod.rs')], observe=['features'],
     note='Reports only what the default configuration does not show as well; that is the business of the other properties.')

#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the list is easy to maintain).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Decoding never panics, overflows the stack, loops or over-allocates",
  "For every byte string and every decoding entry point of the crate (BER and DER, slice and cursor based, typed, untyped, tagged, optional, collections, derived types and conversions of a decoded element), the call returns a value or an error: it never panics, overflows arithmetic, exhausts the stack or fails to terminate. The memory it allocates stays proportional to the input, whatever lengths the input announces, and nesting deeper than the documented limits is refused with an error.",
  ["inputs"],"all byte strings, any length, any nesting, fed to any decoding entry point",
  "Unit tests feed a handful of well-formed objects and a few truncated ones; panics need specific malformed content (empty contents, announced sizes near the word size, deep nesting) at one of ~50 types x ~10 entry points.",
  ["src/from_ber.rs","src/from_der.rs","src/header.rs","src/ber/parser.rs","src/ber/appendable.rs","src/asn1_types","derive/src"],
  [("header parser with checked arithmetic","src/header.rs parse_header"),("recursion limit","src/ber/parser.rs ber_skip_object_content, MAX_RECURSION"),("segmented string recursion limit","src/ber/appendable.rs")],
  observe=["return value / panic of every public decoding function"])
p("C02","Identifier and length octets decode and encode exactly",
  "Decoding a header yields exactly the class, primitive/constructed flag, tag number and (in)definite length that the identifier and length octets denote, consumes exactly those octets and exposes them verbatim; octets whose tag number or length does not fit the representation, the reserved length octet, and a primitive with indefinite length are refused. Encoding a header emits the identifier and length in the shortest form, and decoding that gives back the same fields.",
  ["inputs"],"all identifier octets, tag numbers over the 32-bit range, all length forms up to 127 length octets",
  "Tests use a dozen fixed headers, almost all single-octet tags with short lengths; boundaries (30/31, 127/128, 2^7k, 2^8k, over-wide tags) are not covered.",
  ["src/header.rs","src/tag.rs","src/class.rs","src/length.rs","src/to_ber/encoder.rs","src/to_ber.rs","src/to_der.rs"],
  [("parse_header","src/header.rs"),("write_header / length encoders","src/to_ber.rs, src/to_der.rs, src/to_ber/encoder.rs")],
  state=[("Header","class, constructed, tag, length, raw octets of a decoded element","src/header.rs")])
p("C03","Every element is framed exactly: header, its contents, and nothing else",
  "Reading one element consumes its header and exactly the announced number of content octets, or, for the indefinite form, everything up to and including the end-of-contents marker that matches it at its own nesting level, whatever look-alike octets occur inside primitive contents or inner elements; the content handed to the caller is exactly those octets without the marker. The strict (DER) readers refuse the indefinite form, and nesting is followed exactly up to the configured depth.",
  ["inputs"],"all trees of definite and indefinite elements, with every placement of marker look-alikes and every depth around the limits",
  "Tests contain two or three indefinite-length objects; mis-matched markers, look-alikes (context tag 0 with no contents, zero octets in contents) and off-by-one at the limits require systematic nesting.",
  ["src/ber/parser.rs","src/ber/appendable.rs","src/header.rs","src/asn1_types/any.rs","src/asn1_types/sequence.rs","src/asn1_types/iterator.rs"],
  [("content finder","src/ber/parser.rs get_object_content / ber_skip_object_content"),("DER content reader","src/ber/parser.rs DerMode")])
p("C04","Trailing data never matters and truncated input never yields a value",
  "If decoding an input succeeds and consumes n octets, then decoding any other input with the same first n octets gives the same value and returns everything after them untouched; decoding any shorter prefix of those n octets never gives a value, and the shortfall is reported as incomplete data rather than as malformed data, except that an identifier cut off in the middle of a multi-octet tag number is reported as an invalid tag.",
  ["inputs"],"every accepted encoding of every type, every cut point and every appended suffix from a small alphabet",
  "Tests exercise one or two remainders and truncations on selected types; the statement quantifies over all types, cut points and suffixes.",
  ["src/from_ber.rs","src/from_der.rs","src/header.rs","src/ber/parser.rs","src/asn1_types","src/error.rs"],
  [("streaming take of announced contents","src/header.rs, src/ber/parser.rs"),("error conversion Incomplete","src/error.rs")])
p("C05","Integers decode to exactly the encoded number or are refused",
  "For every INTEGER content and every supported representation (signed and unsigned machine widths, arbitrary precision, raw), decoding gives exactly the two's-complement number the octets denote when it fits the target and an error when it does not - never a wrapped, truncated or sign-confused number; encoding any number produces the unique shortest two's-complement form. Conversions between the raw integer type, machine integers and big integers preserve the number or fail.",
  ["inputs"],"all contents up to 3 octets for every width, all boundary-pattern contents up to 18 octets, all values around every power-of-two boundary",
  "Unit tests check about 30 numbers; the fit / sign / leading-octet logic is a per-width case split whose corner cases only an exhaustive sweep covers.",
  ["src/asn1_types/integer.rs"],
  [("width specific conversion","src/asn1_types/integer.rs"),("encoders","src/asn1_types/integer.rs")])
p("C06","Every value survives encoding and decoding, in BER and in DER",
  "For every encodable type and every value of it that its encoding can express, encoding succeeds and decoding the produced octets with the matching rules yields an equal value and consumes all of them; the produced octets are themselves one well-formed element with the type's tag. A value that cannot be expressed in the requested rules is refused by the encoder rather than written wrongly.",
  ["inputs"],"all types x all values of small exhaustive domains plus every value next to a length-form or range boundary",
  "Round-trip tests use one or two values per type and none near the length-form boundaries (127/128, 255/256, 65535/65536).",
  ["src/to_ber.rs","src/to_der.rs","src/to_ber","src/asn1_types"],
  [("ToBer / ToDer implementations","src/asn1_types/*"),("generic encoders","src/to_ber/*")])
p("C07","Encoders account for every byte and surface every writer failure",
  "For every value, the announced content length, the announced total length, the count returned by each writing call and the number of bytes really written agree with each other and with the length octets in the output, on plain, implicitly tagged and explicitly tagged encodings. If the destination fails or is full after any number of bytes, the encoder returns an error and what was written is a prefix of the full encoding; destinations that accept only a few bytes per call get the same encoding.",
  ["inputs","fault_sequences"],"all values of the round-trip domain x every byte position at which the destination can fail, and short-write patterns",
  "Tests write to growable vectors only; no test has a failing, full or short-writing destination, and lengths are rarely compared to what was written.",
  ["src/to_ber.rs","src/to_der.rs","src/to_ber/encoder.rs","src/to_ber/primitive.rs","src/to_ber/constructed.rs","src/to_ber/constructed_indefinite.rs","src/to_ber/generic.rs","src/length.rs","src/asn1_types","derive/src/container.rs"],
  [("length prediction","der_total_len / ber_total_len / *_content_len"),("write_header / write_content","src/to_ber/*")])
p("C08","DER decoding accepts only the canonical encoding",
  "Whenever a strict (DER) decoder accepts an input as a value, encoding that value in DER gives back exactly the octets that were consumed; hence no two different encodings of the same value are both accepted. This covers lengths, tags, booleans, integers, bit-string padding, times, primitive/constructed form and nested elements.",
  ["inputs"],"all octet strings up to a small length and all single and double deviations from canonical encodings, for every type with a DER decoder",
  "Tests contain a few negative examples; canonicity is a universally quantified statement over all non-canonical encodings.",
  ["src/from_der.rs","src/header.rs","src/asn1_types","src/to_der.rs"],
  [("constraint checks","CheckDerConstraints / from_der_content implementations"),("definite length check","src/header.rs parse_der")])
p("C09","Everything DER accepts, BER accepts with the same value",
  "For every input and type, if the strict (DER) decoder accepts it then the general (BER) decoder accepts it too, consumes the same octets and produces an equal value; and every DER encoding produced by the crate is a valid BER encoding of the same value.",
  ["inputs"],"all enumerated inputs of all types (short exhaustive strings, canonical encodings and their deviations)",
  "Tests treat the two rule sets separately; the subset relation quantifies over all inputs.",
  ["src/from_ber.rs","src/from_der.rs","src/asn1_types"],
  [("parallel BER and DER implementations","src/asn1_types/*"),("TryFrom<Any>","src/asn1_types/*")])
p("C10","All entry points for decoding the same type agree",
  "For a given type, rule set and input, every way of decoding it - from a slice, from a cursor, through the untyped element and its accessors or conversions, through the as-input form, and wrapped as optional - gives the same verdict, the same value and the same remaining data.",
  ["inputs"],"all enumerated inputs x all pairs of entry points of the same type",
  "The code has two generations of traits implemented separately for each type; tests exercise mostly one per type.",
  ["src/from_ber.rs","src/from_der.rs","src/asn1_types/any.rs","src/asn1_types"],
  [("FromBer/FromDer","src/from_ber.rs, src/from_der.rs"),("BerParser/DerParser","src/from_ber.rs, src/from_der.rs"),("Any accessors","src/asn1_types/any.rs")])
p("C11","Tags decide: tagged and optional elements match exactly what was declared",
  "An explicitly or implicitly tagged decoder yields a value only if the tag number and class are the declared ones, explicit tagging requires a constructed wrapper holding the inner element, and implicit tagging keeps the inner contents and form; encoding with the same tagging gives octets that decode back. An optional element yields 'absent' without consuming anything exactly when the input is empty or the next tag number is a different one (the same number in another class is an error, as documented), and otherwise behaves exactly like the mandatory element, including its errors.",
  ["inputs"],"all class x tag x form combinations against all declared class/tag/kind combinations and inner types, for all tagged and optional decoders and builders",
  "Tests check a few context-specific tags; mixed classes, wrong forms, long tags and optional/tagged combinations are not enumerated.",
  ["src/asn1_types/tagged.rs","src/asn1_types/tagged","src/asn1_types/optional.rs","src/asn1_types/any.rs","src/traits.rs"],
  [("TaggedExplicit/TaggedImplicit","src/asn1_types/tagged/*"),("OptTaggedParser, TaggedParserBuilder","src/asn1_types/tagged/*"),("Option<T>","src/asn1_types/optional.rs")])
p("C12","Character strings hold exactly the characters encoded, within their repertoire",
  "Each character string type accepts a content exactly when every octet group denotes a character of that type's repertoire, and yields precisely those characters in order; this holds equally for primitive and (BER) segmented encodings, and DER accepts only the primitive form. Encoding a string writes its characters in the type's own representation with the right length.",
  ["inputs"],"every octet value at every position of short strings, all UTF-8 lead/continuation classes, every 16-bit unit, 32-bit units around every range boundary, all segmentations of short strings",
  "Tests use a few ASCII words; repertoire and multi-octet decoding is a per-octet table.",
  ["src/asn1_types/strings.rs","src/asn1_types/strings","src/asn1_types/object_descriptor.rs","src/ber/appendable.rs"],
  [("test_valid_charset per type","src/asn1_types/strings/*"),("parse_ber_segmented","src/ber/appendable.rs")])
p("C13","Bit strings and octet strings keep every bit, in any segmentation",
  "Decoding an octet string or bit string yields exactly the octets or bits encoded, whether the encoding is primitive or (BER only) split into any arrangement of segments; a bit string's unused-bit count outside 0..7, or non-zero with no octets, is refused, and DER additionally requires zero padding and the primitive form. Bit access agrees with the bit order of the encoding for every position and reports absence beyond the end.",
  ["inputs"],"all contents up to 3 octets, all segmentation trees of short strings, every bit index",
  "Tests have one or two segmented strings; the combination of segmentation, empty segments, padding and limits is combinatorial.",
  ["src/asn1_types/bitstring.rs","src/asn1_types/octetstring.rs","src/ber/appendable.rs"],
  [("from_ber_content / from_der_content","src/asn1_types/bitstring.rs, octetstring.rs"),("segment concatenation","src/ber/appendable.rs")])
p("C14","Object identifiers denote exactly their arcs",
  "An object identifier (absolute or relative) built from arcs, parsed from octets, printed as dotted text, iterated, compared for prefix, or re-encoded always denotes the same sequence of arcs; arcs that cannot be represented are refused rather than altered, and a content that does not end on an arc boundary has no arcs to offer. The reported number of arcs equals the number iterated.",
  ["inputs"],"all contents up to 3 octets, all arc vectors up to length 4 over boundary values, both kinds, all widths of arc",
  "Tests use a few well-known identifiers; base-128 boundaries, first-arc packing and oversize arcs are not covered.",
  ["src/asn1_types/oid.rs"],
  [("iter / from / to_id_string / starts_with","src/asn1_types/oid.rs")])
p("C15","Real numbers decode to the denoted value and never to a different one",
  "For every REAL content, decoding yields the special value, decimal value or mantissa-base-exponent value that the content denotes, correct to the precision of a double, or an error; encoding a finite or special value and decoding it yields the same number.",
  ["inputs"],"all contents up to 3 octets over every first octet, all base/scale/sign/exponent-form combinations over boundary mantissas and exponents, all decimal forms over a small alphabet, all doubles over boundary exponents and mantissas",
  "Tests check about fifteen constants; sign, scale, base and exponent-length forms multiply.",
  ["src/asn1_types/real.rs","src/asn1_types/real"],
  [("Real decoding and encoding","src/asn1_types/real.rs")])
p("C16","Times are calendar-exact in parsing, printing and encoding",
  "A time content is accepted exactly when it is a permitted form with every field in range, and the year, month, day, hour, minute, second, fraction and zone offset obtained are the ones written; century selection for two-digit years follows the 50-year rule, and conversion to an absolute instant is exact. DER accepts only the complete UTC form, and encoding then decoding a time gives the same instant.",
  ["inputs"],"every value of each two-digit field, all forms with/without seconds, fraction and zone, all offsets, all octet substitutions in valid templates",
  "Tests check some ten strings; field ranges, zone signs, fraction digits and optional parts are independent dimensions.",
  ["src/datetime.rs","src/asn1_types/utctime.rs","src/asn1_types/generalizedtime.rs"],
  [("field parser","src/datetime.rs"),("UtcTime / GeneralizedTime","src/asn1_types/utctime.rs, generalizedtime.rs")])
p("C17","Collections hold exactly their elements, in order, once each",
  "Decoding a SEQUENCE/SET (OF) - eagerly into any collection, lazily through any iterator, through callbacks, arrays or tuples - yields exactly the elements encoded, in order, and fails if any element, any left-over data inside the contents, or the element count is wrong; sets hold each distinct element once. An iterator yields at most one error and then stops, and building or editing a collection step by step gives the same encoding as building it at once.",
  ["inputs","histories"],"all element sequences up to length 4 over valid and faulty elements x all collection types and iterators; all operation sequences up to a depth on iterators and collection builders",
  "Tests decode two-element sequences; error position, left-over octets and iterator behaviour after errors are not enumerated.",
  ["src/asn1_types/sequence.rs","src/asn1_types/sequence","src/asn1_types/set.rs","src/asn1_types/set","src/asn1_types/iterator.rs"],
  [("SequenceOf/SetOf/Vec/arrays/tuples","src/asn1_types/sequence/*, set/*"),("SequenceIterator/AnyIterator","src/asn1_types/iterator.rs, sequence/iterator.rs")],
  state=[("iterator cursor","remaining input and error flag","src/asn1_types/iterator.rs, src/asn1_types/sequence/iterator.rs")])
p("C18","Derived codecs implement exactly the declared schema",
  "For a type whose decoder or encoder is derived, the accepted encodings and produced values are those of the ASN.1 schema its declaration describes: fields in order with their tagging, optional and default fields taken when present and filled in when absent, alternatives selected by tag, enumerations by number, wrappers by their inner type. Encoding a value of a derived type and decoding it gives the value back with exact lengths, and old- and new-style derives agree.",
  ["programs","inputs"],"a generated family of type declarations covering every field attribute and container kind in combination, x all present/absent/wrong/duplicated/reordered field patterns",
  "Tests derive a few dozen hand-written types with one or two inputs each; attribute interactions and absent/wrong fields multiply.",
  ["derive/src","src/derive.rs","src/traits.rs"],
  [("code generation","derive/src/container.rs, derive/src/sequence.rs, derive/src/set.rs, derive/src/choice.rs, derive/src/enumerated.rs, derive/src/alias.rs"),("attribute parsing","derive/src/asn1_type.rs, derive/src/options.rs")])
p("C19","Owned copies are the same value",
  "Turning a decoded, borrowed value into an owned one changes nothing observable: it compares equal, prints the same, keeps the same header information and encodes to the same octets, and remains so after the original input is gone.",
  ["inputs"],"all accepted inputs of every borrowed type",
  "Tests convert two or three values; per-field copying errors show only for particular header forms or contents.",
  ["src/tostatic.rs","src/asn1_types","src/header.rs","derive/src/tostatic.rs"],
  [("ToStatic implementations","src/tostatic.rs, src/asn1_types/*")])
p("C20","Optional features change nothing but what they add",
  "Turning on or off the crate's optional features (diagnostics, tracing, big integers, date-time) does not change any verdict, value, remaining data or encoding of the functions available in both builds.",
  ["configurations","inputs"],"every feature combination that changes shared code x all enumerated inputs",
  "The test suite runs in one configuration at a time and compares nothing across them.",
  ["Cargo.toml","src/debug.rs","src/lib.rs","src/asn1_types","src/from_der.rs"],
  [("feature-gated wrappers","src/debug.rs trace functions")])
p("C21","Input positions and error locations always point at the right octets",
  "A decoding cursor's recorded span always covers exactly the octets it holds within the original buffer, through every splitting, taking and iterating operation; remaining data, contents and raw headers handed out by decoders are at their true positions. The input location carried by a decoding error lies inside the original buffer and denotes the octets found there. Converting an error between the error types of the crate, or flattening it, keeps its kind, its data and the location it already carries.",
  ["inputs","histories"],"all sequences of cursor operations up to a depth on small buffers, and all decoding results and errors over the enumerated inputs",
  "Tests check spans on a couple of inputs; drift appears only after particular operation sequences.",
  ["src/input.rs","src/error.rs","src/header.rs","src/ber/parser.rs","src/asn1_types/any.rs"],
  [("Input span arithmetic","src/input.rs"),("BerError input","src/error.rs")])
p("C22","Length arithmetic and length helpers predict real sizes",
  "Adding and summing lengths is exact, and any indefinite operand makes the result indefinite, in any order and grouping. The helper functions that predict tag, length-field, header and total sizes return exactly the number of octets the encoder writes, for every tag and content length.",
  ["inputs","histories"],"all expressions up to 4 operands over boundary lengths; all tags and lengths around every size boundary up to the machine word",
  "Tests use a few small lengths; boundaries at 2^7, 2^8, 2^16, 2^24, 2^32 are untested.",
  ["src/length.rs","src/to_ber/encoder.rs","src/to_ber.rs"],
  [("Add / Sum","src/length.rs"),("ber_tag_length / ber_length_length / ber_header_length / ber_total_length","src/to_ber/encoder.rs")])
p("C23","Compile-time constants equal their run-time counterparts",
  "An object identifier, relative identifier or integer written with the crate's compile-time macros equals the value built at run time from the same arcs or number, has the same encoding and the same text, in every macro form.",
  ["programs"],"a generated program with every boundary arc, arc combination and integer boundary in each macro form",
  "Compile-time macros are tested with about ten literals.",
  ["impl/src/lib.rs","src/asn1_types/oid.rs","src/const_int.rs","src/asn1_types/integer.rs"],
  [("encode_oid / encode_int","impl/src/lib.rs"),("oid! / int! macros","src/asn1_types/oid.rs, src/const_int.rs")])
p("C24","Untyped elements are transparent",
  "An element decoded without knowing its type keeps its header and contents exactly, re-encodes to an element with the same class, form, tag and contents, and any typed accessor or conversion applied to it gives the same result as decoding that type directly from the contents. Elements that compare equal have equal hashes.",
  ["inputs"],"all headers x contents over small alphabets, all accessors",
  "Tests check a handful of accessors on well-formed values of the right type.",
  ["src/asn1_types/any.rs","src/header.rs"],
  [("Any","src/asn1_types/any.rs")],)
p("C25","Booleans, nulls, enumerations and end markers have their exact meaning",
  "A BOOLEAN is exactly one content octet, false for zero and true for any other value in BER and only for all-ones in DER; NULL and end-of-contents have no contents; an ENUMERATED denotes its unsigned number or is refused if too wide. All are primitive, and each encodes to its unique DER form.",
  ["inputs"],"all contents up to 2 octets exhaustively, boundary contents up to 6 octets, both forms, all entry points",
  "Tests check a handful of values.",
  ["src/asn1_types/boolean.rs","src/asn1_types/null.rs","src/asn1_types/enumerated.rs","src/asn1_types/end_of_content.rs"],
  [("per-type decoders","src/asn1_types/*")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))

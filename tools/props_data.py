SAMPLES = "The only runnable test reflects a few structs; the repository's other tests try a few dozen hand-picked values."
prop("C01", "Name text round trip",
     "Every 64-bit name value has a text of at most 13 characters from '.', '1'-'5', 'a'-'z' with no trailing dot, distinct values have distinct texts, and parsing that text with any name parser (strict, throwing or lenient, every overload) gives the value back. "
     "The JSON form is that text in quotes and the binary form is the 8-byte little-endian value, and both decode to the same name. Any text the strict parser accepts prints back as itself up to trailing dots.",
     "all 2^64 values; all byte strings of up to 13 characters",
     SAMPLES + " Bit-packing errors that touch one character position or the 13th character only are not sampled.",
     ["include/eosio/name.hpp", "include/eosio/chain_conversions.hpp"],
     [("name_to_string / string_to_name / string_to_name_strict", "include/eosio/chain_conversions.hpp"), ("struct name", "include/eosio/name.hpp"), ("from_json(name)/to_json(name)", "include/eosio/name.hpp")],
     observe=["name_to_string", "string_to_name*", "convert_to_json", "convert_to_bin"])
prop("C02", "Strict name parsing accepts exactly the valid names",
     "The strict name parsers (the try_, throwing and constructor forms) accept exactly the strings of at most 13 characters over '.', '1'-'5', 'a'-'z' whose 13th character, if present, is one of '.', '1'-'5', 'a'-'j', and reject every other string with an error. "
     "An accepted string has the positional base-32 value (five bits per character, four for the 13th), which the lenient parser, the name hash and compile-time literals agree with. Converting a single character accepts exactly the 32 alphabet characters.",
     "all byte strings up to the bound",
     SAMPLES + " Accepting one invalid character, or mis-checking the 13th, needs an input tests do not contain.",
     ["include/eosio/chain_conversions.hpp", "include/eosio/name.hpp", "include/eosio/murmur.hpp"],
     [("try_string_to_name_strict, char_to_name_digit_strict", "include/eosio/chain_conversions.hpp"), ("name::char_to_value", "include/eosio/name.hpp")],
     observe=["try_string_to_name_strict", "string_to_name_strict", "name(std::string_view)", "name::char_to_value"])
prop("C03", "Name length, prefix, suffix and ordering follow the text",
     "For every name value, length() is the length of its text, suffix() is the text after its last dot (the whole name when there is none) and prefix() is the text before its last dot, less trailing dots (the whole name when there is none). "
     "The six comparison operators on names order them as their texts padded with dots to 13 characters compare lexicographically.",
     "all 2^64 values, all pairs for comparisons",
     SAMPLES + " Most helper methods are not exercised at all.",
     ["include/eosio/name.hpp", "include/eosio/operators.hpp"],
     [("name::length/prefix/suffix", "include/eosio/name.hpp"), ("EOSIO_COMPARE", "include/eosio/operators.hpp")],
     observe=["name::length", "name::prefix", "name::suffix", "operators"])
prop("C04", "Variable-length integers are minimal, exact and range-checked",
     "Encoding a 32-bit value as varuint32 gives its minimal little-endian base-128 form (varint32: of the zig-zag value), identically on every stream kind, and a value above 2^32-1 is refused. "
     "The 32-bit decoders accept exactly the byte strings in which a terminating byte (high bit clear) occurs within the first 5 bytes (64-bit: 10 bytes), consume exactly through it, yield the sum of the 7-bit groups whenever that fits the type, and report an error for every other input. "
     "Decoding an encoding gives the value back and consumes exactly the encoding.",
     "all 32-bit values, all 64-bit sizes, all byte strings up to 7 (12) bytes",
     SAMPLES + " Over-long, truncated and wide encodings are input-space properties.",
     ["include/eosio/from_bin.hpp", "include/eosio/to_bin.hpp", "include/eosio/varint.hpp"],
     [("varuint32_to_bin", "include/eosio/to_bin.hpp"), ("varuint32_from_bin, varuint64_from_bin, varint32_from_bin", "include/eosio/from_bin.hpp"), ("varuint32, varint32", "include/eosio/varint.hpp")],
     observe=["convert_to_bin", "from_bin", "push_varuint32"])
prop("C05", "Binary encoding round trip",
     "For every value of every encodable type (scalars, enums, strings, byte vectors, sequence and associative containers, optional, variant, tuple, pair, arrays, reflected structs, chain types and keys), decoding the value's binary encoding gives an equal value, consumes exactly the encoding and does not depend on bytes that follow it nor, except that sets, maps, lists and deques add to their elements, on what the target held. "
     "Encodings have the specified layout: scalars are their little-endian bytes, a length or variant index is a varuint32 prefix, optionals a presence byte, structs the concatenation of their fields. Encoding into a non-empty buffer appends and leaves existing bytes alone.",
     "all values of each type within the container-size bounds",
     "Values, container shapes and nesting are unbounded; " + SAMPLES[0].lower() + SAMPLES[1:],
     ["include/eosio/to_bin.hpp", "include/eosio/from_bin.hpp", "include/eosio/crypto.hpp", "include/eosio/fixed_bytes.hpp"],
     [("to_bin overloads", "include/eosio/to_bin.hpp"), ("from_bin overloads", "include/eosio/from_bin.hpp"), ("to_bin/from_bin of keys", "include/eosio/crypto.hpp"), ("fixed_bytes", "include/eosio/fixed_bytes.hpp")],
     observe=["convert_to_bin", "from_bin"])
prop("C06", "Decoding untrusted binary is memory-safe and bounded",
     "Decoding any byte string as any decodable type either succeeds or fails with an exception; it never reads outside the input, never leaves the read position outside the input, never requests memory out of proportion to the input, and produces valid objects (for example a bool that is true or false). "
     "A fixed-size value is accepted exactly when enough bytes are present and then consumes exactly its size; an accepted value is accepted again when the bytes after it are removed. "
     "Invalid variant indices are rejected with an error.",
     "all byte strings up to the bound, for each decodable type",
     "Malformed inputs are endless; the tests decode well-formed data.",
     ["include/eosio/from_bin.hpp", "include/eosio/stream.hpp", "include/eosio/crypto.hpp"],
     [("from_bin overloads", "include/eosio/from_bin.hpp"), ("input_stream bounds checks", "include/eosio/stream.hpp")],
     observe=["from_bin", "input_stream::pos"])
prop("C07", "Streams write every byte, in order, and stop at their bounds",
     "Whatever sequence of writes is made, the vector, string, fixed-buffer and size-counting output streams agree: the vector and string hold exactly the written bytes in order, the counter their number, and the fixed buffer accepts a write exactly when it fits and otherwise throws without touching bytes outside the buffer. "
     "An input stream's read, skip and check operations succeed exactly when enough bytes remain, for any requested 64-bit size, deliver exactly the next bytes, and otherwise throw; a reuse view covers exactly the skipped bytes.",
     "all write sequences, capacities, inputs and request sizes within the bounds",
     "Sizes and sequences are unbounded and the error paths are not tested.",
     ["include/eosio/stream.hpp"],
     [("input_stream", "include/eosio/stream.hpp"), ("vector_stream, fixed_buf_stream, size_stream, string_stream", "include/eosio/stream.hpp")],
     over=("inputs", "histories"), observe=["stream write/read/skip/check_available"])
prop("C08", "Sort keys preserve order and are prefix-free",
     "For every two values of a type that can be converted to a sort key (scalars, floating point other than NaN, strings, sequences, sets, maps, optionals, variants, tuples, pairs, arrays, reflected structs, chain types), the unsigned byte-wise comparison of their keys gives the same ordering and equality as comparing the values. "
     "No key is a proper prefix of the key of another value of the same type. Converting into a non-empty buffer appends and leaves existing bytes alone.",
     "all pairs of values within the container-size bounds",
     "Order preservation is a statement about all pairs; tests compare a few.",
     ["include/eosio/to_key.hpp"],
     [("to_key overloads", "include/eosio/to_key.hpp"), ("to_key_varuint32, float flipping", "include/eosio/to_key.hpp")],
     observe=["convert_to_key"])
prop("C29", "Opaque fields keep and later yield exactly their payload",
     "Decoding an opaque<T> field consumes its length prefix and exactly that many bytes, re-encoding it reproduces those bytes, and unpacking it yields the value T decodes from the payload; for vectors, unpacking the size and then each element in turn yields the same elements as unpacking all at once and leaves nothing. "
     "For arbitrary bytes, unpacking never reads outside the field's payload and fails with an error when the payload is too short.",
     "all payloads and element values within the bounds",
     "No test exercises malformed or partially unpacked opaque fields.",
     ["include/eosio/opaque.hpp", "include/eosio/stream.hpp"],
     [("opaque<T>, opaque<std::vector<T>>", "include/eosio/opaque.hpp")],
     observe=["opaque::unpack", "opaque::unpack_size", "opaque::unpack_next"])
prop("C09", "JSON integers keep their exact value and reject everything else",
     "Every integer of every width (8 to 128 bits, signed and unsigned) is written as its canonical decimal text (quoted when wider than 32 bits) and reads back as the same value, with or without quotes (up to 64 bits without). "
     "A decimal text is accepted exactly when its value fits the type (a minus sign only for signed types) and yields that value; any other quoted text, including empty, sign-only, and text with stray characters, is an error and never a truncated or wrapped value.",
     "all values of all integer types; all quoted texts within the bounds",
     SAMPLES + " Overflow boundaries and stray characters are input-space properties.",
     ["include/eosio/from_json.hpp", "include/eosio/to_json.hpp"],
     [("from_json_int", "include/eosio/from_json.hpp"), ("int_to_json", "include/eosio/to_json.hpp")],
     observe=["from_json", "convert_to_json"])
prop("C10", "JSON strings are escaped so that they parse back unchanged",
     "Writing any byte string as JSON yields a valid JSON string literal with no raw control characters, quotes or backslashes, which reads back as the same string when the input is valid UTF-8; each byte that is not part of a valid UTF-8 sequence is replaced by '?'. "
     "Reading a JSON string literal yields the text it denotes (escapes, \\uXXXX and surrogate pairs included) and rejects malformed literals with an error.",
     "all byte strings and quoted texts within the bounds",
     SAMPLES,
     ["include/eosio/to_json.hpp", "include/eosio/from_json.hpp"],
     [("to_json(std::string_view)", "include/eosio/to_json.hpp"), ("from_json(std::string), json_token_stream", "include/eosio/from_json.hpp")],
     observe=["convert_to_json", "from_json"])
prop("C12", "Times are written and read as calendar dates without loss",
     "Every time from 1970-01-01 to 2106-02-07T06:28:15 UTC is written as its Gregorian date YYYY-MM-DDTHH:MM:SS.mmm and reads back as the same time (seconds for time_point_sec, milliseconds for time_point, half-second slots from 2000 on for block_timestamp). "
     "Exactly the valid calendar texts in that range are accepted, with an optional fraction of decimal digits (at most six for time_point), and everything else is an error. "
     "Conversions between the time types truncate to the coarser unit, slot order is time order, next() is the following slot or an error at the last one, and duration arithmetic and comparisons are those of the integers.",
     "all times of the listed years; single-character corruptions, truncations and fractions of valid texts",
     SAMPLES + " Leap years, month ends and midnight are points in a space of billions of times.",
     ["include/eosio/time.hpp", "include/eosio/chain_conversions.hpp"],
     [("microseconds_to_str, string_to_utc_seconds, string_to_utc_microseconds", "include/eosio/chain_conversions.hpp"), ("year_month_day, sys_days", "include/eosio/chain_conversions.hpp"), ("microseconds, time_point, time_point_sec, block_timestamp", "include/eosio/time.hpp")],
     observe=["convert_to_json", "from_json", "conversions and operators"])

prop("C11", "Bytes and checksums as hexadecimal text",
     "A byte vector, a checksum (160, 256, 512 bit) or a float128 is written as JSON text of two upper-case hexadecimal digits per byte, in order, and reads back equal; lower-case digits read the same. "
     "A text is accepted exactly when it consists only of hexadecimal digits and there are an even number of them (for fixed-size types exactly two per byte); every other text and every other JSON value is an error, and reading replaces the earlier content. "
     "The hex and unhex helpers of the library follow the same rule.",
     "all byte contents up to the length bound, all contents of the fixed-size types, texts with arbitrary characters",
     SAMPLES + " One accepted non-digit or one digit mapped wrongly hides among 256 characters and two nibble positions.",
     ["include/eosio/bytes.hpp", "include/eosio/fixed_bytes.hpp", "include/eosio/from_json.hpp", "include/eosio/to_json.hpp", "src/abieos.hpp"],
     [("from_json_hex", "include/eosio/from_json.hpp"), ("to_json_hex", "include/eosio/to_json.hpp"), ("fixed_bytes from_json/to_json", "include/eosio/fixed_bytes.hpp"), ("hex, unhex", "src/abieos.hpp")],
     observe=["convert_to_json", "from_json", "abieos::hex", "abieos::unhex"])
prop("C13", "Symbols and symbol codes keep their text, packing and validity",
     "A symbol code of one to seven letters A-Z and a symbol 'precision,CODE' with precision 0..255 are packed little-endian (code letters from the low byte, precision below them), and text, JSON and binary forms all give the same value back. "
     "is_valid() is true exactly for one to seven letters followed only by zero bytes, the code's constructor accepts exactly such texts, and the JSON readers accept exactly such texts (with optional leading spaces before the code, and a decimal precision of at most 255 and a comma for symbols) and reject the rest with an error. "
     "Codes, symbols and extended symbols compare as their packed integers (then the contract).",
     "all codes and precisions, all raw values, texts with arbitrary characters up to the bound",
     SAMPLES + " Overlong codes, precisions above 255 and stray characters are not tried.",
     ["include/eosio/symbol.hpp", "include/eosio/chain_conversions.hpp"],
     [("symbol, symbol_code, extended_symbol", "include/eosio/symbol.hpp"), ("string_to_symbol, string_to_symbol_code, symbol_to_string", "include/eosio/chain_conversions.hpp")],
     observe=["symbol_code(std::string_view)", "to_string", "convert_to_json", "from_json", "is_valid", "operators"])
prop("C14", "Assets keep amount, precision and code through their text",
     "Every 64-bit amount with every precision and code is written as [-]digits[.digits] CODE with exactly the symbol's number of fraction digits, and the text, its JSON and its binary form all read back as the same amount and symbol. "
     "A text [-]digits[.digits] CODE is accepted exactly when the amount fits a signed 64-bit integer, there are at most 255 fraction digits and the code has one to seven letters; texts with any other character or layout are errors, never a wrapped amount. "
     "Creating an asset from a string additionally enforces the valid amount range of +/-(2^62-1).",
     "all amounts, precisions and codes; all digit strings of up to 20 digits with a point anywhere; texts with arbitrary characters",
     SAMPLES + " The limits of the amount and of the precision are single points in huge ranges.",
     ["include/eosio/asset.hpp", "include/eosio/chain_conversions.hpp"],
     [("asset_to_string, string_to_asset", "include/eosio/chain_conversions.hpp"), ("from_json(asset), to_json(asset), convert_from_string", "include/eosio/asset.hpp")],
     observe=["asset::to_string", "convert_to_json", "from_json", "convert_from_string"])
prop("C15", "Asset arithmetic is exact or refused",
     "Adding, subtracting, multiplying and dividing assets and extended assets gives the exact integer result with the symbol (and contract) kept, or throws when symbols or contracts differ, the result leaves +/-(2^62-1) (for +, - and *), the divisor is zero or the quotient overflows; no operation wraps silently. "
     "The ordering and equality operators compare amounts and throw on different symbols (ordering of extended assets also on different contracts). "
     "Constructing an asset or setting an amount succeeds exactly for amounts in range and valid symbols.",
     "all pairs of amounts and factors, all pairs of symbols and contracts",
     SAMPLES + " Overflow happens at single points of a 128-bit space.",
     ["include/eosio/asset.hpp"],
     [("asset operators", "include/eosio/asset.hpp"), ("extended_asset operators", "include/eosio/asset.hpp")],
     observe=["asset/extended_asset constructors, set_amount and operators"])
prop("C18", "128-bit integers keep their values without a native 128-bit type",
     "In the build without a native 128-bit type (ABIEOS_NO_INT128), the decimal text of a 128-bit integer and its 16 bytes stand for the same number in both directions: bytes give the shortest decimal text, and a decimal text gives the bytes of its value. "
     "A text is accepted exactly when it is a decimal number in the range of the type (with '-' for signed ones only); all other texts are refused with an error.",
     "decimal texts of every length with arbitrary digits; byte arrays of all widths",
     SAMPLES + " Carries between bytes and the limits of the range show only for particular digits.",
     ["include/eosio/abieos_numeric.hpp", "src/abieos.hpp"],
     [("decimal_to_binary, binary_to_decimal, negate", "include/eosio/abieos_numeric.hpp"), ("from_json, to_json of int128 and uint128", "src/abieos.hpp")],
     observe=["abieos::decimal_to_binary", "abieos::binary_to_decimal", "from_json and to_json of abieos::int128 and uint128"])
prop("C19", "Fixed-size byte arrays hold and compare their bytes in order",
     "A fixed_bytes value of any size and word type built from bytes or words yields exactly these bytes and big-endian words (the rest zero), and its binary and sort-key forms are exactly its bytes. "
     "Decoding reads exactly that many bytes, fails when there are fewer, and leaves the padding of the last word zero. "
     "The six comparison operators order values as their bytes compare lexicographically.",
     "all byte contents, all pairs, several sizes and word widths",
     SAMPLES + " Partial last words and differences in a single late byte are not sampled.",
     ["include/eosio/fixed_bytes.hpp"],
     [("fixed_bytes", "include/eosio/fixed_bytes.hpp"), ("set_from_word_sequence, extract_as_byte_array", "include/eosio/fixed_bytes.hpp")],
     observe=["fixed_bytes constructors, extract_as_*, operators, to_bin, to_key, from_bin"])
prop("C16", "Base58 and key texts are exact, checked by their checksum and mutually inverse",
     "to_base58 and from_base58 treat bytes as one big-endian number plus one '1' per leading zero byte, are inverse to each other, and from_base58 accepts exactly texts made of the 58 digits. "
     "A public key, private key or signature is written as its kind's prefix and the base58 of its bytes followed by the first four bytes of the ripemd160 of these bytes and the kind's suffix, both as text and as JSON. "
     "The text readers return the key exactly when prefix, digits, checksum and contents are right (legacy EOS keys without suffix; legacy private keys without prefix), and throw otherwise.",
     "byte strings and digit strings up to the bound, arbitrary characters in short texts, one arbitrary byte or character inside full keys of every kind",
     SAMPLES + " A dropped leading zero, one wrong digit or an unchecked checksum byte shows only for particular keys.",
     ["src/crypto.cpp", "include/eosio/crypto.hpp", "include/eosio/abieos_ripemd160.hpp"],
     [("base58_to_binary, binary_to_base58", "src/crypto.cpp"), ("key_to_string, string_to_key", "src/crypto.cpp"), ("public_key_from_string, private_key_from_string, signature_from_string", "src/crypto.cpp")],
     observe=["to_base58", "from_base58", "*_to_string", "*_from_string", "convert_to_json"])
prop("C17", "ripemd160 computes RIPEMD-160",
     "The incremental hash equals RIPEMD-160 as specified for every message, of any length and content. "
     "It does not depend on how the message is split into update calls. "
     "The context can be used for message lengths around every block and padding boundary.",
     "all message contents for lengths around the block boundaries, arbitrary splits",
     SAMPLES + " One wrong rotation, a wrong padding length or a lost buffered byte shows only at particular lengths or splits.",
     ["include/eosio/abieos_ripemd160.hpp"],
     [("ripemd160_update, ripemd160_digest", "include/eosio/abieos_ripemd160.hpp")],
     observe=["ripemd160_init", "ripemd160_update", "ripemd160_digest"])
prop("C20", "ABI-driven conversion agrees with the type's definition in both directions",
     "For every type an ABI can build from built-in types, structs with bases, variants, aliases, arrays and optionals, bin_to_json gives exactly the JSON the definition prescribes for the value, reading exactly its bytes, and json_to_bin and json_to_bin_reorderable of this JSON give back exactly these bytes. "
     "A binary form that is cut off anywhere is refused with an error. "
     "For every built-in type name the ABI-driven conversions accept the same inputs and give the same results as the native conversions of the C++ type.",
     "all shapes of types up to a depth, all leaf contents, every cut; for built-in types arbitrary bytes and texts",
     SAMPLES + " Shapes of types and values are unbounded; the ABI machine keeps an explicit stack whose mistakes need particular nestings.",
     ["src/abieos.hpp", "src/abi.cpp", "include/eosio/abi.hpp"],
     [("bin_to_json, json_to_bin (pseudo_object, pseudo_array, pseudo_variant, pseudo_optional)", "src/abieos.hpp"), ("for_each_abi_type, abi_serializer_impl, convert(abi_def, abi)", "src/abi.cpp")],
     observe=["abi::get_type", "abi_type::bin_to_json", "abi_type::json_to_bin", "abi_type::json_to_bin_reorderable"])
prop("C21", "JSON is converted by an ABI exactly when it has the type's form",
     "json_to_bin accepts a JSON value exactly when it has the form of the ABI type with struct fields in the order of their definition and nothing else, json_to_bin_reorderable accepts the fields in any order, uses the last of duplicate keys and ignores unknown ones. "
     "Both give the binary form of the value; whatever both accept they convert alike, unless keys are given twice. "
     "Anything else, such as missing fields, wrong containers, wrong variant tags or superfluous elements, is refused with an error.",
     "all shapes of types up to a depth, all leaf contents, each kind of deviation at every place",
     SAMPLES + " Two separate implementations must agree on every malformed input.",
     ["src/abieos.hpp", "src/abi.cpp"],
     [("json_to_bin (json_to_bin_state)", "src/abieos.hpp"), ("json_to_jvalue, json_to_bin (jvalue_to_bin_state)", "src/abieos.hpp")],
     observe=["abi_type::json_to_bin", "abi_type::json_to_bin_reorderable"])
prop("C22", "Binary extensions may be left out only at the very end",
     "Fields of an ABI type marked with $ may be missing in JSON and in binary form exactly where nothing follows them: at the end of the outermost struct or of a last field, alternative or optional at its end, never inside arrays or in front of a present or required field. "
     "When present they are converted like the type without the $. "
     "Both JSON conversions and the binary reader agree on this, and what was left out stays left out in a round trip.",
     "all shapes of types up to a depth with extensions at the places stated, every choice of fields left out, every cut of the binary form",
     SAMPLES + " Where an extension may be left out depends on everything around it.",
     ["src/abieos.hpp", "src/abi.cpp"],
     [("pseudo_extension, skipped_extension, allow_extensions", "src/abieos.hpp")],
     observe=["abi_type::bin_to_json", "abi_type::json_to_bin", "abi_type::json_to_bin_reorderable"])
prop("C23", "The C interface converts, reports and contains every error",
     "Each abieos_* function works on the contract given, using the last ABI accepted for it, gives exactly the result of the conversion, and takes null strings as empty. "
     "On failure (null context, unknown contract, action, table or type, malformed ABI, JSON, hex or binary, bytes left over) it returns false, null or 0 and leaves a non-empty error naming what is wrong, never an exception or a partial binary. "
     "A failed call leaves the loaded ABIs as they were.",
     "all contract, action and table numbers; arbitrary hex and binary contents up to the bound; cut off texts; orders of calls",
     SAMPLES + " Error paths depend on the history of the context and on malformed inputs.",
     ["src/abieos.cpp", "include/eosio/abieos.h"],
     [("abieos_* functions", "src/abieos.cpp"), ("handle_exceptions, set_error", "src/abieos.cpp")],
     observe=["abieos_* of include/eosio/abieos.h"])
prop("C24", "An ABI is accepted exactly when it is well-formed, and resolves as written",
     "convert(abi_def, abi) accepts exactly definitions whose names are non-empty and unique (built-in names included), whose type expressions all resolve, without nesting optionals, arrays or extensions inside optionals or arrays, extensions inside extensions or aliases of extensions, and whose bases are structs and do not run in circles; all others are refused with an error, never a hang. "
     "An accepted ABI resolves each expression to the kind and type written, independent of the order of definitions: aliases to their target, structs to their own fields after the inherited ones, variants to their alternatives in order. "
     "get_type answers later expressions by the same rules.",
     "type expressions chosen freely at every place, free choice of bases, names and orders, chains, arbitrary characters in expressions",
     SAMPLES + " Rules interact: validity depends on several definitions together and on the order they are resolved in.",
     ["src/abi.cpp", "include/eosio/abi.hpp"],
     [("get_type, resolve, fill, convert(abi_def, abi)", "src/abi.cpp")],
     observe=["eosio::convert(const abi_def&, abi&)", "abi::get_type", "abi_type::as_struct", "abi_type::as_variant"])
prop("C25", "ABI documents keep their contents, and ABIs made from C++ types match them",
     "An abi_def reads back from its binary form, and from JSON with any members left out, with exactly the same contents; only the variants may be missing at the end of the binary form. "
     "The abi_def made from an abi is valid and its types convert every value as before. "
     "The ABI type made from reflected C++ types by add_type converts every value like the C++ type itself; types the ABI format cannot express are refused.",
     "all text and number contents, sections and counts up to the bound; all shapes of types up to a depth",
     SAMPLES + " Losing one member, tag or inherited field shows only for documents that use it.",
     ["include/eosio/abi.hpp", "src/abi.cpp"],
     [("abi_def, might_not_exist, add_type", "include/eosio/abi.hpp"), ("to_abi_def, convert(abi, abi_def)", "src/abi.cpp")],
     observe=["from_bin, to_bin, from_json of abi_def", "eosio::convert", "abi::add_type"])

prop("C26", "Formatted JSON differs from compact JSON in layout only",
     "format_json of a value is the text of convert_to_json laid out in lines: every element and member on its own line, four spaces deeper per level, a space after each colon, empty arrays and objects closed at once. "
     "Strings keep every character, and both texts read back as the same value.",
     "values of nested structs, vectors, optionals and variants; texts with every punctuation mark of JSON",
     SAMPLES + " Layout state (indentation, commas) depends on the nesting and on empty parts.",
     ["include/eosio/to_json.hpp", "include/eosio/stream.hpp"],
     [("format_json, to_json", "include/eosio/to_json.hpp"), ("pretty_stream, increase_indent, write_newline", "include/eosio/stream.hpp")],
     observe=["eosio::format_json", "eosio::convert_to_json"])
prop("C27", "Reflected structs compare, enumerate and convert by their fields",
     "A struct with EOSIO_COMPARE is equal to another exactly when all reflected fields are (inherited ones included), and ordered by the first field, in order of declaration, that differs; all six operators agree. "
     "for_each_field visits every field once, in that order. "
     "convert between structs copies fields by name through vectors, optionals and variants, and leaves fields without a source as they were.",
     "all values of all fields, all shapes of vectors, optionals and variants up to the bound",
     SAMPLES + " A field left out of a comparison shows only for values that differ nowhere else.",
     ["include/eosio/operators.hpp", "include/eosio/reflection.hpp", "include/eosio/for_each_field.hpp", "include/eosio/convert.hpp"],
     [("operator==, eosio_compare", "include/eosio/operators.hpp"), ("EOSIO_REFLECT", "include/eosio/reflection.hpp"), ("for_each_field", "include/eosio/for_each_field.hpp"), ("convert", "include/eosio/convert.hpp")],
     observe=["comparison operators of reflected types", "eosio::for_each_field", "eosio::convert(src, dst, chooser)"])
prop("C28", "Variable-length integer objects behave as the number they hold",
     "unsigned_int and signed_int compare with each other and with plain 32-bit integers as their values do, convert, assign and increment as their values do, and have the JSON of the plain number. "
     "JSON numbers outside their range are refused.",
     "all pairs of 32-bit values",
     SAMPLES,
     ["include/eosio/varint.hpp"],
     [("unsigned_int, signed_int", "include/eosio/varint.hpp")],
     observe=["operators of eosio::unsigned_int and eosio::signed_int", "from_json, to_json"])
prop("C30", "State-history messages keep their layout in binary and JSON",
     "Every message and table row type of the state-history protocol reads the sequence of fields its declaration states, consumes it to the end, writes the same bytes again, and gives JSON with the field names and alternatives of the protocol in order. "
     "A message cut short anywhere is refused. "
     "The five transaction statuses have their names in both directions, all others are refused.",
     "all contents of all fields; vectors, optionals, variants and payloads in every combination up to the bound; every cut",
     SAMPLES + " A wrong field order or tag shows only for messages that use the field.",
     ["include/eosio/ship_protocol.hpp"],
     [("request, result, transaction_trace, signed_block_variant and the table rows", "include/eosio/ship_protocol.hpp"), ("to_string, get_transaction_status", "include/eosio/ship_protocol.hpp")],
     observe=["from_bin, to_bin and to_json of eosio::ship_protocol types"])
prop("C31", "Texts that are not names keep their hash",
     "hash_name, the literal suffix _h and names in JSON give the value of the name for a text that is a valid name, and for every other text its 64-bit hash; the hash of a text never changes (murmur64 with its fixed seed, over all bytes given and nothing else).",
     "texts of every length up to the bound with arbitrary bytes at every place",
     SAMPLES + " Hashes are stored as keys, so that a different hash of any text loses data.",
     ["include/eosio/murmur.hpp", "include/eosio/name.hpp"],
     [("murmur64", "include/eosio/murmur.hpp"), ("hash_name, from_json", "include/eosio/name.hpp")],
     observe=["eosio::murmur64", "eosio::hash_name", "from_json of eosio::name"])
prop("C32", "JSON numbers of floating-point values denote exactly that value",
     "The JSON of a finite float or double is a decimal number nearer to the value than to any other double, with its sign and no superfluous leading zeros, of at most 24 characters. "
     "Infinities and NaNs, of whatever sign and payload, are the strings Infinity, -Infinity and NaN.",
     "all non-finite values; runs of arbitrary mantissa bits at several places for every exponent of a range",
     SAMPLES + " The digit generation rounds differently for each mantissa and exponent.",
     ["include/eosio/fpconv.c", "include/eosio/to_json.hpp"],
     [("fpconv_dtoa, grisu2, emit_digits", "include/eosio/fpconv.c"), ("fp_to_json", "include/eosio/to_json.hpp")],
     observe=["to_json of float and double"])
prop("C33", "Nesting is limited, and shallow nesting always works",
     "Values nested up to 40 objects and arrays deep are converted in every direction (JSON in either form to binary, binary to JSON); values nested more than 140 levels deep are refused with an error in every direction, and whatever lies between is refused or converted correctly. "
     "Type definitions that refer to each other in a circle are refused, and chains of definitions resolve to what they say or are refused. "
     "An unknown JSON member is passed over whatever its depth, provided its brackets balance.",
     "all depths of the list, ways of nesting and cuts; arbitrary innermost values",
     SAMPLES + " The guards that keep hostile input from exhausting the stack are reached only by nesting that no ordinary value has.",
     ["src/abieos.hpp", "src/abi.cpp", "include/eosio/from_json.hpp"],
     [("max_stack_size, json_to_bin, bin_to_json, receive_event", "src/abieos.hpp"), ("get_type, resolve", "src/abi.cpp"), ("from_json_skip_value", "include/eosio/from_json.hpp")],
     observe=["abi_type::json_to_bin, json_to_bin_reorderable, bin_to_json", "eosio::convert(abi_def, abi)", "from_json of reflected structs"])
prop("C34", "A check passes or reports exactly its message",
     "check, in each of its forms, returns when its condition holds and otherwise throws a std::runtime_error with exactly the message given: the text, its first n characters when a length is given, or the decimal digits of the code. "
     "Each kind of JSON error and of stream error has a text of its own, and any other value is 'unknown'.",
     "all conditions; all messages and lengths up to the bound; codes of every length with free digits at every place; all pairs of kinds",
     SAMPLES + " Every refusal in the library goes through these functions.",
     ["include/eosio/check.hpp", "include/eosio/from_json.hpp", "include/eosio/stream.hpp"],
     [("check, assert_or_throw", "include/eosio/check.hpp"), ("convert_json_error", "include/eosio/from_json.hpp"), ("convert_stream_error", "include/eosio/stream.hpp")],
     observe=["eosio::check", "eosio::convert_json_error", "eosio::convert_stream_error"])
prop("C35", "Floating-point numbers are read back from JSON unchanged",
     "Reading the JSON written for any float or double, subnormal and infinite values included, gives exactly that value again, and a NaN for a NaN. "
     "A text that is a decimal number in its entirety is read as the nearest value; a text that is not, and a number too large for the type, are refused.",
     "mantissa bits at several places for exponents over the whole range, both signs; arbitrary bytes next to numbers; numbers around the limits",
     SAMPLES + " What the C library reports at the limits of the type differs from the usual case.",
     ["include/eosio/from_json.hpp", "include/eosio/to_json.hpp"],
     [("from_json(float), from_json(double)", "include/eosio/from_json.hpp"), ("fp_to_json", "include/eosio/to_json.hpp")],
     observe=["from_json of float and double"])

prop("T01", "Fixed-width integers keep their value or refuse it",
     "Every fixed-width integer type accepts exactly the integers its width and signedness can represent, and refuses all others with a value error instead of wrapping or truncating them. An accepted value takes exactly its width on the wire in the documented byte order, reading it back gives the same value and leaves what follows untouched, and a shorter buffer is refused. Packing values into bit strings and unpacking them again gives the values back in order.",
     "inputs", "every integer type of 1 to 64 bits, signed and unsigned, both byte orders; every integer around and inside its range; every buffer",
     "tests try a few values per width; boundary behaviour per type and value is a claim about all 2^64 of them",
     "zigpy/types/basic.py", [("range check on construction, to_bytes/from_bytes on the wire", "zigpy/types/basic.py:FixedIntType")],
     observe=["constructor, serialize(), deserialize(), bits()"])
prop("T02", "Enumerations and bitmaps carry unknown values unchanged",
     "An enumeration or bitmap value read from the wire keeps its numeric value whether or not the value is listed, compares equal to that number, and writes the same bytes back. A listed value is the listed member, and a value that does not fit is refused. Combining and masking bitmaps gives the bits that integer arithmetic gives, within the type's width. Whether a power source has a battery besides belongs to the value read and stays, whatever is read later.",
     "inputs", "every enumeration and bitmap class; every integer in and around its range",
     "there are about 260 such classes and tests exercise a handful of members each; unlisted values are what devices really send",
     "zigpy/types/basic.py zigpy/zcl/foundation.py zigpy/zdo/types.py zigpy/zcl/clusters/general.py",
     [("_missing_ creating undefined members", "zigpy/types/basic.py:_IntEnumMeta, enum_factory, bitmap_factory")],
     observe=["constructor, serialize(), deserialize(), &|^"])
prop("T03", "Strings, octet strings and lists survive the wire exactly",
     "A length-prefixed text, octet string or list that its prefix can describe is written with a prefix equal to the length of what follows, reading it back gives the same value and leaves following bytes untouched, and one that is too long is refused. A prefix that claims more than is there is refused, and the prefix reserved for invalid strings reads as an invalid value which writes back the same bytes.",
     "inputs", "every short text over all of Unicode, alone and at the 1 and 2 byte length limits; every short buffer; every length prefix",
     "tests use ASCII and a few lengths; the prefix counts bytes and not characters, and only limits expose prefix mistakes",
     "zigpy/types/basic.py zigpy/types/struct.py", [("length prefix handling", "zigpy/types/basic.py:CharacterString, LVBytes, LVList, List, FixedList")],
     observe=["constructor, serialize(), deserialize()"])
prop("T04", "Floating point values keep their bits and round predictably",
     "A half, single or double precision value read from the wire and written back gives the same bytes for every bit pattern that is not a signalling NaN payload or subnormal. Writing a number to a narrower format keeps it exactly when the format can represent it, truncates surplus precision, and keeps infinities and NaN as such; a magnitude outside of the format's range gets the nearest normal exponent, so that a finite number never turns into infinity or NaN.",
     "inputs", "every 16, 32 and 64-bit pattern",
     "a test tries a few numbers; the conversion is hand-written bit manipulation whose edge exponents no sample reaches",
     "zigpy/types/basic.py", [("_convert_format", "zigpy/types/basic.py:BaseFloat")], observe=["constructor, serialize(), deserialize()"])
prop("T05", "Structures are written and read field by field without loss",
     "A structure writes its present fields in declared order, bit fields packed in declared order, and reading that back gives an equal structure and leaves trailing bytes untouched; a conditional field is present exactly when its condition holds. A buffer that ends inside a required field is refused, and one that ends at an optional field reads as having none of the remaining optional fields. A structure with a missing required field refuses to be written, equal structures hash alike once frozen, and a frozen one cannot be changed. A structure declared as an integer is ordered and compared, with others of its kind and with integers, as the integer its bits make. A structure matches a partly filled one exactly when every field set in that one is equal, in nested structures likewise.",
     "inputs programs", "every structure class outside of cluster commands and images; all field values; short buffers; generic bit layouts",
     "tests check example structures with example values; the guarantee is for every structure and every field value, conditions included",
     "zigpy/types/struct.py zigpy/types/named.py zigpy/zdo/types.py zigpy/zcl/foundation.py",
     [("Struct.serialize/deserialize and bit packing", "zigpy/types/struct.py:Struct")], observe=["serialize(), deserialize(), ==, freeze()"])
prop("T06", "Addresses, keys, channel masks and install codes read and print exactly",
     "A hardware address, key or network address is shown most significant byte first and written least significant byte first (keys in order), its shown form and every accepted text form read back to the same value, equal values hash alike, and text of the wrong length or with stray characters is refused. A channel mask lists exactly the channels 11..26 whose bits are set, in order, and channel lists outside of that are refused. An install code is accepted only with a permitted length and a correct checksum, and the derived key hashes the whole code with the standard padding.",
     "inputs", "every 64-bit address, 128-bit key, 16-bit address, channel mask window, install code up to 20 bytes",
     "tests use one or two constants of each; byte order and padding mistakes show only for particular values and lengths",
     "zigpy/types/named.py zigpy/util.py", [("EUI64.convert/__repr__, KeyData, Channels, aes_mmo_hash", "zigpy/types/named.py, zigpy/util.py")],
     observe=["convert(), repr(), serialize(), from_channel_list(), convert_install_code()"],
     note="AES and CRC-X25 themselves are stubbed with arbitrary outputs.")

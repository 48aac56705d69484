P("C01", "Reads at any bit address return exactly the addressed bits",
  "Reading N bits at address A of a byte stream gives the integer made of exactly those bits in the byte order asked (big, little or 16-bit-swapped middle endian), signed values being the two's complement of those bits. The read succeeds exactly when the bits are inside the stream, and byte reads return the addressed bytes.",
  ["inputs", "configurations"], "every stream content and length, every bit address, size, byte order and signedness",
  "tests parse a few whole files whose fields are nearly all byte aligned; bit offsets, the middle endian and reads at the end of the stream are hardly touched",
  ["hachoir/stream/input.py", "hachoir/core/bits.py"],
  [("InputStream.readBits/readInteger/readBytes", "hachoir/stream/input.py"), ("str2long", "hachoir/core/bits.py")],
  "Streams of up to 9 bytes (16 thorough), all addresses and sizes.",
  observe=["StringInputStream, InputIOStream: readBits, readInteger, readBytes"])
P("C02", "Stream windows and concatenations are transparent",
  "A sub-stream, a stream over one field, a stream made of the linked fragments of a file, or the concatenation of two streams has exactly the size and the bits of what it is made of, at any bit address and in any order of reads. Reading past the fragments or the concatenation fails instead of returning other data.",
  ["inputs", "histories"], "every content, bit offset, window size, fragment layout and order of reads",
  "tests only reach these through a handful of archives with byte-aligned windows read sequentially",
  ["hachoir/stream/input.py"],
  [("InputSubStream, InputFieldStream, FragmentedStream, ConcatStream", "hachoir/stream/input.py"), ("lowerBound", "hachoir/core/tools.py")],
  "Streams up to 7 bytes, up to 3 nested windows or fragments.")
P("C03", "Byte search finds the first occurrence in the address range",
  "Searching bytes in a stream, with any aligned start and any end (or none), returns the address of the first occurrence lying completely in the range, or None if there is none, whatever the kind of stream and however the search is cut into chunks. An unaligned start is refused.",
  ["inputs", "configurations"], "every content, needle, start, end and kind of stream (string, file, pipe of unknown size, window)",
  "the sampled files put no needle across a chunk boundary or in the last chunk of a pipe",
  ["hachoir/stream/input.py"], [("InputStream.searchBytes/searchBytesLength", "hachoir/stream/input.py")],
  "Contents up to 8 bytes with needles up to 4, plus symbolic windows across the 4096-byte chunk boundaries.")
P("C04", "A pipe read through the block cache is random access",
  "Reads at any positions, in any order, of a non-seekable input return the bytes of the input or, only for data old enough to have been discarded, report that they are gone. The size is unknown until the end is reached and right afterwards, and size queries agree with it.",
  ["inputs", "histories"], "every content, every history of reads and size queries",
  "no test reads a pipe backwards or has enough data for blocks to be discarded",
  ["hachoir/stream/input.py"], [("InputPipe._append/_get/_flush/read", "hachoir/stream/input.py"), ("InputStream._setSize/sizeGe", "hachoir/stream/input.py")],
  "Inputs up to 9 bytes in blocks of 2 or 4 bytes (the block size is set on the instance), up to 4 reads.",
  state=[("buffers/first/last", "circular list of cached blocks", "InputPipe")])
P("C05", "The file object of a stream behaves like a read-only file",
  "After any history of seek (from the start, the position, the end), read and tell, the file object made from a stream returns the bytes and positions that a read-only binary file with the same contents returns, whether the size of the stream is known or not.",
  ["inputs", "histories"], "every content and every history of operations",
  "tests use it only indirectly, sequentially, on streams of known size",
  ["hachoir/stream/input.py"], [("FileFromInputStream", "hachoir/stream/input.py")],
  "Up to 4 bytes and 4 operations.")
P("C06", "What is written to an output stream is read back where it was put",
  "Any history of bit, bits, byte, integer and copy operations in one byte order produces exactly as many bits as were written, and reading the output at the address of each write gives the value written, sign included. Copies append exactly the source bits or bytes, operations that need a byte boundary are refused elsewhere, and the contents of a string output can be read back at any byte address.",
  ["inputs", "histories", "configurations"], "every history of writes, every value and size, both byte orders",
  "the only test writes a few byte-sized fields through the editor",
  ["hachoir/stream/output.py", "hachoir/core/bits.py"],
  [("OutputStream.writeBit/writeBits/writeInteger/copyBitsFrom/copyBytesFrom/readBytes", "hachoir/stream/output.py"), ("long2raw", "hachoir/core/bits.py")],
  "Histories of 2-3 writes with all alignments; copies around the 4096-byte buffer.",
  state=[("pending bits", "bits of the last incomplete byte", "OutputStream")])
P("C07", "Typed fields report the value their type defines",
  "An integer, bit, byte, padding, enumerated or generic-vector field reports, whatever its bit alignment and byte order, the value its type defines for exactly the bits at its address: sign, width, enumeration names, repeated padding patterns, the sign/exponent/mantissa parts of big-endian floats. The declared static size of a structure is the sum of the sizes of its fields.",
  ["inputs", "configurations"], "every content, alignment, byte order and type",
  "the sample files have byte-aligned little values; the middle endian, sizes like 24 bits and unaligned typed fields hardly occur",
  ["hachoir/field/integer.py", "hachoir/field/bit_field.py", "hachoir/field/byte_field.py", "hachoir/field/padding.py", "hachoir/field/enum.py", "hachoir/field/float.py", "hachoir/field/vector.py", "hachoir/field/static_field_set.py"],
  [("GenericInteger.createValue", "hachoir/field/integer.py"), ("Bits/Bit/RawBits", "hachoir/field/bit_field.py"), ("PaddingBytes/PaddingBits.createPattern", "hachoir/field/padding.py"), ("Enum", "hachoir/field/enum.py")],
  "Fields of up to 64 bits at bit addresses 0-17.")
P("C08", "The fields of a file tile it, whatever the parser does",
  "Whatever fields a parser yields (sized or unsized field sets, duplicate names, padding, exceptions, early ends) and wherever the file is cut, the fields are contiguous, non-empty, uniquely named, inside the file and, with autofix, cover it exactly, a structure cut by the end of the file extending to it; each is found by its name, index, path and address, the items of an array are those numbered in order, and the fields do not depend on the way the parser is fed. Without autofix a misfit is reported as an error. This holds also for files of unknown size, and reading a tree always ends.",
  ["inputs", "histories"], "every sequence of yielded fields and sizes, every file length and order of accesses",
  "tests parse whole well-formed files through one access path; truncation inside nested structures is not sampled",
  ["hachoir/field/generic_field_set.py", "hachoir/field/basic_field_set.py", "hachoir/field/parser.py", "hachoir/field/fake_array.py"],
  [("GenericFieldSet._addField/_fixFieldSize/_truncate/_fixLastField", "hachoir/field/generic_field_set.py"), ("readMoreFields/_feedAll/_feedUntil/__iter__", "hachoir/field/generic_field_set.py"), ("FakeArray", "hachoir/field/fake_array.py"), ("Parser._setSize", "hachoir/field/parser.py")],
  "Parsers of 2-3 fields with nested sets of 1-2 fields, sizes up to 20 bits, files of 1-3 bytes.",
  state=[("current size", "end of the fields read so far", "GenericFieldSet"), ("size", "None until known", "GenericFieldSet")])
P("C09", "Seeking puts fields where asked and shows the gaps; replacing keeps places",
  "A parser that seeks puts the next field exactly at the address sought: ordinary structures fill the way with one padding (all zero bits checked when declared null) and refuse to go back; seekable ones show everything not covered by a field as raw fields, in order, without empty ones, up to the end. Replacing a field by others of the same total size leaves every other field, its address and its value unchanged; others sizes are refused.",
  ["inputs", "histories"], "every sequence of seeks and sizes, every file length",
  "only a few filesystem samples seek, always forward and on byte boundaries",
  ["hachoir/field/seekable_field_set.py", "hachoir/field/generic_field_set.py", "hachoir/field/padding.py"],
  [("RootSeekableFieldSet/getgaps", "hachoir/field/seekable_field_set.py"), ("seekBit/seekByte", "hachoir/field/generic_field_set.py"), ("replaceField/writeFieldsIn", "hachoir/field/generic_field_set.py"), ("NullBits/NullBytes", "hachoir/field/padding.py")],
  "Up to 3 seeks, blocks and fields; files of a few bytes.")
P("C10", "The editor writes the original file with exactly the changes asked",
  "After any history of deletions, insertions before/after/at the end and value changes, the editor shows the remaining and new fields in the order asked with their sizes and addresses, and writes exactly those bits; a field set is changed only by changes in it, what is not altered is copied bit for bit at any bit alignment, and refused operations (used name, missing field, value too big) have no effect.",
  ["inputs", "histories", "configurations"], "every history, every field layout, both byte orders",
  "the only test changes one bit field",
  ["hachoir/editor/fieldset.py", "hachoir/editor/field.py", "hachoir/stream/output.py"],
  [("EditableFieldSet._insert/__delitem__/writeInto", "hachoir/editor/fieldset.py"), ("FakeField.writeInto", "hachoir/editor/field.py")],
  "Histories of 1-2 (thorough 3) operations on 3 fields.",
  state=[("_deleted/_inserted", "changes not written yet", "EditableFieldSet")])
P("C11", "Typed editor fields store any value that fits and refuse the others",
  "A field of an editor, replaced or newly created, accepts exactly the values its type can store (integers of 8 to 64 bits signed or not, bits, bytes, characters, C/Unix/Pascal/fixed strings, Mac timestamps, floats); the last accepted value is shown, a refused one changes nothing, and parsing the written file again gives that value and leaves the other fields unchanged.",
  ["inputs", "histories"], "every value, accepted or not, of every editable type",
  "no test sets anything but one bit field",
  ["hachoir/editor/typed_field.py", "hachoir/editor/fieldset.py", "hachoir/field/string_field.py"],
  [("EditableInteger/Bits/Bytes/String/Character/TimestampMac32", "hachoir/editor/typed_field.py"), ("EditableFloat", "hachoir/editor/fieldset.py")],
  "2 values (3 thorough); strings of up to 4 bytes; floats set to 4 values.")
P("C12", "The ordered dictionary stays consistent over any history of changes",
  "After any history of appends, insertions at any index, replacements, deletions and value changes, a Dict gives the values, keys and items in the order asked, finds each key at its index with its value, and its length matches; operations which would repeat a key, use a missing one or an index out of range are refused and change nothing.",
  ["histories"], "every history of operations, every index, key and value",
  "doctests try each operation once on a dictionary of two or three items",
  ["hachoir/core/dict.py"], [("Dict.append/insert/replace/__delitem__/__setitem__", "hachoir/core/dict.py")],
  "Histories of 2 operations (3 thorough) on 0-3 items with 4 keys.",
  state=[("_index/_key_list/_value_list", "key to index, keys and values in order", "Dict")])
P("C13", "Conversions between integers, raw data, digits and positions are exact",
  "Integers and raw data convert to each other exactly in each byte order (str2long, long2raw, swap16/32, strswapmid), the number of bits of an integer is the smallest that holds it, binary and hexadecimal texts (long2bin, bin2long, byte2bin, str2bin, str2hex, hexadecimal of a field) have exactly the digits of the value, alignValue and paddingSize give the next multiple, binarySearch and lowerBound find the position in any sorted sequence.",
  ["inputs", "configurations"], "every value and size",
  "doctests have a handful of values, mostly multiples of 8 bits",
  ["hachoir/core/bits.py", "hachoir/core/tools.py", "hachoir/core/text_handler.py"],
  [("str2long/long2raw/long2bin/bin2long/countBits", "hachoir/core/bits.py"), ("alignValue/paddingSize/binarySearch/lowerBound", "hachoir/core/tools.py")],
  "1-4 bytes (9 thorough), 9 digits, integers up to 66 bits, sequences of 4 values.")
P("C14", "Dates and durations are the instant their format encodes",
  "Unix, Mac, Windows (100 ns since 1601), UUID and MS-DOS timestamps, and Windows durations, give the date or duration their format encodes for every value, and only the values outside the format or after year 9999 have none; this holds for the functions and for the timestamp fields at any bit address in both byte orders (a tolerance of 2 ms covers the rounding of 100 ns units). A null timestamp field is false. Durations are shown with their three largest non-null units; Unix file modes are shown with their kind, permissions and special bits.",
  ["inputs"], "every 16 to 64-bit value",
  "tests have a dozen values",
  ["hachoir/core/tools.py", "hachoir/field/timestamp.py"],
  [("timestampUNIX/timestampMac32/timestampWin64/timestampUUID60/durationWin64/humanDuration/humanUnixAttributes", "hachoir/core/tools.py"), ("TimeDateMSDOS32/DateTimeMSDOS32", "hachoir/field/timestamp.py")],
  "All values of the fields; durations of 0-999 of each unit plus 0-3 ms as text.")
P("C15", "String fields end where their format says and decode their contents",
  "A C string ends at the first nul character and a Unix line at the first newline (a whole 8, 16 or 32-bit character of its charset, not any bytes across two), a Pascal string has the bytes its prefix counts, a fixed string its declared size; one without its end, or without the byte order mark its charset needs, is refused. The value is the contents decoded in the charset (ISO-8859-1 when they are invalid, the missing last byte of UTF-16-LE being repaired), cut at the truncate character and stripped when asked; sizes, length, charset and the address of the next field agree. The charset guessed when none is given is the byte order mark's, ASCII or UTF-8 when valid, else one which can decode the contents.",
  ["inputs", "configurations"], "every content in every format, charset, byte order and option",
  "sample files have few strings, nearly all valid ASCII",
  ["hachoir/field/string_field.py", "hachoir/core/i18n.py"],
  [("GenericString.__init__/createValue/_convertText", "hachoir/field/string_field.py"), ("guessBytesCharset", "hachoir/core/i18n.py")],
  "1-5 bytes in 8-bit charsets, 1-3 characters of 16 or 32 bits; 13 charsets.")
P("C16", "Regular expression objects keep their language through every operation",
  "A regex built with createString, createRange, the atoms, union, concatenation and repetition compiles to a regular expression which matches exactly what these operations mean (the dot and negated ranges match newlines too), whatever its characters, and however the result was optimised; operands are not changed. minLength() and maxLength() bound its matches, equal regexes have the same matches, match() is only true when the other regex is included. parse() accepts a text only with the meaning Python gives it, refuses others with SyntaxError, NotImplementedError or ValueError, and parse(str(regex)) means the same as the regex.",
  ["inputs", "configurations"], "every character, structure and subject",
  "doctests compare the text of some fifty results on letters, and never match them",
  ["hachoir/regex/regex.py", "hachoir/regex/parser.py"],
  [("Regex.__and__/__or__/compile, RegexRange/RegexOr/RegexAnd/RegexRepeat, optimizeRepeatOr", "hachoir/regex/regex.py"), ("parse", "hachoir/regex/parser.py")],
  "Expressions of up to 4 operations, 14 x 14 bounds of nested repetitions, 18 families of texts with 1-3 free characters; subjects of 2-6 characters.")
P("C17", "Searching many patterns at once reports real occurrences and misses no place",
  "PatternMatching.search() of any set of strings and regexes (without assertions, not matching the empty text) reports, in order and without overlap, parts of the text which are occurrences of the pattern reported with them (the string pattern when there is one); no pattern has an occurrence starting at a place which no report covers; patterns added between two searches are taken into account, and the first of equal string patterns is the one reported. max_length is the longest of the patterns, and patterns without limit are refused.",
  ["inputs", "configurations"], "every set of patterns and text",
  "doctests search a dozen one-letter patterns",
  ["hachoir/regex/pattern.py"], [("PatternMatching.commit/addString/addRegex/getPattern/search", "hachoir/regex/pattern.py")],
  "1-3 patterns of 1-3 characters, texts of 2-4 characters, alphabets of 2-3 characters.")
P("C18", "The subfile search tries the signatures wherever they are in the file",
  "SearchSubfile, with the parsers chosen or all of them, tries a parser exactly where one of its signatures is in the part of the file searched (the offset of the signature in the file format being subtracted), wherever the file is cut in slices. Every valid file tried is reported once with its offset and size, in order; only what lies inside a reported file of a format marked 'skip' is left out, and the search goes on right after such a file. Overlapping signatures are reported once. Every registered signature of the parsers is found where it is written.",
  ["inputs", "configurations"], "every file content, slice size, part of the file and set of signatures",
  "no test runs the subfile search",
  ["hachoir/subfile/search.py", "hachoir/subfile/pattern.py", "hachoir/parser/guess.py"],
  [("SearchSubfile.mainHeader/searchSubfiles/findMagic/guess", "hachoir/subfile/search.py"), ("HachoirPatternMatching", "hachoir/subfile/pattern.py")],
  "Files of 5-8 bytes of 2-4 values, slices of 1-4 bytes, 1-2 parsers with signatures of 1-3 bytes; all registered signatures.")
P("C19", "Metadata keep every valid value given, once, and export all of them",
  "Each value given to an item of a metadata object is kept once: a text without the blanks around it and with single Unix newlines (cut after the maximum length), unless a longer text starting with it is kept; a number, date, duration, language or track number (of 'n/total' too) when it is of the type of the item and in its range; nothing else. get(), getText(), getValues(), has() agree. The plain text export has a line per value up to the priority asked, in the order of the priorities, then those of each group; it is None when there is none.",
  ["inputs", "histories"], "every history of values, every priority",
  "tests check some values of sample files, most of them given once and valid",
  ["hachoir/metadata/metadata.py", "hachoir/metadata/metadata_item.py", "hachoir/metadata/filter.py", "hachoir/metadata/setter.py", "hachoir/metadata/register.py", "hachoir/core/language.py"],
  [("Data.add", "hachoir/metadata/metadata_item.py"), ("Metadata.exportPlaintext, MultipleMetadata.addGroup", "hachoir/metadata/metadata.py"), ("Filter, DatetimeFilter", "hachoir/metadata/filter.py"), ("setTrackNumber, setLanguage", "hachoir/metadata/setter.py")],
  "1-3 texts of 1-3 characters, numbers of 33 bits, all codes of 3 letters, up to 6 values and 3 groups.")
P("C20", "The dates written as text in files are read as they are",
  "parseDatetime() of a year, of a date or date and time with the year or the month first and any separators among '-/.: ', of 'Thu, 19 Jul 2007 09:03:57' or 'Sun Feb 24 15:51:09 2008' with a time zone of hours (east or west) or none, and of 'February 2007', gives exactly this date, time and time zone when it exists in the calendar, and None otherwise. As a metadata such a date is kept when it is between 1850 and 2030 in UTC.",
  ["inputs"], "every date and time written in these formats, valid or not",
  "doctests read half a dozen dates, none of them invalid or west of Greenwich",
  ["hachoir/metadata/setter.py", "hachoir/metadata/timezone.py", "hachoir/metadata/filter.py"],
  [("parseDatetime", "hachoir/metadata/setter.py"), ("Timezone", "hachoir/metadata/timezone.py"), ("DatetimeFilter", "hachoir/metadata/filter.py")],
  "All digits of each format.")
P("C21", "Texts shown are printable, exact, and tell when they are cut",
  "makePrintable(), makeUnicode() and the displays of RawBytes, Bytes, String, Character, Bits and Bit fields show each character as itself or by its own escape sequence, with no control character (of ASCII), only characters of the charset asked, quoted when asked. A display of bytes or of a string longer than the limit of the configuration shows its start followed by '(...)', a shorter one shows all of it; values are never cut. Enum() shows the name of the value when it has one and else the value; textHandler() and displayHandler() change the display only. normalizeNewline() makes a newline of every run of CR and LF.",
  ["inputs"], "every short text",
  "doctests show a dozen texts, and no test reads a display cut after an escaped byte",
  ["hachoir/core/tools.py", "hachoir/field/byte_field.py", "hachoir/field/string_field.py", "hachoir/field/character.py", "hachoir/field/enum.py", "hachoir/core/text_handler.py"],
  [("makePrintable, makeUnicode, normalizeNewline", "hachoir/core/tools.py"), ("RawBytes", "hachoir/field/byte_field.py"), ("GenericString.createDisplay", "hachoir/field/string_field.py"), ("Enum", "hachoir/field/enum.py"), ("textHandler, displayHandler", "hachoir/core/text_handler.py")],
  "Texts of 1-3 characters (4 thorough), fields of 1-4 bytes.")
P("C22", "The metadata of an image are those of its headers",
  "A valid BMP (versions 2 to 4), GIF, PNG, PCX, TGA, PSD, ICO or JPEG file, of any width, height, depth, number of colours or of icons, is accepted by its parser, and extractMetadata() gives this width and height (in 1-20000), these bits per pixel, number of colours (1 - 2^24), compression, pixel format, format version, comment and date when the file has them, and no width, height... when they are out of these ranges.",
  ["inputs"], "every value of the fields of the headers",
  "the tests read one or two pictures of each format, all of them small, with one depth and the most usual header",
  ["hachoir/parser/image/bmp.py", "hachoir/parser/image/gif.py", "hachoir/parser/image/png.py", "hachoir/parser/image/pcx.py", "hachoir/parser/image/tga.py", "hachoir/parser/image/psd.py", "hachoir/parser/image/ico.py", "hachoir/parser/image/jpeg.py", "hachoir/metadata/image.py", "hachoir/metadata/jpeg.py"],
  [("BmpMetadata, GifMetadata, PngMetadata, PcxMetadata, TargaMetadata, PsdMetadata, IcoMetadata", "hachoir/metadata/image.py"), ("JpegMetadata", "hachoir/metadata/jpeg.py"), ("extractMetadata", "hachoir/metadata/metadata.py")],
  "All values of the header fields; palettes of 2-256 colours, texts of 1-2 characters, 1-2 icons, no pixels.")

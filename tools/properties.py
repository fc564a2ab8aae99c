MODEL = 'property-based testing against a reference model, with shrinking'
TRIP = 'property-based testing: round trips against a reference model'

p('C01', 'Message digests match their standards for every message and every split',
  'For every byte sequence and every way of splitting it into updates, the MD5, SHA-1, SHA-224, SHA-256 and SHA-512 digests equal those the published algorithms define. Calculations that are in progress at the same time do not influence each other, and after a digest was taken the calculation starts afresh.',
  ['inputs', 'histories'], 'all byte sequences, all sequences of update sizes (also empty ones), several contexts at once',
  'Tests digest a few fixed texts in one update; errors depend on the length modulo the block size and on how updates straddle blocks.',
  ['keramics-hashes/src'], [('block buffering and padding', 'keramics-hashes/src/sha1.rs'), ('64-bit and 128-bit length fields', 'keramics-hashes/src/sha512.rs'), ('common digest interface', 'keramics-hashes/src/traits.rs')],
  'Every length up to 3 blocks with every two-way split of sampled messages, random histories of updates over several contexts, and messages of a few megabytes, compared with an independent implementation of FIPS 180-4 and RFC 1321 that is itself checked against published test vectors.',
  MODEL, ['update and finalize of each digest context'])

p('C02', 'CRC-32 equals the polynomial definition for every input and continuation',
  'For every polynomial, in normal or reversed bit order, every initial value and every byte sequence, the checksum is the remainder that the bit by bit definition of CRC-32 gives. Splitting the data over updates, or continuing from an earlier checksum as initial value, gives the checksum of the whole.',
  ['inputs', 'histories', 'configurations'], 'all polynomials, initial values, byte sequences and splits',
  'Tests use one polynomial and one buffer; the table and the reflection are only wrong for particular byte values or polynomials.',
  ['keramics-checksums/src/crc32.rs'], [('table of remainders', 'keramics-checksums/src/crc32.rs')],
  'Random polynomials, initial values and histories against a bit by bit remainder; chained calculation; single and burst error detection of the standard polynomial.', MODEL, ['Crc32Context'])

p('C03', 'Adler-32 equals its definition for every input, size and continuation',
  'For every byte sequence, initial value and split into updates the checksum equals the two sums modulo 65521 of RFC 1950, without overflow for any size.',
  ['inputs', 'histories'], 'all byte sequences (also runs of the largest byte value around the deferred reduction), initial values and splits',
  'Tests use one small buffer; deferred modulo reduction only goes wrong for long runs of large values.',
  ['keramics-checksums/src/adler32.rs'], [('deferred modulo reduction', 'keramics-checksums/src/adler32.rs')],
  'Random histories and buffers whose size and content sit at the limits of the deferred reduction, against 128-bit sums.', MODEL, ['Adler32Context'])

p('C04', 'FAT dates and times decode to the calendar instant they encode',
  'Every FAT date, FAT date and time, and FAT date and time with 10 ms units is shown as the ISO 8601 date and time that its bit fields encode (2 second steps plus the fraction), followed by the raw values. Reading it from its bytes gives the same value as building it from its parts.',
  ['inputs'], 'all 65536 dates, times and 10 ms values', 'Tests decode a handful of values; each bit field and the fraction above a second need the whole range.',
  ['keramics-datetime/src/fat.rs'],
  [('bit fields of date, time and fraction', 'keramics-datetime/src/fat.rs')],
  'All 16-bit dates exhaustively and random times against an independent decoding.', MODEL, ['from_bytes, to_string'])

p('C05', 'FILETIME values show the UTC instant they count from 1601',
  'Every 64-bit FILETIME is shown as the proleptic Gregorian instant that many 100 ns intervals after 1601-01-01, with seven digits of fraction, followed by the raw value. Reading it from its little-endian bytes gives the same value.',
  ['inputs'], 'all 64-bit values, and all days of the years 1601 to 9999', 'Tests use two timestamps; calendar arithmetic goes wrong at century, leap year and epoch limits.',
  ['keramics-datetime/src/filetime.rs', 'keramics-datetime/src/util.rs', 'keramics-datetime/src/epoch.rs'],
  [('days to calendar date', 'keramics-datetime/src/util.rs')],
  'Generated instants, sampled (thorough: all) days and arbitrary values against an independent civil calendar.', MODEL, ['from_bytes, to_string'])

p('C06', 'POSIX timestamps show the UTC instant they count from 1970',
  'Every 32-bit and 64-bit (second or nanosecond) POSIX timestamp, positive or negative, is shown as the proleptic Gregorian UTC instant it denotes, with nine digits of fraction for nanoseconds, followed by the raw value. Reading a 32-bit value from its bytes in either byte order gives the same value, and no value panics.',
  ['inputs'], 'all signed 32-bit and 64-bit values, both byte orders', 'Tests use a few positive timestamps; negative values, leap centuries and small fractions are not covered.',
  ['keramics-datetime/src/posix.rs', 'keramics-datetime/src/util.rs'],
  [('days to calendar date, also before the epoch', 'keramics-datetime/src/util.rs'), ('fraction of a second', 'keramics-datetime/src/posix.rs')],
  'Every day that fits 32 bits, generated instants and arbitrary values against an independent civil calendar.', MODEL, ['from_bytes, to_string'])

p('C07', 'Data streams read like the bytes they hold, for every history',
  'For every history of reads, exact reads, positioned reads, seeks from start, current position or end, and size requests, a data stream returns the bytes, positions and sizes of the data it holds; a read past the end returns what is left, and an exact read that cannot be satisfied is an error. Positioned reads of several threads that share a stream each return the data of their own position.',
  ['histories', 'inputs', 'schedules'], 'all operation histories on memory and file streams of any size, one or several threads',
  'Tests do one read and one seek; the state after a sequence of partial reads and relative seeks is not sampled.',
  ['keramics-core/src/data_stream.rs', 'keramics-core/src/fake_data_stream.rs', 'keramics-core/src/os_data_stream.rs', 'keramics-core/src/macros.rs'],
  [('current offset', 'keramics-core/src/fake_data_stream.rs'), ('exact and positioned reads', 'keramics-core/src/data_stream.rs'), ('lock around positioned read', 'keramics-core/src/macros.rs')],
  'Model-based histories against a byte vector with a cursor, on memory and file streams; real threads on shared streams (interleavings are those the scheduler happens to give).', 'stateful model-based testing', ['DataStream trait'])

p('C08', 'Diagnostic text shows every byte and frame exactly once',
  'A hexadecimal dump of any data lets the reader recover every byte at its offset (with repeated lines shown as such in grouped form), a formatted array shows every value in order, and an error trace shows all of its frames in order with their messages. None of them panics.',
  ['inputs', 'histories'], 'all data, arrays and error histories', 'Tests compare a few fixed dumps; line and group limits depend on length and content.',
  ['keramics-core/src/formatters.rs', 'keramics-core/src/errors.rs', 'keramics-core/src/macros.rs'],
  [('line grouping', 'keramics-core/src/formatters.rs'), ('frames', 'keramics-core/src/errors.rs')],
  'Every length to 300 and generated data and arrays against a reference formatter, and parsing the dump back; generated error histories against a list of frames.', MODEL + ' and parse-back', ['format_as_hexdump, debug_format_array, ErrorTrace'])

p('C09', 'The diagnostic mediator is per thread and prints only when enabled',
  'For every history of setting and using mediators on several threads, a thread sees the mediator it set last (or one without debug output when it set none) and never that of another thread; a mediator taken earlier keeps its setting. Nothing is printed with debug output off, and exactly the given text or dump with it on.',
  ['histories', 'schedules'], 'all histories on one or several threads, all texts and data', 'The one test prints once with output off.',
  ['keramics-core/src/mediator.rs'], [('thread local current mediator', 'keramics-core/src/mediator.rs')],
  'Histories in lock step over up to 3 real threads against one flag per thread; output captured from a child process.', 'stateful model-based testing', ['Mediator'])

p('C10', 'Single-byte code pages decode and encode as their published tables say',
  'For every supported single-byte code page, each byte decodes to the code point of the published table or is an error, each code point that the table has encodes to its byte and every other code point is an error. Sequences decode and encode character by character, and an error does not lose or repeat the characters around it.',
  ['inputs', 'configurations'], 'all code pages, bytes, code points to U+10FFFF and sequences', 'Tests check the tables at a few positions of each code page.',
  ['keramics-encodings/src'], [('decode and encode tables', 'keramics-encodings/src/iso8859_2.rs'), ('choice of codec', 'keramics-encodings/src/character_decoder.rs'), ('character iterators', 'keramics-encodings/src/ascii.rs')],
  'All bytes exhaustively and all code points (quick: all of the BMP) of 36 code pages against the tables of the Python codecs; three Macintosh tables without such a counterpart are compared with a recording of the present tables (regression only). Random sequences for positions after errors.', 'exhaustive enumeration and property-based testing against independent tables', ['CharacterDecoder, CharacterEncoder'])

p('C11', 'Windows-932 decodes and encodes as the published table says',
  'Each one or two byte sequence decodes to the code point the code page defines or is an error, and each code point encodes to a sequence that decodes back to it or is an error. Truncated and invalid sequences are reported without a panic and decoding continues after them.',
  ['inputs'], 'all pairs of bytes, all code points, all sequences', 'Tests check a few characters of a table of some 10,000.',
  ['keramics-encodings/src/windows932.rs'], [('lead byte tables', 'keramics-encodings/src/windows932.rs')],
  'All byte pairs and code points exhaustively against the Python codec cp932, with random sequences.', 'exhaustive enumeration and property-based testing against independent tables', ['DecoderWindows932, EncoderWindows932'])

p('C12', 'UTF-8 accepts exactly the well-formed sequences and round trips',
  'Every Unicode scalar value encodes to its UTF-8 sequence and decodes back; every byte sequence that is not well-formed (overlong, surrogate, above U+10FFFF, truncated) is an error at the character where it starts, after the characters before it were decoded.',
  ['inputs'], 'all scalar values, all short byte sequences, random longer ones', 'Tests decode one text and a few broken sequences.',
  ['keramics-encodings/src/utf8.rs'], [('sequence length and continuation checks', 'keramics-encodings/src/utf8.rs')],
  'All code points, all two byte sequences and structured random sequences against the standard library.', 'differential testing against the standard library, partly exhaustive', ['DecoderUtf8, EncoderUtf8'])

p('C13', 'Base64 decoding inverts encoding and rejects everything else',
  'For every byte sequence its Base64 form, with or without padding, decodes back to exactly those bytes, in one go or value by value, at any offset and with white space when that is to be skipped. Text with characters outside of the alphabet, incomplete padding or more data than the buffer holds is an error and never a panic.',
  ['inputs', 'configurations'], 'all byte sequences and texts, with and without padding and white space', 'Tests decode one fixed text.',
  ['keramics-encodings/src/base64.rs'], [('alphabet tables, padding', 'keramics-encodings/src/base64.rs')],
  'Round trips through an independent encoder, a stream model, every character of the alphabet and arbitrary text.', TRIP, ['Base64Context, Base64Stream'])

p('C14', 'Byte strings keep, compare and show their text by code points',
  'For every history of reading and extending byte strings of the supported encodings, their bytes, length, order, equality and hash, and comparison with text, are those of the bytes up to the first zero byte; extending with text of another encoding keeps the code points or is an error that leaves the earlier bytes. The text of a string is that of its code points, and bytes that cannot be decoded are shown without a panic.',
  ['inputs', 'histories', 'configurations'], 'all byte sequences, encodings, and sequences of operations', 'Tests use ASCII strings.',
  ['keramics-types/src/byte_string.rs'], [('trailing zero handling', 'keramics-types/src/byte_string.rs'), ('extension across encodings', 'keramics-types/src/byte_string.rs')],
  'Model-based histories against vectors of code points.', 'stateful model-based testing', ['ByteString'])

p('C15', 'UCS-2 and UTF-16 strings keep and show their code units',
  'For both byte orders and every sequence of code units the string ends at the first zero unit, keeps its units, round trips through text when it is well-formed, and shows unpaired surrogates escaped without a panic. Equality, order and hash follow the units.',
  ['inputs'], 'all sequences of 16-bit units, both byte orders', 'Tests use one short text.',
  ['keramics-types/src/ucs2_string.rs', 'keramics-types/src/utf16_string.rs'], [('end of string', 'keramics-types/src/utf16_string.rs'), ('unpaired surrogates', 'keramics-types/src/utf16_string.rs')],
  'Every single unit, and random unit sequences dense in surrogates, against the standard library.', MODEL, ['Ucs2String, Utf16String'])

p('C16', 'UCS-2 comparison and case folding are consistent',
  'UCS-2 strings compare by their code units, with a prefix before its extensions, and order, equality and hash agree for every pair. Case folding with any mapping replaces exactly the mapped code units and leaves the source as it was. The table of upper case mappings that file systems use has the upper case of each letter, once.',
  ['inputs', 'configurations'], 'all pairs and triples of strings, all folding tables; all code units', 'Tests compare one pair.',
  ['keramics-types/src/ucs2_string.rs', 'keramics-types/src/constants.rs'], [('comparison and folding', 'keramics-types/src/ucs2_string.rs'), ('upper case mappings', 'keramics-types/src/constants.rs')],
  'Random related strings and mappings against comparing and mapping vectors.', MODEL, ['Ucs2String'])

p('C17', 'UUIDs convert between bytes and text without loss',
  'For every 16 bytes in either byte order the textual form is the standard one, parses back to an equal value, and equality, hash, nil and max follow the bytes. Text that is not a UUID (optionally in braces, in either case) is an error that leaves the value as it was.',
  ['inputs'], 'all 16-byte values in both byte orders; all texts', 'Tests convert one value.',
  ['keramics-types/src/uuid.rs'], [('byte order of the first three fields', 'keramics-types/src/uuid.rs')],
  'Random values and mutated texts against an independent formatter and parser.', TRIP, ['Uuid'])

p('C18', 'Integers read from bytes follow width, sign, byte order and offset',
  'For every width, signedness, byte order and offset, the integer read from bytes is the one the byte order defines, and bytes outside of it do not matter.',
  ['inputs'], 'all byte sequences and offsets; all 16-bit values', 'Tests read one value per width.',
  ['keramics-types/src/macros.rs'], [('conversion macros', 'keramics-types/src/macros.rs')],
  'Random bytes and offsets, and all 16-bit values, against the conversions of the standard library.', 'differential testing against the standard library', ['bytes_to_* macros'])

p('C19', 'Signature scanning reports exactly the signatures that match',
  'For every set of signatures bound to the start, to the end or unbound, and every data, scanning reports exactly the signatures whose pattern occurs where it may occur, at the right offsets, however the data is split into buffers. Scanning ends and does not panic for any data.',
  ['inputs', 'histories', 'configurations'], 'all signature sets, data and splits into buffers', 'Tests scan a few images with a few signatures; the skip tables depend on the whole set.',
  ['keramics-sigscan/src'], [('scan tree and skip tables', 'keramics-sigscan/src/scan_tree.rs'), ('buffer boundaries', 'keramics-sigscan/src/scanner.rs')],
  'Random related signatures and planted data against a naive search at every offset, one or several buffers.', MODEL, ['Scanner, ScanContext'])

p('C20', 'Structure layouts describe and read exactly the declared bytes',
  'For every supported declaration of a structure (integers, bit fields, timestamps, identifiers, strings, arrays, nested structures, modifiers, formats, byte orders, conditional groups) and every data, the generated description shows each declared field with the value at its declared place. Reading a structure at a position takes exactly the declared number of bytes from there or is an error, and debug output shows position, bytes and description.',
  ['programs', 'inputs'], 'declarations of the supported kinds, all data and positions', 'Tests compare generated code for a few declarations and never run it.',
  ['keramics-layout-map/src/macros.rs', 'keramics-layout-map/src/structure.rs'],
  [('offsets of members', 'keramics-layout-map/src/structure.rs'), ('parsing of declarations', 'keramics-layout-map/src/macros.rs')],
  'A fixed catalogue of 110 generated declarations (they are compiled in), with generated data, against an interpreter of their descriptions.', 'differential testing of generated code against an interpreter', ['debug_read_data, read_at_position'])

CODEC = 'property-based testing: encoders of the harness that keep the decoded data, with shrinking'
CODEC_WHY = 'Tests decode one file; each opcode form, distance and size class, and their limits, need streams made for them.'

p('C30', 'ADC data decompresses to the data it encodes',
  'For every sequence of ADC literal runs and two and three byte matches (also matches that overlap what they write), decompression gives exactly the bytes those operations define and their number. Data that ends within an operation, or a match before the start of the output, is an error.',
  ['inputs'], 'all valid sequences of operations, and those cut off or with a distance out of bounds', CODEC_WHY,
  ['keramics-compression/src/adc.rs'], [('opcodes and overlapping matches', 'keramics-compression/src/adc.rs')],
  'Generated sequences of operations against a model that executes them.', CODEC, ['AdcContext.decompress'])

p('C31', 'LZNT1 data decompresses to the data it encodes',
  'For every sequence of compressed and uncompressed LZNT1 chunks, with any mix of literals and matches at any position in the chunk (which decides the width of distance and size), decompression gives exactly the bytes encoded.',
  ['inputs'], 'all sequences of chunks of up to 4096 bytes, all positions of matches', CODEC_WHY,
  ['keramics-compression/src/lznt1.rs'], [('width of distance and size', 'keramics-compression/src/lznt1.rs')],
  'Generated chunks against a model that executes their tokens.', CODEC, ['Lznt1Context.decompress'])

p('C32', 'LZVN data decompresses to the data it encodes',
  'For every sequence of LZVN opcodes (small, medium, large and previous distance, small and large literals and matches, no operation, end of stream) decompression gives exactly the bytes they define.',
  ['inputs'], 'all valid sequences of opcodes', CODEC_WHY,
  ['keramics-compression/src/lzvn.rs'], [('opcode table and previous distance', 'keramics-compression/src/lzvn.rs')],
  'Generated sequences of opcodes, in every form that can express a token, against a model.', CODEC, ['LzvnContext.decompress'])

p('C33', 'LZFSE data decompresses to the data it encodes',
  'For every LZFSE stream of uncompressed, version 1 and version 2 compressed (finite state entropy coded) and LZVN blocks, with any frequency tables that add up to the number of states, decompression gives exactly the bytes encoded.',
  ['inputs', 'configurations'], 'all sequences of blocks, tokens and frequency tables', CODEC_WHY,
  ['keramics-compression/src/lzfse.rs', 'keramics-compression/src/lzfse_fse.rs'], [('decoder tables', 'keramics-compression/src/lzfse.rs'), ('frequency table of a block header', 'keramics-compression/src/lzfse.rs')],
  'A finite state entropy encoder in the harness, with random frequency tables, literals and matches.', CODEC, ['LzfseContext.decompress'])

p('C34', 'DEFLATE and zlib data decompresses to the data it encodes, or is an error',
  'For every DEFLATE stream of stored, fixed and dynamic Huffman blocks, with any complete code (also with a single or no distance code), and its zlib form, decompression gives exactly the bytes encoded. A wrong zlib checksum, data that is cut off, or a code whose sizes are over-subscribed is an error.',
  ['inputs', 'configurations'], 'all sequences of blocks, tokens and Huffman codes; all prefixes of a stream', CODEC_WHY,
  ['keramics-compression/src/deflate.rs', 'keramics-compression/src/zlib.rs', 'keramics-compression/src/huffman.rs'],
  [('Huffman tables', 'keramics-compression/src/huffman.rs'), ('run-length coded code sizes', 'keramics-compression/src/deflate.rs'), ('checksum', 'keramics-compression/src/zlib.rs')],
  'An encoder in the harness that makes random Huffman codes, code size encodings and tokens; damaged checksums; all prefixes of a stream.', CODEC, ['DeflateContext.decompress, ZlibContext.decompress'])

p('C35', 'bzip2 data decompresses to the data it encodes, or is an error',
  'For every bzip2 stream of any compression level and number of blocks, with any number of Huffman tables and selectors, decompression gives exactly the data encoded. A wrong block or stream checksum, or data that is cut off, is an error.',
  ['inputs', 'configurations'], 'all data, block sizes, tables and selectors; all damaged checksums and prefixes', CODEC_WHY,
  ['keramics-compression/src/bzip2.rs'], [('run lengths and move to front', 'keramics-compression/src/bzip2.rs'), ('inverse Burrows-Wheeler transform', 'keramics-compression/src/bzip2.rs'), ('checksums', 'keramics-compression/src/bzip2.rs')],
  'A bzip2 encoder in the harness with random tables and selectors.', CODEC, ['Bzip2Context.decompress'])

p('C36', 'LZX data decompresses to the data it encodes',
  'For every LZX stream (as in Windows imaging) of verbatim, aligned offset and uncompressed blocks, with repeated offsets, any Huffman code sizes and translated call instructions, decompression gives exactly the bytes encoded.',
  ['inputs', 'configurations'], 'all sequences of blocks and tokens in a window of 32 KiB', CODEC_WHY,
  ['keramics-compression/src/lzx.rs', 'keramics-compression/src/huffman.rs'], [('recent offsets', 'keramics-compression/src/lzx.rs'), ('code size differences', 'keramics-compression/src/lzx.rs'), ('call instruction translation', 'keramics-compression/src/lzx.rs')],
  'An LZX encoder in the harness with random codes, tokens and blocks, and a reference translation of call instructions.', CODEC, ['LzxContext.decompress'])

p('C38', 'No compressed data makes a decompressor panic or leak earlier buffer content',
  'For every input, valid, damaged or arbitrary, each decompressor (ADC, LZNT1, LZVN, LZFSE, DEFLATE, zlib, bzip2, LZX) ends with the decompressed size or an error and does not panic. What it returns depends on the input only, not on what the output buffer held or what the context decompressed before.',
  ['inputs', 'histories'], 'all byte sequences and output sizes; contexts used again after success and error', 'Tests decode valid data; damaged data has no tests at all.',
  ['keramics-compression/src'], [('bounds of matches and tables', 'keramics-compression/src'), ('state kept in the context', 'keramics-compression/src')],
  'Generated valid streams with random damage, and arbitrary bytes, decompressed twice into buffers with different content and with contexts that were used before.', 'property-based fuzzing with a metamorphic oracle, with shrinking', ['decompress of each context'])

IMAGE = 'model-based testing of read histories over generated images, with shrinking'
IMAGE_WHY = 'Tests read whole sample images (most are not in the repository); sizes, layouts, read histories and damage that no sample has are not covered.'

p('C40', 'MBR volumes list every partition with the bytes it spans',
  'For every master boot record, with primary partitions and chains of extended boot records (types 5 and 15) of any sector size, the volume system lists exactly the partitions the tables define, in table order, with their entry index, type, offset and size. Every history of seeks and reads on a partition returns exactly the bytes that the volume holds at that place. Damaged tables give an error or partitions, never a panic or an endless chain.',
  ['inputs', 'configurations', 'histories'], 'all tables of up to 4 primary partitions and chains of logical partitions; all read histories; damaged tables', IMAGE_WHY,
  ['keramics-formats/src/mbr'], [('chain of extended boot records', 'keramics-formats/src/mbr/volume_system.rs'), ('window of a partition', 'keramics-formats/src/mbr/partition.rs')],
  'Volumes written by the harness, whose partitions and content it knows.', IMAGE, ['MbrVolumeSystem, MbrPartition'])

p('C41', 'GPT volumes list every partition with the bytes it spans',
  'For every GUID partition table, of any sector size, number and order of entries, the volume system gives the disk identifier and lists exactly the entries in use with their index, type and partition identifiers, attribute flags, name, offset and size. Every history of seeks and reads on a partition returns exactly the bytes that the volume holds at that place. When the primary header or table is damaged (its checksum is wrong) the backup at the end of the volume is used; damaged volumes give an error or partitions, never a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all headers and tables of 128 byte entries, damage to either copy, all read histories', IMAGE_WHY,
  ['keramics-formats/src/gpt'], [('backup header and table', 'keramics-formats/src/gpt/volume_system.rs'), ('checksums', 'keramics-formats/src/gpt/partition_table_header.rs'), ('window of a partition', 'keramics-formats/src/gpt/partition.rs')],
  'Volumes written by the harness, whose partitions and content it knows, with damage to headers and tables.', IMAGE, ['GptVolumeSystem, GptPartition'])

p('C42', 'APM volumes list every partition with the bytes it spans',
  'For every Apple partition map the volume system lists exactly the partitions of the map in order, with type identifier, name, status flags, offset and size. Every history of seeks and reads on a partition returns exactly the bytes that the volume holds at that place. Damaged maps give an error or partitions, never a panic.',
  ['inputs', 'configurations', 'histories'], 'all maps of 512 byte blocks, all read histories, damaged maps', IMAGE_WHY,
  ['keramics-formats/src/apm'], [('partition map', 'keramics-formats/src/apm/volume_system.rs'), ('window of a partition', 'keramics-formats/src/apm/partition.rs')],
  'Volumes written by the harness, whose partitions and content it knows.', IMAGE, ['ApmVolumeSystem, ApmPartition'])

p('C43', 'QCOW images show the content their clusters and backing files hold',
  'For every QCOW image of version 1, 2 or 3, of any cluster size and media size and any allocation of clusters, also with a chain of backing files of other sizes, every history of seeks and reads on a layer returns exactly the content: data of clusters in the file, zero bytes for zero clusters, data of the backing file (zero bytes after its end) or zero bytes for clusters that are not allocated. Compressed clusters are refused with an error. Damaged images, and backing files that refer back to the image, give an error or data, never a panic or an endless loop.',
  ['inputs', 'configurations', 'histories'], 'all layouts of tables and clusters, chains of layers, read histories; damaged images', IMAGE_WHY,
  ['keramics-formats/src/qcow', 'keramics-formats/src/block_tree.rs', 'keramics-formats/src/block_tree_node.rs'],
  [('level 1 and 2 tables', 'keramics-formats/src/qcow/file.rs'), ('block tree of ranges', 'keramics-formats/src/block_tree.rs'), ('backing file chain', 'keramics-formats/src/qcow/image.rs')],
  'Images and chains written by the harness, whose content it knows, with many read histories on the same layer.', IMAGE, ['QcowImage, QcowFile'])

p('C44', 'VHD images show the content their blocks, bitmaps and parents hold',
  'For every VHD image, fixed, dynamic or differential, of any block and media size, and any chain of parents, every history of seeks and reads on a layer returns exactly the content: sectors that the sector bitmap (most significant bit first) marks come from the file, others from the parent (zero bytes after its end) or are zero. A parent with another identifier, or that refers back to the image, is refused. Damaged images give an error or data, never a panic.',
  ['inputs', 'configurations', 'histories'], 'all block tables, sector bitmaps and chains of layers; read histories; damaged images', IMAGE_WHY,
  ['keramics-formats/src/vhd', 'keramics-formats/src/block_tree.rs', 'keramics-formats/src/block_tree_node.rs'],
  [('sector bitmap ranges', 'keramics-formats/src/vhd/sector_bitmap.rs'), ('block allocation table', 'keramics-formats/src/vhd/file.rs'), ('parent chain', 'keramics-formats/src/vhd/image.rs')],
  'Images and chains written by the harness, whose content it knows.', IMAGE, ['VhdImage, VhdFile'])

p('C45', 'VHDX images show the content their blocks, bitmaps and parents hold',
  'For every VHDX image, fixed, dynamic or differential, of any block size, sector size and media size (also of more than one chunk), and any chain of parents, block size, sector size, disk type and the identifier of the current image header are as stored, and every history of seeks and reads on a layer returns exactly the content: present blocks come from the file, partially present ones from the file and the parent as the sector bitmap tells, absent ones from the parent or zero. Wrong header or region table checksums, a parent with another identifier, or one that refers back to the image, are errors. Damaged images never cause a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all block states, bitmaps and chains of layers; read histories; damaged images', IMAGE_WHY,
  ['keramics-formats/src/vhdx', 'keramics-formats/src/block_tree.rs', 'keramics-formats/src/block_tree_node.rs'],
  [('chunks of the block allocation table', 'keramics-formats/src/vhdx/file.rs'), ('sector bitmap ranges', 'keramics-formats/src/vhdx/sector_bitmap.rs'), ('parent locator', 'keramics-formats/src/vhdx/parent_locator.rs'), ('current image header', 'keramics-formats/src/vhdx/file.rs')],
  'Images and chains written by the harness, whose content it knows.', IMAGE, ['VhdxImage, VhdxFile'])

p('C46', 'Sparse disk images show the content their bands hold',
  'For every sparse disk image (.sparseimage), of any band size, media size and assignment of bands to places in the file, every history of seeks and reads returns exactly the content: data of bands that are in use, zero bytes for others. Of an image that was cut off, all data that is still read comes from the right place. Damaged images give an error or data, never a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all header blocks of up to 1008 bands, read histories; cut off and damaged images', IMAGE_WHY,
  ['keramics-formats/src/sparseimage', 'keramics-formats/src/block_tree.rs', 'keramics-formats/src/block_tree_node.rs'],
  [('bands array', 'keramics-formats/src/sparseimage/file.rs'), ('block tree of ranges', 'keramics-formats/src/block_tree.rs')],
  'Images written by the harness, whose content it knows.', IMAGE, ['SparseImageFile'])

p('C47', 'UDIF images show the content their block ranges hold',
  'For every UDIF image (.dmg), with or without a property list, with any number of block tables and any sequence of raw, sparse, comment and compressed (ADC, zlib, bzip2, LZFSE) block ranges of any size, the compression method is as stored and every history of seeks and reads returns exactly the content. A block whose data decompresses to less than its sectors is an error, not zero bytes. Damaged images and block tables give an error or data, never a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all sequences of block ranges in all equal ways to write the property list, read histories; short blocks, damaged images and tables', IMAGE_WHY,
  ['keramics-formats/src/udif', 'keramics-formats/src/plist', 'keramics-formats/src/block_tree.rs', 'keramics-formats/src/block_tree_node.rs'],
  [('block ranges', 'keramics-formats/src/udif/file.rs'), ('block table', 'keramics-formats/src/udif/block_table.rs'), ('property list', 'keramics-formats/src/plist/xmlplist.rs')],
  'Images compressed and written by the harness, whose content it knows.', IMAGE, ['UdifFile'])

p('C48', 'EWF images show the acquired media, from all of their segment files',
  'For every Expert Witness (EWF-E01 of any version, EWF-S01) image, of any sector, chunk and media size, split over any number of segment files with any number of chunk tables, chunks compressed or not, every history of seeks and reads returns exactly the acquired media, also with offsets beyond 2 GiB. Sizes, media type, set identifier, MD5 and SHA-1 and the header and header2 values are as stored. A segment file that is missing, in the place of another or cut off, and a change in a structure that a checksum covers, are refused, and a compressed chunk that was changed is never returned as other data. Damaged images give an error or data, never a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all layouts of sections and segment files, read histories; missing, exchanged, cut off and damaged segment files', IMAGE_WHY,
  ['keramics-formats/src/ewf', 'keramics-formats/src/block_tree.rs', 'keramics-formats/src/lru_cache.rs', 'keramics-formats/src/path_component.rs'],
  [('segment files and chunk tables', 'keramics-formats/src/ewf/image.rs'), ('section chain', 'keramics-formats/src/ewf/file.rs'), ('header values', 'keramics-formats/src/ewf/header2.rs')],
  'Images written by the harness, whose media and values it knows.', IMAGE, ['EwfImage'])

p('C49', 'FAT volumes show the directory tree and the file content they hold',
  'For every FAT-12, FAT-16 and FAT-32 volume, of any sector, cluster and table size, the serial number, the label and the entries of every directory are as stored: names (short, long, deleted entries left out), attributes, dates and times, sizes and identifiers. Every history of seeks and reads of a file returns exactly the content of its chain of clusters, also beyond 4 GiB of the volume. An entry is found by every path of its names, regardless of case, and by its identifier, and by no other. Chains that are too short, end in a cycle or leave the volume are an error. Damaged volumes give an error or data, never a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all trees of directories and files with all names, all assignments of clusters, read histories; broken chains and damaged volumes', IMAGE_WHY,
  ['keramics-formats/src/fat', 'keramics-formats/src/block_tree.rs', 'keramics-types/src/ucs2_string.rs'],
  [('cluster chains', 'keramics-formats/src/fat/block_allocation_table.rs'), ('directory entries and long names', 'keramics-formats/src/fat/directory_entries.rs'), ('boot record', 'keramics-formats/src/fat/boot_record.rs'), ('paths and identifiers', 'keramics-formats/src/fat/file_system.rs')],
  'Volumes written by the harness, whose tree it knows.', IMAGE, ['FatFileSystem, FatFileEntry'])

p('C50', 'ext volumes show the directory tree and the file content they hold',
  'For every ext2, ext3 and ext4 volume, of any block, inode, descriptor and block group size and any of the supported features, the label, the last mount, the format version and every directory are as stored: names, inode numbers, modes, owners, link counts, sizes, times with nanoseconds, attribute counts, devices and symbolic link targets. Every history of seeks and reads of a file returns exactly its content, whether it is stored in blocks, extents of any depth or in the inode, sparse or not, also beyond 2^32 blocks. An entry is found by every path of its names and by its inode number, and no other. A changed byte that a metadata checksum covers is an error. Damaged volumes give an error or data, never a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all trees of files of all kinds, all block maps and extents trees, all feature sets, read histories; corruption of checksummed metadata and damaged volumes', IMAGE_WHY,
  ['keramics-formats/src/ext', 'keramics-formats/src/block_tree.rs', 'keramics-formats/src/block_stream.rs'],
  [('block groups', 'keramics-formats/src/ext/block_group.rs'), ('inodes', 'keramics-formats/src/ext/inode.rs'), ('extents', 'keramics-formats/src/ext/extents_tree.rs'), ('block numbers', 'keramics-formats/src/ext/block_numbers_tree.rs'), ('directories', 'keramics-formats/src/ext/directory_tree.rs')],
  'Volumes written by the harness, whose tree it knows.', IMAGE, ['ExtFileSystem, ExtFileEntry'])

p('C51', 'NTFS volumes show the directory tree and the file content they hold',
  'For every NTFS volume, of any cluster, entry, index and sector size, the label, version and flags and every directory are as stored: names, references, times, flags, sizes, attributes, reparse points, symbolic link targets. Every history of seeks and reads of a stream returns exactly its content, be it resident, in runs over any number of MFT entries, sparse, not yet valid, compressed or compressed by the overlay filter. An entry is found by its number and by every path of its names, without regard to case unless the directory heeds it, and by no other. An entry whose sectors were not written together is refused. Damaged volumes give an error or data, never a panic.',
  ['inputs', 'configurations', 'histories', 'faults'], 'all trees of files and streams, all layouts of attributes, indexes of any depth, read histories; torn entries and damaged volumes', IMAGE_WHY,
  ['keramics-formats/src/ntfs'],
  [('MFT entries', 'keramics-formats/src/ntfs/mft_entry.rs'), ('attribute lists', 'keramics-formats/src/ntfs/attribute_list.rs'), ('directory indexes', 'keramics-formats/src/ntfs/directory_index.rs'), ('compressed streams', 'keramics-formats/src/ntfs/compressed_stream.rs'), ('file entries', 'keramics-formats/src/ntfs/file_entry.rs')],
  'Volumes written by the harness, whose tree it knows.', IMAGE, ['NtfsFileSystem, NtfsFileEntry'])

p('C52', 'Paths of file systems and their components are taken apart and put together',
  'For every FAT, ext or NTFS path, the components are what the separators separate (none for the empty path, one empty one for the root), the string form gives the path back, and every way of making a path from the same components gives the same path with the same hash. Joining appends components, the parent drops the last one of several, and the file name is the last of several. Stem and extension of a name divide at its last dot, unless that is its first character, for strings, byte strings in any encoding, which they keep, and UCS-2 strings; they never panic.',
  ['inputs'], 'all paths and names without separators and backslashes in names; all encodings', 'Tests take apart a path or two of ASCII names; what varies is where dots and separators are, characters outside of ASCII, and the encoding of names.',
  ['keramics-formats/src/path_component.rs', 'keramics-formats/src/fat/path.rs', 'keramics-formats/src/ext/path.rs', 'keramics-formats/src/ntfs/path.rs'],
  [('path components', 'keramics-formats/src/path_component.rs'), ('FAT paths', 'keramics-formats/src/fat/path.rs'), ('ext paths', 'keramics-formats/src/ext/path.rs'), ('NTFS paths', 'keramics-formats/src/ntfs/path.rs')],
  'Names are not empty, hold no separator or backslash and are not "..".', 'A model on lists of strings, elementwise for stem and extension.', ['FatPath, ExtPath, NtfsPath', 'PathComponent'])

p('C53', 'Sparse bundles show the content their band files hold',
  'For every sparse bundle, of any band size and media size, any set of band files, also ones shorter than the band, and an Info.plist written in any equal way (key order, white space, comments, attributes, further values of any type), the block size is as stored and every history of seeks and reads returns exactly the content: the data of band files, zero bytes for bands and parts of bands without data. Damaged property lists, also deeply nested ones, give an error or data, never a panic or stack overflow.',
  ['inputs', 'configurations', 'histories'], 'all sets of band files, all equal property lists of strings, numbers, booleans, data, arrays and dictionaries; read histories; damaged property lists', IMAGE_WHY,
  ['keramics-formats/src/sparsebundle', 'keramics-formats/src/plist'],
  [('band files', 'keramics-formats/src/sparsebundle/image.rs'), ('property list grammar', 'keramics-formats/src/plist/xmlplist.pest'), ('property list', 'keramics-formats/src/plist/xmlplist.rs')],
  'Bundles written by the harness, whose content it knows.', IMAGE, ['SparseBundleImage'])

p('C54', 'Format detection reports exactly the formats whose signature is in place',
  'For every set of formats that is scanned for and every data stream of any size, a format is reported only if one of its signatures, of those the format documents give, is in its place as a whole within the data. If signatures of the formats are in place, relative to the start or to the end of the data, at least one of those at that end is reported, so that data with the signature of one format is identified as that format and no other. Data smaller than the places of the signatures is no error.',
  ['inputs', 'configurations'], 'all sets of formats and all data streams, with signatures, displaced ones and near misses', 'Tests scan one image of a format; what varies is which other signatures are scanned for, what else the data holds at their places, and its size.',
  ['keramics-formats/src/scanner.rs', 'keramics-sigscan/src'],
  [('format scanner', 'keramics-formats/src/scanner.rs'), ('scan tree', 'keramics-sigscan/src/scan_tree.rs'), ('scan context', 'keramics-sigscan/src/scan_context.rs')],
  'Signatures bound to the same end of the data may hide each other.', 'A search for every signature at its place, after the format documents.', ['FormatScanner'])

p('C60', 'Every location of nested images, volumes and file systems opens what is there',
  'For every nesting of storage media images (QCOW, VHD, VHDX, EWF, sparse image, UDIF), volume systems (MBR, GPT, APM) and file systems (FAT, ext, NTFS), also of images in files of a file system, and every history of operations on a virtual file system context or the resolver, the location of a layer, partition or file entry gives the file entry that is there: its type, name, size, times, link target, data forks, sub entries, and exactly its data. That is independent of what was opened before, of what else is held, and of other types opened on the same parent. Locations of what is not there give nothing, paths of another kind are errors, and file entries of the operating system have the type, times and data of the file.',
  ['inputs', 'histories'], 'all nestings up to three disks deep, all histories of up to 30 operations on up to two disks', 'Tests open one entry of one image of each format in a new context; what varies is nesting, the order of operations, caching between them, and what the file systems hold.',
  ['keramics-vfs/src/context.rs', 'keramics-vfs/src/resolver.rs', 'keramics-vfs/src/file_system.rs', 'keramics-vfs/src/file_entry.rs', 'keramics-vfs/src/data_fork.rs'],
  [('context', 'keramics-vfs/src/context.rs'), ('file system', 'keramics-vfs/src/file_system.rs'), ('file entry', 'keramics-vfs/src/file_entry.rs'), ('operating system', 'keramics-vfs/src/os'), ('images and volumes', 'keramics-vfs/src/qcow')],
  'One thread. What the sources leave as todo is not used.', 'The tree the disk was made from.', ['VfsContext', 'VfsResolver', 'VfsFileSystem', 'VfsFileEntry'])

p('C61', 'The finder visits every file entry of a file system once, under its path',
  'For every FAT, ext and NTFS file system, alone or in volumes and images, the finder yields the root and every file entry below it exactly once, directories before what is in them, each with the path by which the file system finds the same entry, whatever names, forks and directories of any depth there are.',
  ['inputs'], 'all trees of up to a few dozen entries, also with names of unusual characters', 'Tests count the entries of one fixed image; what varies is the shape of the tree and the names.',
  ['keramics-vfs/src/finder', 'keramics-vfs/src/iterators', 'keramics-vfs/src/file_entry.rs'],
  [('finder', 'keramics-vfs/src/finder/finder.rs'), ('iterators', 'keramics-vfs/src/iterators'), ('file entry', 'keramics-vfs/src/file_entry.rs')],
  'One thread.', 'The tree the file system was made from.', ['VfsFinder'])

p('C62', 'The scanner finds the volumes and file systems of a disk image and nothing else',
  'For every file with a storage media image of any supported format, a volume system or a file system, or none of these, the scan gives the tree of what is there: the format of the image with its top layer, the volume system with every partition, and the file system of each, at locations that can be opened. A scan that cannot start, because there is no such file or it has no data, is an error and leaves no tree. Scans in the same process do not influence each other.',
  ['inputs'], 'all nestings of an image, a volume system and file systems', 'Tests scan one image of a format; what varies is which format is in which, the number of layers and partitions.',
  ['keramics-vfs/src/scanner', 'keramics-formats/src/scanner.rs'],
  [('scanner', 'keramics-vfs/src/scanner/scanner.rs'), ('scan node', 'keramics-vfs/src/scanner/scan_node.rs'), ('format scanner', 'keramics-formats/src/scanner.rs')],
  'Disks that look like two formats at once are left out.', 'What the disk was made from.', ['VfsScanner'])

p('C63', 'Virtual file system paths, locations and resolvers name what they were made of',
  'For every kind of location and every list of names, the path made from a string, from components, or by joining any cut of them is the same path with the same hash and string form; parent and file name take it apart again up to the root. Locations are equal exactly if all of their layers are, give back each layer, and their string form lists the layers from the base to the top. A file resolver on any directory of a file system or of the operating system finds exactly the files below it, also if the name of the file is not UTF-8.',
  ['inputs', 'histories'], 'all lists of names without separators, all trees of locations', 'Tests make one path per kind; what varies is the number of components, where the path is cut, and the layers of locations.',
  ['keramics-vfs/src/path.rs', 'keramics-vfs/src/string_path.rs', 'keramics-vfs/src/location.rs', 'keramics-vfs/src/file_resolver.rs'],
  [('path', 'keramics-vfs/src/path.rs'), ('string path', 'keramics-vfs/src/string_path.rs'), ('location', 'keramics-vfs/src/location.rs'), ('file resolver', 'keramics-vfs/src/file_resolver.rs')],
  'Names are not empty and hold no separator and nothing that is shown escaped.', 'A model on lists of strings; the tree the disk was made from.', ['VfsPath', 'VfsLocation', 'VfsFileResolver'])

p('C70', 'A bodyfile has one line for everything in every file system of the image',
  'For every disk image with FAT, ext and NTFS file systems, in any supported image format and volume system, the bodyfile of the image tool succeeds and has exactly one line for each file entry, for each named data fork, and for the name attribute of each NTFS entry, under the path of the volume (by index or identifier) and the entry, with the identifier, mode, owner, group, size, and the MD5 of the data if that is asked for. Every time is the point in time that is stored, exact to its fraction, also before 1970; what is not set is empty. Names are shown escaped so that every line has its fields, whatever is in a name.',
  ['inputs'], 'all trees of up to a few dozen entries with all times, modes and names a file system can hold', 'Tests format fixed times; what varies is every field of every entry, and names of any characters.',
  ['keramics-tools/src/image_tool.rs', 'keramics-tools/src/bodyfile.rs', 'keramics-tools/src/display_path.rs'],
  [('image tool', 'keramics-tools/src/image_tool.rs'), ('bodyfile', 'keramics-tools/src/bodyfile.rs'), ('display path', 'keramics-tools/src/display_path.rs')],
  'Targets of symbolic links have no control character and no vertical bar: the sources leave escaping them as todo.', 'The tree the disk was made from, MD5 and calendar of the harness.', ['keramicsimage bodyfile'])

p('C71', 'The digest tool prints the digest of every data stream there is',
  'For every file, disk image of any supported format and volume system, and the standard input however it arrives, the hash tool prints the MD5, SHA-1, SHA-224, SHA-256 or SHA-512 of every data stream once, with the path of its volume (by index or identifier) and entry: of each file and each named data fork of every file system, and of the file itself if it is no image. Nothing else is printed, and no input makes it fail.',
  ['inputs'], 'all disks of up to a few dozen entries, standard input of up to 300 kB', 'No tests run the tool; what varies is what the disk holds and how input is split.',
  ['keramics-tools/src/hash_tool.rs', 'keramics-tools/src/display_path.rs', 'keramics-vfs/src/finder'],
  [('hash tool', 'keramics-tools/src/hash_tool.rs'), ('display path', 'keramics-tools/src/display_path.rs')],
  'One source at a time.', 'Digests of the harness on the data the disk was made from.', ['keramicshash'])

p('C72', 'The image tool shows the hierarchy and the digest of the media of an image',
  'For every disk image, in any supported format and volume system, the image tool prints one line for each layer, volume system, partition and file system, in order, under what it is in, with its path and the identifier of the partition as an alias. The digest of an EWF, sparse image or UDIF image is that of its media, next to the one that is stored in it if there is one, and a file that is none of the images has no digest.',
  ['inputs'], 'all nestings of an image, a volume system and file systems', 'No tests run the tool; what varies is what is in what.',
  ['keramics-tools/src/image_tool.rs', 'keramics-tools/src/storage_media_image.rs'],
  [('image tool', 'keramics-tools/src/image_tool.rs'), ('storage media image', 'keramics-tools/src/storage_media_image.rs')],
  'QCOW, VHD and VHDX are left out of the digest: the sources have it as todo.', 'What the disk was made from, MD5 of the harness.', ['keramicsimage'])

p('C73', 'The export tool writes exactly the data stream that was asked for',
  'For every disk image in any supported format and volume system, the export tool writes exactly the bytes of the data fork (by path, and by name if one is given) to the target directory, for every file that is in one of the file systems. For a path or a name that is not there it says so and writes nothing.',
  ['inputs'], 'all files and named forks of all disks of up to a few dozen entries', 'No tests run the tool; what varies is what the disk holds.',
  ['keramics-tools/src/export_tool.rs', 'keramics-vfs/src/file_entry.rs'],
  [('export tool', 'keramics-tools/src/export_tool.rs')],
  'Names without a slash. A path that is in more than one volume gives the data of the last.', 'The data the disk was made from.', ['keramicsexport'])

p('C39', 'Debug output does not change what is decompressed',
  'For every compressed stream, valid, cut off or damaged, of ADC, LZNT1, LZVN, LZFSE, DEFLATE, zlib, bzip2 and LZX, decompression with debug output gives the same bytes or an error as without, and does not panic.',
  ['inputs', 'configurations'], 'all streams as in C30 to C38', 'No test decompresses with debug output, which formats values and takes slices of its own.',
  ['keramics-compression/src'], [('debug output', 'keramics-compression/src'), ('descriptions', 'keramics-layout-map/src/structure.rs')],
  'The text of the debug output is not compared.', 'The encoder that made the stream, as in C30 to C38.', ['Mediator, decompress'])

p('C55', 'Debug output does not change what is read of images, volumes and file systems',
  'For every image, volume system and file system of the supported formats, valid or damaged, opening and reading it with debug output gives the same values, entries and bytes or an error as without, and does not panic.',
  ['inputs', 'configurations'], 'all images as in C40 to C53', 'No test opens an image with debug output, which formats values and takes slices of its own.',
  ['keramics-formats/src'], [('debug output', 'keramics-formats/src'), ('descriptions', 'keramics-layout-map/src/structure.rs')],
  'The text of the debug output is not compared.', 'What the image was made from, as in C40 to C53.', ['Mediator'])

p('C74', 'The information tool tells what is stored in an image or file system',
  'For every FAT, ext and NTFS file system, at any offset of a file, the information tool succeeds and tells its properties, its hierarchy has every file with every data stream, and for every path or entry identifier it tells the name, size, times, owner, mode, flags and attributes that are stored; a path that is not there is an error. For every volume system it tells the offset, size and identifiers of every partition, and for every disk image the size of its media and its other properties, such as the parent of a differential image. Every number of bytes is also told in units of 1024 or 1000 bytes, rounded to one decimal, for every 64-bit value.',
  ['inputs'], 'file systems of up to a few dozen entries, volume systems and images of all supported formats; sizes of all of 64 bits', 'Tests format a handful of values; what varies is what the file system or image holds.',
  ['keramics-tools/src/info_tool.rs', 'keramics-tools/src/info', 'keramics-tools/src/formatters.rs', 'keramics-tools/src/range_stream.rs'],
  [('information tool', 'keramics-tools/src/info_tool.rs'), ('information per format', 'keramics-tools/src/info'), ('formatters', 'keramics-tools/src/formatters.rs')],
  'Names and targets that need no care when they are shown. Directories of NTFS may or may not be in the hierarchy, as they have no data stream.', 'What the file system or image was made from; exact integers for sizes.', ['keramicsinfo'])

p('C75', 'The Python bindings give what the library gives',
  'For every location whose types the Python bindings have (the operating system, QCOW, VHD, VHDX and EWF images, MBR, GPT and APM, ext), built layer by layer from strings, the resolver of the bindings gives the file entry that is there, with its name and its modification, access, change and creation time to the last digit; None for a time that is not set and for a path that is not there, and a RuntimeError, never a panic, where the library has an error. Locations that share a layer do not change each other, and values of VfsType are equal when they are the same.',
  ['inputs', 'histories'], 'all locations of nestings of images, volume systems and ext file systems, and files with times from 1901 to 2128', 'The tests open a handful of fixed files; what varies is what is in what and which times it has.',
  ['keramics-python/src/vfs.rs', 'keramics-python/src/datetime.rs', 'keramics-python/src/lib.rs', 'keramics-vfs/src/resolver.rs'],
  [('locations and file entries', 'keramics-python/src/vfs.rs'), ('times', 'keramics-python/src/datetime.rs'), ('modules', 'keramics-python/src/lib.rs')],
  'The Python that is installed, one question at a time, of any thread. FAT and NTFS have no type in the bindings.', 'The library itself, and what the disk was made from.', ['pykeramics'])

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=["include/stdex/"+f for f in files], mechanism=[dict(name=n, where="include/stdex/"+w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where="include/stdex/"+w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("H01", "Checksums and digests are exact and independent of chunking",
  "CRC-32, MD5 and SHA-1 of any byte sequence equal the published algorithm's value, however the sequence is split into consecutive blocks and whatever its total length. Resetting a hash object makes it as good as new. Hashing data on its way through a stream, reading or writing, covers exactly the bytes that were transferred and leaves them unchanged.",
  ["inputs", "histories"], "every byte sequence, every split of it into blocks (empty ones included), every reuse of the hash object, every short transfer of the stream underneath",
  "The tests hash a handful of fixed strings in one piece; lengths around the 64-byte block, splits inside a block and reuse are never reached.",
  ["hash.hpp"], [("block buffering and bit counter", "hash.hpp: block_hash::hash"), ("padding and length", "hash.hpp: md5_hash::finalize, sha1_hash::finalize"), ("stream_hasher", "hash.hpp: stream_hasher")])

p("H02", "Hexadecimal encoding and decoding are inverse and chunk-independent",
  "Hexadecimal encoding produces exactly two digits of the documented case per byte, and decoding any digits of either case interleaved with other characters gives back the bytes. Both give the same result however the input is split into consecutive blocks, and decoding reports completion exactly when the block ends with the digit that completes a byte. A terminator ends the input.",
  ["inputs", "histories"], "every byte sequence, every text with foreign characters between digits, every split into blocks",
  "No stable test covers hexadecimal coding; the state carried over a block boundary only shows for odd splits.",
  ["hex.hpp"], [("hex_enc::encode", "hex.hpp: hex_enc"), ("hex_dec::decode with pending nibble", "hex.hpp: hex_dec")])

p("H03", "Base64 encoding and decoding are inverse and chunk-independent",
  "Base64 encoding of any bytes yields the RFC 4648 text with padding, and decoding that text, also with line breaks or other foreign characters in it, yields exactly the bytes; decoding reports the end exactly when the padding has been met. Both give the same result however the input is split into blocks, both never produce more than the announced maximum size, and encoding and decoding through a stream yields the same data as in memory, whatever the block sizes of the reads and writes.",
  ["inputs", "histories"], "every byte sequence, every split into blocks, every sequence of read and write sizes of the stream adapters",
  "The base64 tests are not among the reliable ones and use one text with one block size.",
  ["base64.hpp"], [("state of partial quanta", "base64.hpp: base64_enc, base64_dec"), ("stream adapters", "base64.hpp: base64_writer, base64_reader")])

p("Z01", "Compression through a stream is lossless and malformed input ends",
  "Anything written through the compressing stream and read through the decompressing stream comes back unchanged, for every compression level and block size and every sequence of write and read sizes, and the compressed data is readable by any other zlib implementation and vice versa. Truncated, corrupted or trailing input makes the reader end with the end-of-data or failed state (or a reported error), never hang and never deliver data past the end of the compressed stream; what a truncated stream still holds is delivered to a reader that asks for all of it. However a stream ends, the compressor and decompressor leave no memory behind.",
  ["inputs", "histories", "fault_sequences"], "every byte sequence, block size, level, sequence of transfer sizes, and every truncation, corruption or extension of compressed data",
  "The test round-trips one text with one block size and never feeds damaged data.",
  ["zlib.hpp"], [("inflate/deflate loops", "zlib.hpp: zlib_reader::read, zlib_writer::write, flush")])

p("C01", "The vector queue behaves as a double-ended queue",
  "After any sequence of pushes and pops at both ends, element accesses, clearing, copying and moving, the ring-buffer queue holds the same elements in the same order as an ordinary double-ended queue of the same fixed capacity put through the same operations (pushing onto a full queue drops the element at the other end), and indexing shows exactly those elements. Every element that was constructed is destroyed exactly once.",
  ["histories", "inputs"], "every sequence of operations, for every capacity and wrap position, with trivial and non-trivial element types",
  "No stable test touches it; the wrap-around of head and tail only shows after a particular history.",
  ["vector_queue.hpp"], [("head/count arithmetic", "vector_queue.hpp: vector_queue::abs, push_*, pop_*, erase, assign")])

p("C02", "The ring buffer passes all data between two threads in order",
  "Between one writing and one reading thread, every item put into the ring is taken out exactly once, in order and unchanged, whatever the portions; a writer waits while the ring is full and a reader while it is empty, and every portion offered is a contiguous, non-empty part that the other side is not using. Ending the ring wakes both sides: nothing already stored is lost, and a reader sees the end only after taking everything. Any number of further threads may wait for the ring to run empty: each of them goes on once it is empty or ended, and none of them keeps the writer from going on.",
  ["schedules", "histories", "inputs"], "every interleaving of one producer and one consumer, every sequence of portion sizes, every ring capacity",
  "The test passes one sequence with one capacity and one schedule.",
  ["ring.hpp"], [("alloc/push and front/pop under mutex and condition variables", "ring.hpp: ring"), ("quit", "ring.hpp: ring::quit, sync")])

p("C03", "The object pool never hands one object to two users",
  "An object taken from the pool is never handed out again before it is returned, from any thread, and every returned object is later handed out again or released exactly once when the pool is cleared or destroyed. An empty pool answers with nothing instead of blocking or inventing an object.",
  ["schedules", "histories"], "every interleaving of taking and returning by several threads",
  "The test runs one workload and checks only that it does not crash.",
  ["pool.hpp"], [("per-NUMA-node lists under a lock", "pool.hpp: pool::pop, push, clear")])

p("C04", "Locks exclude and watchdogs bite exactly when they should",
  "The spin lock lets at most one thread into its critical section and makes one holder's writes visible to the next; trying it never blocks and succeeds only when it is free. A watchdog calls back when it has not been patted for its timeout and does not call back while it is patted in time, calls once per silence, and stops for good with its destruction.",
  ["schedules", "histories"], "every interleaving of the contending threads; every timetable of pats",
  "Nothing tests the spin lock; the watchdog test runs one timetable.",
  ["spinlock.hpp", "watchdog.hpp"], [("atomic exchange spin", "spinlock.hpp: spinlock"), ("phase counter and condition variable", "watchdog.hpp: watchdog")])

p("M01", "Interval algebra follows set semantics on the number line",
  "Emptiness, validity, size, containment, shifting by arithmetic operators and comparison of intervals agree with their meaning on the endpoints: the start is inside and the end is not, an interval whose start is not before its end is empty and contains nothing, one whose start lies after its end is invalid, and shifting (by a number, an interval, or one step) moves each end by exactly the given amount and yields the moved (prefix) or original (postfix) interval. Text matched by position intervals therefore has the length its interval reports.",
  ["inputs"], "every pair of endpoints including reversed, equal and extreme ones, and every shift that does not overflow",
  "No test covers intervals.",
  ["interval.hpp"], [("interval operators", "interval.hpp: interval")])

p("M02", "Position mappings translate between source and destination exactly",
  "Given a list of corresponding positions strictly increasing in both coordinates, translating a position from either side to the other follows the nearest preceding correspondence (before the first one: the position itself, but not beyond the first correspondence), and is the same whether or not a valid search hint is supplied. Mappings produced by text conversions are sorted in both coordinates, stay within both texts, and pair positions such that the source up to one converts to the destination up to the other.",
  ["inputs"], "every sorted list of correspondences, every position before, inside and after it, every hint",
  "Mappings are only compared with a few literal lists in tests; the translation functions are not tested.",
  ["mapping.hpp", "sgml.hpp"], [("binary search with hint", "mapping.hpp: dst2src, src2dst"), ("mapping emission", "sgml.hpp: sgml2str, sgml2strcat")])

p("M03", "Arithmetic helpers are exact or report overflow",
  "Checked addition and multiplication of sizes give the exact result when it fits and signal overflow when it does not, never a wrapped value. Multiplication followed by division gives the exact product divided (towards zero) in every width, whenever the quotient is representable, and rotation to the left moves bits around for every count.",
  ["inputs"], "every operand, the extremes of every integer width included",
  "Tests use a handful of operands.",
  ["math.hpp"], [("carry checks", "math.hpp: add, mul"), ("muldiv, rol", "math.hpp: muldiv, rol, ror")])

p("M04", "Byte-order conversion is exact for every integer type",
  "Swapping bytes reverses the byte representation of any value and twice restores it. Big- and little-endian host conversions produce and consume the named byte order for every integer and floating-point width, in place or by value, and single bytes are left alone.",
  ["inputs"], "every value of every width, signed, unsigned, floating and enumerated",
  "No test covers byte order.",
  ["endian.hpp"], [("byteswap, LE2HE, HE2LE, BE2HE, HE2BE", "endian.hpp")])

p("M05", "Memory that held secrets is wiped before it is released",
  "Containers and blobs that promise to sanitise their memory overwrite the whole allocation with zeros before giving it back, at every reallocation, shrink and destruction, also in optimised builds. Their contents while alive behave as those of the ordinary container.",
  ["histories", "inputs"], "every sequence of growing, shrinking, assigning and destroying; every optimisation level used by the build",
  "No test inspects freed memory; the compiler removes a dead wipe silently.",
  ["memory.hpp"], [("sanitizing_allocator::deallocate", "memory.hpp"), ("sanitizing_blob destructor", "memory.hpp")])

p("U01", "UUID text and binary forms round-trip",
  "Writing any UUID as text gives the canonical braced upper-case form, in narrow and wide characters alike, and reading that text gives back the same UUID. Reading accepts the canonical form, braced, in either letter case and with blanks around its parts, within the given length, and rejects text that lacks a brace or a dash, has other characters in it or after it, or a group too large for its field, without reading past the length or terminator.",
  ["inputs"], "every 128-bit value; every mutation and truncation of a canonical text",
  "The UUID functions are not compiled by the test-suite here.",
  ["uuid.hpp"], [("uuidtostr, strtouuid", "uuid.hpp")])

p("S01", "Values written to a stream read back equal",
  "Any sequence of typed values written to a stream — integers and floating-point numbers of every width, characters, booleans, time stamps, strings, vectors, sets and blobs — reads back as the same sequence of values, consumes exactly the bytes written, and is laid out identically on every kind of stream. Reading past the end or from a failed stream yields empty or shortened values and a non-ok state, never stale or made-up data.",
  ["inputs", "histories"], "every sequence of values and types; every truncation point of the written bytes",
  "Tests write and read a few scalars; containers, wide strings and truncation are not reached.",
  ["stream.hpp"], [("read_data/write_data and operators", "stream.hpp: basic::read_data, write_data, read_str, write_str, operator<<, operator>>")])

p("S02", "A memory file behaves as a seekable file",
  "After any sequence of reads, writes, seeks, skips, truncations, loads and saves, a memory file has the contents, size, position, transferred amounts and state that an ordinary file put through the same operations would have; reads never go outside its contents, and gaps created by seeking past the end read as zeros.",
  ["histories", "inputs"], "every sequence of operations with every argument, including positions past the end",
  "Tests write and read linearly; seeking past the end, truncation and interleavings are not reached.",
  ["stream.hpp"], [("memory_file read/write/seek/truncate", "stream.hpp: memory_file"), ("reserve growth", "stream.hpp: memory_file::reserve")])

p("S03", "Operating-system files behave as their byte-array model",
  "After any sequence of opening modes, reads, writes, seeks, skips, truncations, closings and reopenings, a file stream shows the contents, size, position and state prescribed by its modes, and what is on disk agrees once it is closed. None of this depends on how much the operating system transfers at once; when it refuses, as much is reported as was transferred, and the failure is reported. Time stamps that are set are read back (to the second), and locks taken on a region exclude other holders of overlapping regions until released.",
  ["histories", "inputs", "configurations"], "every sequence of operations with every combination of opening modes",
  "Tests open, write and close one file.",
  ["stream.hpp", "system.hpp"], [("file over read(2)/write(2)/lseek(2)", "stream.hpp: file, basic_sys"), ("mode translation", "stream.hpp: file::open")])

p("S04", "A cached file is indistinguishable from the uncached one",
  "After any sequence of reads, writes, seeks, skips, size queries, truncations, flushes and closings, of any sizes and alignments, the cache returns the same data, amounts, positions, sizes and end-of-file reports as the file would directly, and after a flush or close the file holds exactly what was written. A failure of the file underneath is reported to the caller no later than the next flush or close, never swallowed; one reported by an exception passes to the caller, after which the position tells how much was transferred, and every other byte is kept.",
  ["histories", "inputs", "fault_sequences"], "every sequence of operations for every cache block size, and every failing operation of the file underneath",
  "No stable test exercises the cache beyond a linear pass.",
  ["stream.hpp"], [("one-block write-back cache", "stream.hpp: cache::read, write, seek, truncate, flush, flush_cache, load_cache")])

p("S05", "Stream adapters transform only what they promise",
  "A limited stream transfers no more than its limits and otherwise the same bytes; a window transfers exactly the bytes of its window and discards the rest; a window onto a part of a file behaves as a file made of that part; a buffered stream delivers the same bytes in the same order as the bare one; replication writes the same bytes to every target and reports a target that fails, by its state or by an exception; a buffered stream whose source throws neither repeats data nor loses any written earlier; a comparison of several files behaves as each of them and reports any difference. Writing over a limit or window is reported as a failure. None of them loses, repeats, reorders or invents bytes for any sequence of operations.",
  ["histories", "inputs"], "every sequence of reads, writes, skips, seeks and flushes with every limit, window and buffer size, over streams that transfer short amounts",
  "Tests run a replicator with a fixed pattern; other adapters are not tested.",
  ["stream.hpp"], [("limiter, window, file_window, buffer, buffered_sys, replicator", "stream.hpp")])

p("S06", "Asynchronous and FIFO streams deliver everything in order",
  "Data read through an asynchronous reader or written through an asynchronous writer, and data passed through a memory FIFO, arrives complete, unchanged and in order for every schedule and every sequence of portion sizes; flushing or closing an asynchronous writer leaves nothing behind. Failure of the stream underneath, told by its state or by an exception, ends the transfer and reaches the user as a non-ok state.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of the user and the worker thread, every portion size, every point of failure",
  "The test passes one sequence with fixed sizes.",
  ["stream.hpp", "ring.hpp"], [("async_reader, async_writer over a ring", "stream.hpp: async_reader, async_writer"), ("fifo node list", "stream.hpp: fifo")])

p("S07", "Copying between streams is complete, and failures are reported",
  "Copying a stream into another, reading the remainder, reading arrays, reading and skipping by amount, and writing whole blobs move exactly the requested or all remaining bytes, element counts that were returned are complete elements, and short reads are continued until done. When either side fails or ends, the amount reported equals the amount moved and the state tells a failure of the failing side apart from an orderly end.",
  ["inputs", "histories", "fault_sequences"], "every source and destination length, amount, element size and every pattern of short, failing and ending transfers",
  "Tests never use a stream that transfers short or fails.",
  ["stream.hpp"], [("default methods of the stream base class", "stream.hpp: basic::write_stream, read_remainder, read_array, write_array, skip")])

p("S08", "Text lines, multi-byte text and byte order marks survive streams",
  "Reading lines returns the text between line ends for both line-end conventions (LF and CRLF), including a last line without one, so that the lines with their ends removed reassemble the text. Text written in a chosen character set, with or without byte order mark, is read back as the same text, and a byte order mark is recognised exactly when present and otherwise nothing is consumed.",
  ["inputs"], "every text, line-end convention, character set and position of the file",
  "No stable test covers reading lines or byte order marks.",
  ["stream.hpp", "unicode.hpp"], [("readln and variants", "stream.hpp: basic::readln*"), ("write_charset/read_charset", "stream.hpp: basic::write_charset, basic_file::read_charset")])

p("T01", "Character set conversion is exact, lossless and independent of chunking",
  "Converting any valid text between the supported character sets gives what the definition of those sets prescribes, converting to a Unicode form and back gives the original, and a converter can be reused for any number of texts with the same result. Text ends at its first zero or its count, whichever comes first; empty text and text of any length (below and above internal buffers) are treated alike, and invalid input is reported or replaced but never read past its end.",
  ["inputs", "histories"], "every text in every supported pair of character sets, every reuse of a converter, every malformed sequence",
  "Tests convert a few words with fixed encodings.",
  ["unicode.hpp"], [("charset_encoder over iconv with staging buffer", "unicode.hpp: charset_encoder::strcat"), ("str2wstr, wstr2str", "unicode.hpp")])

p("T02", "SGML entity encoding and decoding are inverse and stay within buffers",
  "Encoding any Unicode text as SGML and decoding it again gives the original text (letters with marks may come back composed or decomposed) for every choice of characters to protect, the encoded text contains only the promised characters, and decoding resolves every named entity and every numeric entity that is a character number to the characters it stands for while leaving everything else unchanged. Checking a text reports its first malformed or unknown entity. Writing into a fixed buffer never goes past its end and reports when the result does not fit, and text is never read past its given length or terminator.",
  ["inputs"], "every Unicode text, protection choice, entity, malformed reference and buffer size",
  "Tests use a few fixed strings that fit the buffer.",
  ["sgml.hpp", "sgml_unicode.hpp"], [("entity lookup", "sgml.hpp: sgml2uni, chr2sgml"), ("buffer bound checks", "sgml.hpp: sgml2strcat, str2sgmlcat")])

p("T03", "Bounded string functions agree with their reference meaning",
  "Length, search, comparison, prefix and blank tests, with and without letter-case folding and locale, on narrow, UTF-16 and wide text, return exactly what a direct reading of the text up to its terminator or count gives, with comparisons being consistent orderings (which order letters beyond ASCII take is left to the locale). No function reads past the count or the terminator, whichever comes first.",
  ["inputs"], "every pair of texts with or without terminators, every count up to and beyond the length",
  "The reliable tests cover copying and formatting only.",
  ["string.hpp"], [("strlen/strnlen/strchr/strstr/strcmp families", "string.hpp")])

p("T04", "Bounded copying, trimming and editing of strings is exact",
  "Copying, concatenating, duplicating, trimming, case changing and line-break converting functions produce exactly the text their reference definition prescribes, write no more than the given capacity, and terminate the result whenever there is room for the terminator. Every other part of the destination stays as it was.",
  ["inputs"], "every source, destination, capacity and count",
  "Tests cover one copying function with a few strings.",
  ["string.hpp"], [("strcpy/strncpy/strcat/strncat/strdup, ltrim/rtrim, crlf2nl, replace…", "string.hpp")])

p("T05", "Text to number conversion is exact or saturates as documented",
  "Converting the textual form of any integer in a supported base to a fixed-width number gives that number, an out-of-range value gives the nearest representable one, and the reported end counts the characters processed: blanks, sign, prefix and digits. A negative number read as an unsigned one wraps around as in C as long as its magnitude fits. Text without a number gives zero, and floating-point text is read as the nearest value independently of the process locale.",
  ["inputs"], "every digit string, sign, prefix, base, width and trailing text",
  "No stable test covers number conversion.",
  ["string.hpp"], [("strtoint/strtouint and fixed-width wrappers", "string.hpp")])

p("T06", "Formatted text is complete whatever its length",
  "Formatting into a string appends exactly the text the C formatting rules prescribe, for results of every length including those at and beyond internal buffers, leaves what was in the string before untouched (also when the formatting fails, which is reported), and does not depend on the process locale unless asked. Time formatting does so too, for every format including those producing nothing.",
  ["inputs"], "every format and arguments, every result length",
  "The test formats one long string of a fixed length.",
  ["string.hpp"], [("vappendf growth loop", "string.hpp: vappendf"), ("strcatftime", "string.hpp: strcatftime")])

p("T07", "Character classes, line ends and user-perceived characters are exact",
  "Classification of characters, conversion of case of one character, recognition of line breaks including two-character ones, and the length of the leading and trailing user-perceived character (base with combining marks, surrogate pairs) agree with the reference definition for every code unit and every text. A text cut at those lengths falls apart into whole user-perceived characters.",
  ["inputs"], "every code unit and every sequence of them",
  "No stable test covers classification.",
  ["string.hpp"], [("islbreak, isspace, glyphlen, glyphrlen, tolower, toupper", "string.hpp")])

p("T08", "Unicode normalisation is canonical and idempotent",
  "Normalising any text to the composed or decomposed form gives canonically equivalent text in that form, normalising again changes nothing, and texts already in the form come back unchanged.",
  ["inputs"], "every Unicode text",
  "The test normalises two words.",
  ["unicode.hpp"], [("normalize", "unicode.hpp: normalize")])

p("P01", "Every parser is bounded, deterministic and reports sane intervals",
  "For any text and range every parser terminates, never reads outside the range or past a terminator, and gives the same result for a fresh and a reused parser object. Success reports an interval that starts where matching was asked to start and ends within the range, failure reports an invalid interval, and text after the end of the range, or after a terminator, never influences the result.",
  ["inputs", "histories"], "every parser, every text, every start and end, every earlier use of the same parser object",
  "Only one parser test is reliable; it parses fixed requests.",
  ["parser.hpp"], [("basic_parser::match and do_match of every parser", "parser.hpp")])

p("P02", "Parser combinators match exactly the language they describe",
  "Single characters, character sets, ranges and their negations, literal strings, optional and repeated matches with minimum, maximum and greed, sequences, alternatives, permutations, prefixes and end anchors match exactly the texts, with exactly the lengths, that a reference matcher built from the same description does. Case folding applies where requested and nowhere else, and the alternative reported is the one that matched.",
  ["inputs", "programs"], "every composition of combinators and every text and range",
  "No reliable test covers combinators.",
  ["parser.hpp"], [("basic_char/any_char/set/string/iterations/sequence/branch/permutation…", "parser.hpp")])

p("P03", "Numerals are recognised with the value they spell",
  "Decimal, grouped, hexadecimal, Roman, fractional, mixed, signed, scientific and monetary numerals are recognised with exactly the extent and the numeric value they spell (as long as each of their integers fits the machine), whatever spelling the digits have, and malformed groupings or digits are not taken for part of the number.",
  ["inputs"], "every numeral of every kind followed by any text",
  "No reliable test covers numerals.",
  ["parser.hpp"], [("basic_integer10, basic_integer10ts, basic_integer16, basic_roman_numeral, …", "parser.hpp")])

p("P04", "Network addresses are recognised with the address they spell",
  "Any IPv4 address in dotted decimal and any IPv6 address in hexadecimal groups, with or without compaction and scope, is recognised as the longest beginning of the text that is an address, and the binary address delivered, in network byte order, equals the one the text stands for; text that does not begin with an address is not recognised as one. Domain names are recognised label by label with their full extent.",
  ["inputs"], "every address in every textual form, every mutation of one, followed by any text",
  "No reliable test covers addresses.",
  ["parser.hpp"], [("basic_ipv4_address, basic_ipv6_address, basic_dns_name", "parser.hpp")])

p("P05", "URLs and e-mail addresses fall apart into their components",
  "A URL or e-mail address composed from any valid scheme, user, password, host (one that does not merely begin with an IPv4 address), port, path, query and fragment is recognised over its full extent, with every component delivered being exactly the part it was composed from and absent ones reported as absent.",
  ["inputs"], "every combination of present and absent components with any admissible contents, followed by any text",
  "No reliable test covers URLs.",
  ["parser.hpp"], [("basic_url, basic_email_address, basic_url_path", "parser.hpp")])

p("P06", "Bank account and payment references validate exactly by their checksum",
  "IBAN, creditor reference and Slovenian payment reference texts, with or without the usual spacing, are recognised with their components, and are declared valid exactly when their control digits satisfy the published checksum. Changing any single digit of a valid IBAN or creditor reference to another digit, or any letter to another letter, makes it invalid.",
  ["inputs"], "every country, body and control number, every reference model, every single-character change",
  "No reliable test covers references.",
  ["parser.hpp"], [("basic_iban, basic_creditor_reference, basic_si_reference", "parser.hpp")])

p("P07", "Dates, times, angles and phone numbers are recognised with their value",
  "Dates in every accepted field order, times, angles and phone numbers are recognised with exactly their extent and components. A day or month that no year has is never part of a recognised date, and minutes, seconds or fractions out of range are never part of a recognised time or angle.",
  ["inputs"], "every calendar date, time and angle in every accepted notation, every impossible one",
  "No reliable test covers dates and times.",
  ["parser.hpp"], [("basic_date, basic_time, basic_angle, basic_phone_number", "parser.hpp")])

p("P08", "HTTP messages fall apart into the parts they were composed from",
  "Any HTTP request line (followed by its line break), header, media type, quoted string, cookie, agent, language, encoding and weighted list composed according to the protocol is recognised over its full extent with the components it was composed from, including names, values, parameters, defaults and weights, and weighted lists are ordered by descending weight. Malformed messages are rejected or cut at the malformed place, without reading past the end.",
  ["inputs"], "every composition of messages from their grammar, every mutation of one",
  "The test parses a few fixed messages.",
  ["parser.hpp"], [("http_* parsers", "parser.hpp")])

p("P09", "JSON strings, CSS and MIME tokens are decoded to what they encode",
  "A JSON string, CSS string, URI, identifier, comment or import, an HTML tag, comment, declaration or condition, and a MIME type with its charset as the first parameter, composed from any contents by its grammar, is recognised over its full extent and decoded to the contents it was composed from.",
  ["inputs"], "every contents with every admissible escape, followed by any text",
  "No reliable test covers them.",
  ["parser.hpp"], [("basic_json_string, basic_css_*, basic_html_tag, basic_html_value", "parser.hpp")])

p("P10", "Emoticons and chemical formulae are recognised with their parts",
  "An emoticon composed of eyes, an optional nose and a mouth, or given by a fixed table of faces, is recognised over its full extent with the interval of every part reported, and a chemical formula composed of element symbols, subscript numbers, charge and brackets is recognised with every part; anything that lacks a required part is rejected and reports no interval.",
  ["inputs"], "every composition and near miss, anywhere in a text",
  "No test covers them.",
  ["parser.hpp"], [("basic_emoticon, basic_chemical_formula", "parser.hpp")])

p("W02", "HTML, URL and CSS escaping is reversible and stays within its text",
  "Unescaping what was escaped for HTML attributes or text, URLs or CSS gives the original string back, the escaped form contains none of the characters that end the construct it is meant for, and unescaping arbitrary text terminates, reads nothing past the given length and decodes exactly the escape sequences of the format.",
  ["inputs"], "every string, escaped or not, cut at any place",
  "No test covers escaping.",
  ["html.hpp"], [("escape, escape_min, unescape, url_escape, url_unescape, css_escape, css_unescape", "html.hpp")])

p("W01", "HTML documents are parsed into the structure and text they contain",
  "Parsing any HTML document (nested up to a thousand levels) at once or by chunks terminates without touching memory outside it and yields the elements, attributes, comments, conditional sections and text it was composed from in their order, with start and end tags paired as they nest, omitted and implied end tags included. Every character of the extracted text maps to its place in the source, and putting the text back unchanged gives a document of the same structure, text and attributes, and the very source when that was spelled canonically. What it tells of a text (the group it stands in, title, bullet, attribute value, tokens within) is so. Tokens reinserted at other words keep start and end tags nested.",
  ["inputs"], "every document, well-formed or not, split anyhow",
  "No test covers HTML parsing here.",
  ["html.hpp"], [("document, parser, token", "html.hpp")])

p("F01", "Chunked binary records round-trip and malformed files end cleanly",
  "Records written with an identifier, size and alignment are found again and read back equal in any combination and nesting, records that are not looked for are skipped with their padding, and sizes recorded in the file equal the data written. Searching in a truncated or corrupted file ends with failure rather than endlessly, never finds a record starting at or past the given bound, and content read from a record never includes bytes past the record's end.",
  ["inputs", "histories", "fault_sequences"], "every sequence and nesting of records, identifiers, sizes, alignments, and every truncation or corruption",
  "No stable test covers records.",
  ["idrec.hpp"], [("open/close/find/ignore with alignment", "idrec.hpp: header, record")])

p("F02", "WAVE metadata round-trips through files",
  "Format descriptions, waveforms, silence and cue points with labels, notes and regions written to a RIFF/WAVE file are laid out by the RIFF chunk rules and read back equal (extended cues ordered by their unique identifiers), whatever other chunks surround them, wherever the file starts, and whether this library or another program wrote it. Removing cues gives the same file without cue points, labels, notes, labelled texts and the lists left empty by it. Truncated or hostile files (nested to a thousand levels at most) make every reader end without crash or an allocation larger than the file justifies, and never yield what the file does not hold.",
  ["inputs", "fault_sequences"], "every set of cues, labels and formats; every truncation and corruption",
  "No test covers WAVE.",
  ["wav.hpp"], [("cue/label/note/region chunks", "wav.hpp: find_first, read_cues, remove_cues, >>, <<")])

p("L01", "Language tags are looked up regardless of case and separators",
  "Looking up any known language tag, in any letter case and with any punctuation for separators, gives the identifier recorded for it (the preferred one of several), and anything else gives the unknown identifier, without reading past the terminator. Every known identifier gives its tag, which leads back to it or to the preferred identifier of the same tag; an unknown one gives the fallback.",
  ["inputs"], "every tag of the table in every letter case and every non-tag",
  "The test looks up two tags.",
  ["langid.hpp"], [("map with case-insensitive order", "langid.hpp: from_rfc1766")])

p("D01", "Calendar and clock conversions are exact and invertible",
  "Converting between day numbers and day, month, year agrees with the proleptic Gregorian calendar for every day and round-trips, and time stamps convert to and from system time with the precision they claim. Text forms of dates and times agree with the values.",
  ["inputs"], "every day and time in the supported range, month ends and leap days included",
  "No stable test covers the calendar.",
  ["chrono.hpp"], [("aosn_date::from_dmy, to_dmy", "chrono.hpp"), ("aosn_timestamp::from_system, to_system", "chrono.hpp")])

p("G01", "Progress aggregation reports a consistent overall position",
  "A section or aggregate of progress maps its local position proportionally into its share of the overall range, so that the overall position never leaves the range. An aggregate reports only sums of positions its parts had, also when parts report from several threads, and hands a newly attached host the exact sums. Rate-limited reporting never swallows the first or the final position, and scope objects restore what they replaced.",
  ["histories", "schedules", "inputs"], "every sequence of range, position and detach operations on any number of parts, from any threads",
  "No test covers progress.",
  ["progress.hpp"], [("global_progress, lazy_progress, aggregate_progress, progress_switcher", "progress.hpp")])

p("G02", "Diagnostic messages and measurements are printed exactly, in debug builds only",
  "A diagnostic message goes to the standard output and an error message to the standard error, formatted exactly as the C library formats it, however long, narrow or wide, and in the order printed; a measurement that ends prints its name, literally, and the exact time between its begin and its end in nanoseconds, however long. Built with NDEBUG, none of them prints anything.",
  ["inputs", "histories"], "every message and arguments, every sequence of them, every nesting and duration of measurements",
  "No test covers the diagnostics; a test cannot wait for the durations at which a number overflows.",
  ["debug.hpp"], [("diag and err printf", "debug.hpp: diag::printf, err::printf"), ("benchmark", "debug.hpp: benchmark::~benchmark")])

p("L02", "A locale object is the locale asked for until it is destroyed",
  "A locale object made for a category and a name has, in that category, exactly the locale of that name as the system defines it, or is null when the system has no such locale; it stays so however it is moved, whatever other objects are made or destroyed and whatever locale the process is switched to, and is freed once. The ready-made locales are what they are named for: text formatted with the UTF-8 one converts between wide and UTF-8 text exactly, and the C one has the C number format, in any locale of the process; the default one is null.",
  ["inputs", "histories"], "every category, every locale name, every sequence of making, moving, releasing and destroying objects and switching the process",
  "The tests make one locale for all categories.",
  ["locale.hpp"], [("category to mask", "locale.hpp: create_locale"), ("ownership", "locale.hpp: locale"), ("ready-made", "locale.hpp: locale_C, locale_utf8")])

p("R01", "Borrowed pointers and scoped actions are released exactly once",
  "A pointer lent from its owner to an in/out parameter comes back to that owner when the loan ends: replaced, cleared or untouched, after a normal return or an exception, and through a helper that was moved. Nothing is released twice or never, and the owner's deleter stays. References that do not own never release. A scoped action runs its beginning at once and its end exactly once, in reverse order, however the scope is left, with everything it captured still alive, and not at all when its beginning failed. Library handles are given back once, and a failed start of the library is reported with its code and not ended.",
  ["histories", "fault_sequences"], "every sequence of loans, replacements, moves, nested scopes and exceptions",
  "No test uses these helpers; a wrong one leaks or frees twice only in a caller.",
  ["memory.hpp", "scoped_executor.hpp", "curl.hpp"], [("ref_unique_ptr, get_ptr, no_delete", "memory.hpp"), ("scoped_executor", "scoped_executor.hpp"), ("curl_initializer, curl, curl_slist", "curl.hpp")])

p("R02", "System facts are what the system answers",
  "A platform name is recognised regardless of letter case, and every other name is unknown. The platform of the system is that of the machine it names, unknown when it gives no answer; a process is elevated exactly when its effective user is 0; its user name is that of the effective user, kept as a copy, and empty when there is none.",
  ["inputs"], "every name; every answer of the system",
  "Tests see one machine and one user.",
  ["sys_info.hpp"], [("platform_from_name", "sys_info.hpp"), ("sys_info_t constructor", "sys_info.hpp")])

p("S09", "Sockets carry bytes faithfully and every handle has exactly one owner",
  "With SIGPIPE ignored, bytes written to a connected socket stream arrive in order, unchanged and once. A read fills the whole buffer unless the peer ended the connection, a packet ended or nothing is there, a write reports exactly what was accepted, and the states tell the end, a failure and success apart. Sockets and handle owners can be moved, copied, assigned (to themselves, too) and closed in any order: each handle is closed exactly once, no two owners hold the same one, an owner that gave its handle away or was closed holds none, and a duplication that fails leaves no owner holding a closed handle.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every sequence of writes, reads, endings, moves and copies, every failing duplication",
  "No stable test covers sockets or handle owners.",
  ["stream.hpp", "socket.hpp", "system.hpp"], [("read/write until done or ended", "stream.hpp: socket"), ("basic_socket owner", "socket.hpp"), ("basic_sys_object: copy duplicates, move hands over", "system.hpp")])

p("S10", "A memory file built without state checks treats each operation on its own",
  "In a build with CHECK_STREAM_STATE set to 0, typed values and length-prefixed texts of every unit width are written to and read from a memory file at any position, whatever became of the operation before: each operation moves exactly its bytes and sets the state anew (ok, end of data, or failure on borrowed memory that is full, which leaves contents and position as they were). A value that is not there completely reads as zero, a text as the part that is there, and the position stays at the end of data.",
  ["inputs", "histories"], "every sequence of operations, positions, contents, sizes and kinds of memory",
  "No test is built with this setting.",
  ["stream.hpp"], [("read_data, read_str, write_data, write_str under CHECK_STREAM_STATE", "stream.hpp: memory_file"), ("the setting itself", "stream.hpp: CHECK_STREAM_STATE")])

p("E01", "Running out of memory is reported and leaks nothing",
  "Whenever an allocation fails, whichever it is, the operation of a container, stream, converter, compressor, document or parser that needed it either throws the allocation failure or reports it by the state of the stream or its result (streams that can report a failure by their state hold what was transferred before it); it never claims success. No memory is left allocated, nothing is released twice, a queue that fails to take an element or the contents of another is as it was before, text appended to so far is kept, and the same operation repeated with memory at hand gives what it always gives.",
  ["fault_sequences", "inputs"], "every failing allocation (one, or all from some point) of every operation on every input",
  "Tests never run out of memory.",
  ["stream.hpp", "vector_queue.hpp", "pool.hpp", "string.hpp", "unicode.hpp", "sgml.hpp", "html.hpp", "parser.hpp", "zlib.hpp", "wav.hpp"], [("failures turned into states", "stream.hpp: basic::skip, read_remainder, write_byte; basic_file::read_remainder; memory_file::reserve; fifo::write"), ("copying and pushing", "vector_queue.hpp: vector_queue::operator=, push_front"), ("thrown otherwise", "stream.hpp: memory_file; html.hpp: document::append, parser")])

p("K01", "Minisign signature files are read exactly",
  "Reading a minisign signature file skips blank lines and untrusted comments, then takes the algorithm, key number and signature from the first other line exactly as encoded, and fails with an exception when the line holds too little or is not an Ed25519 signature, however the stream delivers it and without touching memory outside the given arrays. Comment marks and line breaks are recognised exactly where they stand, within the limits given.",
  ["inputs", "fault_sequences"], "every signature file, well-formed, truncated or corrupted, delivered in any pieces",
  "No test covers signature files.",
  ["minisign.hpp"], [("parse_minisig", "minisign.hpp"), ("minisig_comment, line_break tokens", "minisign.hpp")])

p("W03", "HTML elements are known and nest as HTML 4 prescribes",
  "Element names are recognised in any letter case and nothing else is taken for one. Elements of HTML 4 need, may omit or never have an end tag, belong to the element classes, and may contain other elements exactly as its document type prescribes (insertions and deletions outside a body aside), unknown elements nest anywhere, and in any sequence of start tags each becomes a child of the innermost open element that may hold it and ends those it may not be in. Attributes are taken for addresses exactly when HTML 4 declares them so (vendor extensions aside), and for text when they are a title, alternative text, summary or abbreviation.",
  ["inputs"], "every element name, pair of elements, sequence of start tags and attribute name",
  "No test covers the element tables.",
  ["html.hpp"], [("element_traits: span, may_contain, is_uri, is_localizable", "html.hpp"), ("element name lookup, nesting in document", "html.hpp")])

for d in P: print(json.dumps(d, ensure_ascii=False))

#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (text below + the driver's checks), seeds, findings, tools/design_tail.md."""
import json,os,re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D={
"H01":("Byte strings around the 64-byte block and its padding, cut into random consecutive blocks, several messages per object, plus every length up to a bound with three cuts each, streams that transfer short or fail while they are hashed, and totals over 512 MiB / 4 GiB (length counters).","zlib's crc32, MD5 and SHA-1 written from the RFCs, precomputed hashlib values for the large ones","the tests hash one fixed file in one go"),
"H02":("Bytes and digit texts with foreign characters in random blocks, narrow and wide, exact maximum sizes, decoding ended by terminators.","a direct codec","chunk boundaries within a digit pair and the `is_last` report depend on history"),
"H03":("Bytes in random blocks to Base64 and back, decoding arbitrary text with foreign characters, padding and terminators; the stream writer/reader over transports that transfer short or fail.","RFC 4648 reference, announced sizes as upper bounds (buffers of exactly that size under ASan)","the state machine has 3×4 phases times split points"),
"Z01":("Random mixtures of repetitive and random data, random portions, all levels, block sizes 1..64 KiB; foreign streams by zlib; truncation, bit flips, dictionaries, trailing data; failing sources and targets, with the allocated bytes compared; two cases over 4 GiB (32-bit amounts).","zlib's inflate/compress2 and the data itself","termination on damaged input is a for-all"),
"C01":("Random histories on several queues (capacities 1..12, element type with counted lives, ints, strings) and all (capacity, head, count, operation) combinations up to a bound.","std::deque with overwriting at capacity; life counts","wrap-around states are reached by few histories"),
"C02":("Producer and consumer threads with random portions, random delays, ends at random points, under ThreadSanitizer; a waiting writer together with further threads that wait for the ring to run empty; single-thread histories against a model.","the item sequence; each side scribbles over the part it was offered","schedules cannot be sampled by a unit test; TSan reports a race on any schedule that executes both accesses"),
"C03":("Random get/put/clear histories on several NUMA nodes against a bag model; 2..6 threads with holders counted in the objects, under TSan.","bag model, holder counts","double handing-out needs an interleaving"),
"C04":("Threads entering through lock/try_lock; watchdog timetables of pats and silences around the timeout, destruction at random moments.","exclusion counters, TSan; silences measured on the monotonic clock on both sides, so a slow machine cannot accuse a right watchdog","timing"),
"M01":("Endpoints with emphasis on equal, reversed, adjacent and extreme ones, over six endpoint types; histories of shifts.","128-bit endpoint arithmetic","boundary values of every type"),
"M02":("Random strictly increasing lists, every position in and around them, right, stale and random hints; mappings produced by SGML decoding.","linear search; conversion of every prefix","binary search with hints has many boundary cases"),
"M03":("Operands around powers of two and the exact overflow limit.","128-bit arithmetic","overflow boundaries"),
"M04":("Values of all widths incl. floating point, in place and by value.","reversal of the byte representation","–"),
"M05":("Histories of containers with the sanitizing allocator, blobs placed into used storage, built with -O2; the heap inspects each block given back.","all zero bytes at release; ordinary containers","dead-store elimination only shows in optimised builds"),
"R01":("Histories of loans from several owners (objects and arrays, by pointer and by reference, callees that replace, clear, throw; helpers moved; loans ended in any nesting), of non-owning references, trees of nested scopes left normally and by exceptions with actions written in place, named, or type-erased, and library handles of a stand-in library.","ledger of objects alive; log of a reference interpreter of the scopes; AddressSanitizer with use-after-scope; accounts of the stand-in","use after the declaration only shows with captures and another stack frame in between"),
"R02":("Names near the known ones (case, one character more, less or changed), generated answers of uname, geteuid/getuid and getpwuid (stand-ins that reuse their storage).","direct reading of the answers","tests see one machine"),
"U01":("Random and sparse UUIDs, canonical text, one-character mutations, truncations, blanks, garbage; narrow and wide.","direct formatter and a grammar of the canonical form","–"),
"D01":("Years 1..10^6 with emphasis on month ends, leap days and centuries; every day of a range; stamps; formats of lengths around the internal buffers, locales.","days-from-civil, gmtime_r, strftime","calendar boundaries; the tests convert one instant"),
"L01":("Every tag of the table in changed spelling, near misses, garbage, every 17-bit identifier.","the published table, folded","–"),
"G02":("Sequences of narrow and wide messages to both outputs, long ones; nested measurements with a clock that is set by the case (up to days).","the C library's formatting, captured; the clock's own difference; a second build with NDEBUG","durations of hours without waiting"),
"L02":("Categories and names (existing and not), histories of make, move, release, destroy and process switches; Unicode texts through the ready-made locales.","nl_langinfo and strcoll under setlocale of the same name; UTF-8 by definition","histories; every category"),
"G01":("Ranges, sections, positions, nesting, attach/detach histories, several threads with jitter (TSan), timeouts.","exact proportional mapping, sums kept by a model, digit-coded positions that show lost updates","histories and schedules"),
"S01":("Sequences of typed values over memory, files, pipes with short transfers, FIFOs; cut at every byte; failing writes; hostile lengths.","the values, and their bytes laid out by hand; memory growth watched","truncation at every point, dirty targets"),
"S02":("Histories of up to 60 operations on own and borrowed memory; save/load/copy/move.","a byte array and a position; the same operations on a real file","growth steps, gaps"),
"E01":("Operations of queues, pools, memory and cached files, buffers, fifos, replicators, text and character set converters, compressors, sound files, documents and parsers on random inputs; malloc, realloc and operator new replaced, so that one allocation, or it and all after it, fails at a random point.","exception, state or result; bytes allocated before and after (address sanitizer's count); contents before; the same operation again","every allocation is a point of failure of its own"),
"S03":("Histories of up to 8 openings in every mode on two files; two views; handles; times; locks watched from another process; full pipes; a system (read and write replaced) that transfers less than asked and refuses at some point.","byte arrays, the disk, F_GETLK from another process","mode combinations × histories"),
"S04":("Histories of up to 50 operations around block boundaries, caches of 1..10000 bytes over memory, disk, short-reading, failing and throwing sources (faults injected at random operations, exceptions repeatedly).","byte array; what the source holds after flush/close; any difference must have been reported","fault points"),
"S05":("Limiters, windows, file windows, buffers, replicators, comparisons and random stacks of adapters over sources with short transfers, failures and exceptions (replication, buffers).","the part of the bytes prescribed by the limits; byte-array model; what every target got","stacking"),
"S06":("Asynchronous reader/writer with rings of 1..65536 bytes over transports that transfer short, end, fail and throw at random points, TSan; FIFO against a string.","data in order, failure reaches the user no later than close","schedules, failure points"),
"S07":("Copying, remainder, arrays, skipping, fill between streams with a random transfer plan and failure point.","amounts moved on both sides, state of the failing side","partial transfers"),
"S08":("Texts with every mixture of line ends, charsets and marks, over short transfers, cut and failing.","splitting by definition; reassembly; iconv-free reference encodings","–"),
"S09":("Conversations over socket pairs with half-closing, two-thread flows, packets, full connections; histories of handle owners with duplications that fail; descriptor 0.","byte queues, an accountant of open handles, freed address lists counted","double close/leaks need histories"),
"S10":("Histories of typed values and texts at any place of own and borrowed memory, and records cut anywhere, in a build with `CHECK_STREAM_STATE=0`.","a byte array with a position; each operation judged on its own","the setting exists for speed and no test is built with it"),
"T01":("Texts in ten character sets (lengths around the internal buffers), malformed input, reuse of converters.","encoders/decoders written from the definitions (not iconv)","–"),
"T02":("Unicode text × protected sets → encode → reference decode and library decode; random SGML text; fixed buffers of every capacity; every entity.","reference decoder over the entity table of the standard (composed/decomposed forms equal)","buffer bounds at every capacity"),
"T03":("Every search/compare function × unit type × counted/terminated, exact allocations, folding, locales.","direct reading; ordering laws (antisymmetry, transitivity)","–"),
"T04":("Copying/editing functions with every capacity, sentinels behind the terminator, exact allocations.","model of the whole destination","–"),
"T05":("Digit strings of all bases around each type's limits, blanks, prefixes, signs; floating point under several locales.","wide arithmetic; from_chars","saturation limits of each width"),
"T06":("Formats and results with lengths around internal buffers, unencodable wide text, process and given locales, time formats.","vsnprintf into a large buffer","internal buffer limits"),
"T07":("All 16-bit units and planes, pairs, texts of bases, marks, surrogates.","definitions from the doc comments, C library classes","–"),
"P01":("89 parsers (all of parser.hpp, narrow/wide/SGML where they exist) over fragments of their language, arbitrary code units and ranges of every kind.","invariants: interval inside the range; the same result whether delimited by count, terminator or exact block (ASan), widened, surrounded by other text, by a fresh or a used parser","for-all over inputs"),
"P02":("Random trees of combinators (to depth 4) over random text.","a reference matcher that interprets the same description; search, alternatives chosen, permutations, case folding","combination space"),
"P03":("Tokens spelled in several ways (digits as text, entities, signs, separators).","reference reading of the token sequence, values as integers/long double","–"),
"P04":("Addresses composed, compacted anywhere, mutated; domain names.","inet_pton for whole addresses, reference reader for the longest prefix","–"),
"P05":("URLs and e-mail addresses composed from random components and mutated.","the composition; reference reader","–"),
"P06":("References with right/wrong control digits, spaced, mutated; all length classes.","digit-by-digit checksums, reference readers","–"),
"P07":("Dates in every format mask, times, angles, phone numbers; near misses; the whole calendar.","reference readers","–"),
"P08":("HTTP messages composed from the grammar, followed by other text, truncated, mutated.","reference readers; the composition","–"),
"P09":("JSON strings, CSS and HTML tokens, MIME types composed from contents with every escape.","the contents; reference readers","–"),
"P10":("Emoticons and formulae from their parts.","reference readers","–"),
"W01":("HTML documents composed by a grammar with optional end tags, raw elements, comments, declarations, conditional sections; mutations; tag soup; cut into chunks; positions; reinsertion of tokens; framed documents.","the composition; nesting invariants; whole against chunks; relinked text against the document (tokens replaced)","document structure × chunking"),
"W02":("Texts of special and non-ASCII characters in exact, counted and terminated buffers; arbitrary escapes.","the text; reference unescaping","–"),
"W03":("Element names in any case, near misses, sequences of start tags, attributes.","the HTML 4.01 DTD written down as content models","91² pairs of elements"),
"F01":("Trees of records of seven formats, found/read/skipped by random means, damaged ones.","bytes laid out by hand; a reference walk","–"),
"F02":("RIFF/WAVE files composed by the library and by an independent writer; cues stripped; structures cut at any byte and read into used objects; more cues than are read at once; damage.","bytes by hand; a reference filter of the chunk tree","–"),
"K01":("Signature files composed of comments, blank lines and (mis)sized signatures; mutilated; tokens at every bound.","composed contents; a reference reading","–"),
}
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
NA=json.load(open(H+"/tools/not_applicable.json"))
seeds=json.load(open(H+"/tools/seed_results.json"))
out=[open(H+"/tools/design_head.md").read().rstrip(),"","## Properties, one by one","",
"Cost: quick checks take 2 to 30 s each on the idle machine (8 workers); thorough ones run ten times the cases and then libFuzzer over the same checks",
"(except thread- and time-bound ones). Bounds: see *Limits*. Counts are those before the driver's `SCALE`.",""]
for p in props:
    i=p["id"]; out.append(f"### {i} {p['title']}"); out.append("")
    if i in NA: out+= ["Not applicable: "+NA[i],""]; continue
    g,o,w=D[i]; src=open(f"{H}/props/{i}.cpp").read()
    cs=re.findall(r"^PBT_CHECK\((\w+), ([^,)]+(?:\*[^,)]+)*)",src,re.M)
    out.append("*Generated*: "+g); out.append("*Oracle*: "+o+("." if not o.endswith(".") else ""))
    if w!="–": out.append("*Why not a test*: "+w+".")
    sc=re.search(r"^// SCALE: (\d+)",src,re.M); k=int(sc.group(1)) if sc else 1
    out.append("*Checks* (quick cases"+(f", ×{k}" if k>1 else "")+"): "+", ".join(f"`{a}` {b.strip()}" for a,b in cs)+".")
    if re.search(r"^// SANITIZE:.*thread",src,re.M): out.append("Built with ThreadSanitizer.")
    mine=[s for s in sorted(seeds) if os.path.isdir(f"{H}/seeded/{s}") and seeds[s]["property"]==i]
    if mine: out.append("*Planted bugs*: "+", ".join(f"{s} ({'caught' if seeds[s]['caught'] else 'MISSED'})" for s in mine)+".")
    out.append("")
out+=["## Planted bugs","","Each is built, demonstrated and run against the check by `tools/seedlib.py` (specifications in `tools/seeds/`). All were written from the property's text and the code.","","| bug | what it breaks | needs | caught by |","|---|---|---|---|"]
for s in sorted(seeds):
    m=f"{H}/seeded/{s}/meta.json"
    if not os.path.exists(m): continue
    m=json.load(open(m)); c=seeds[s]
    out.append(f"| {s} | {m['what_it_breaks']} | {m['needs']} | {(c['property']+' '+', '.join(c.get('by',[]))).strip() if c['caught'] else 'missed'} |".replace("\n"," "))
out+=["",open(H+"/tools/design_tail.md").read().rstrip(),""]
open(H+"/DESIGN.md","w").write("\n".join(out))
# The same in short for MANIFEST.json.
stateful={"L02","C01","S02","S03","S04","S05","S09","S10","M05","G01","R01"}; threads={"C02","C03","C04","S06"}; T={}
for i,(g,o,w) in D.items():
    kind="randomised schedules and histories of threads under ThreadSanitizer" if i in threads else "stateful model-based property-based testing" if i in stateful else "property-based testing with structured generators"
    fuzz="" if re.search(r"^// NOFUZZ: 1",open(f"{H}/props/{i}.cpp").read(),re.M) else "; coverage-guided fuzzing (libFuzzer) of the same checks in the thorough tier"
    T[i]=[f"{kind}, oracle: {o.split(';')[0].rstrip('.')}{fuzz}","Generated-input search: sampling within the sizes given in DESIGN.md, not proof. Trusts the oracle in the driver, compiler and sanitizers."]
json.dump(T,open(H+"/tools/techniques.json","w"),indent=0,ensure_ascii=False)

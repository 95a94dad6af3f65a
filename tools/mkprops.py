#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing, commit the results)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(pid, title, statement, over, text, why, files, mech, claim=True, note="", technique=""):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, claim=claim, note=note, technique=technique))

D="code/include/swoc/DiscreteRange.h"; RBH="code/include/swoc/RBTree.h"; RBC="code/src/RBTree.cc"
IPA="code/include/swoc/IPAddr.h"; IPR="code/include/swoc/IPRange.h"; IPE="code/include/swoc/IPEndpoint.h"; IPS="code/include/swoc/IPSrv.h"
IPC="code/src/swoc_ip.cc"; IPU="code/include/swoc/swoc_ip_util.h"; BWIP="code/src/bw_ip_format.cc"
MAH="code/include/swoc/MemArena.h"; MAC="code/src/MemArena.cc"; AWH="code/include/swoc/ArenaWriter.h"; AWC="code/src/ArenaWriter.cc"
TVH="code/include/swoc/TextView.h"; TVC="code/src/TextView.cc"; SVU="code/include/swoc/string_view_util.h"; SVUC="code/src/string_view_util.cc"
BWH="code/include/swoc/BufferWriter.h"; BFB="code/include/swoc/bwf_base.h"; BFC="code/src/bw_format.cc"; BFX="code/include/swoc/bwf_ex.h"; BFS="code/include/swoc/bwf_std.h"; BFI="code/include/swoc/bwf_ip.h"
ERH="code/include/swoc/Errata.h"; ERC="code/src/Errata.cc"
IDL="code/include/swoc/IntrusiveDList.h"; IHM="code/include/swoc/IntrusiveHashMap.h"
LEX="code/include/swoc/Lexicon.h"; MSP="code/include/swoc/MemSpan.h"; SCA="code/include/swoc/Scalar.h"; VEC="code/include/swoc/Vectray.h"
FIH="code/include/swoc/swoc_file.h"; FIC="code/src/swoc_file.cc"; HSH="code/include/swoc/ext/HashFNV.h"; MET="code/include/swoc/swoc_meta.h"
MODEL="reference-model monitor over generated operation histories, ASan+UBSan build"
DIFF="differential oracle over generated inputs, ASan+UBSan build"

# ---------------------------------------------------------------- interval spaces
prop("S01","Interval space colouring equals a per-value map",
 "After any sequence of mark, fill, erase, blend and clear on an interval space, every value of the metric maps to exactly the payload a per-value map would give: mark overwrites, fill only colours uncoloured values, erase uncolours, and blend combines into coloured values, colours uncoloured values with the blend of a default payload, and uncolours every value for which the blender answers false. Values outside the range given to an operation are never affected, including at the minimum and maximum metric values. An empty range changes nothing.",
 ["histories","inputs"],"every sequence of colouring operations with any ranges (nested, overlapping, adjacent, edge-of-metric, empty) and payloads",
 "Tests paint a few fixed sequences; the code has dozens of overlap/adjacency/coalescing branches whose combinations only appear in longer histories and at metric limits.",
 [D],[("mark/erase/fill/blend algorithms",D),("red-black tree linkage kept in step with the sorted list",RBC)],technique=MODEL)
prop("S02","Space ranges stay sorted and disjoint; all queries agree with contents",
 "At every moment a space iterates, forwards and backwards, over non-empty ranges in strictly increasing order which never overlap, and its count and emptiness agree with that iteration. Looking up a value finds the range containing it if and only if one exists, ordered bound lookups return the correct neighbouring range, and intersecting with a range yields exactly the stored ranges which share a value with it. Painting never leaves two touching ranges whose payloads mark and fill made equal uncombined.",
 ["histories","inputs"],"every history of colouring operations, every probed value and every probed range",
 "Tests look up hand-picked values after short histories; structural corruption of list or tree shows only after particular insert/remove orders.",
 [D,RBH,RBC],[("list linkage and tree linkage of range nodes",D),("find/lower_bound/upper_bound/intersection",D),("left/right most node and rebalancing",RBC)],technique=MODEL)
prop("S03","Lookups in a space stay logarithmic in the number of ranges",
 "Finding the range for a value in a space holding N ranges needs a number of metric comparisons that grows only logarithmically with N, whatever history of insertions and removals (including sorted, reverse sorted and adversarial) produced the space.",
 ["histories"],"every insertion/removal order, at all sizes driven",
 "Functional tests pass with a degenerate (list-shaped) tree; only a comparison-counting metric type observes the depth.",
 [RBC,RBH,D],[("red-black insert fixup, removal, rebalance",RBC)],technique="runtime monitor counting metric comparisons per lookup against a logarithmic bound")
prop("S04","A space creates, copies and destroys every payload exactly once",
 "Every payload instance a space creates is destroyed exactly once, no later than the space's destruction or clearing, none is used after destruction, and exactly one live stored payload exists per stored range. No memory is retained after the space is destroyed.",
 ["histories"],"every history of operations with payload types owning resources",
 "Leaks and double destructions are invisible to tests using trivially destructible payloads without a sanitizer.",
 [D,MAH],[("node creation from the arena/free list and removal",D)],technique="payload lifetime accounting (instrumented payload type) plus ASan and malloc-balance monitor")
prop("R01","Ranges behave as sets of consecutive values",
 "Emptiness, equality, ordering, containment, subset, intersection, hull, adjacency, union test and the reported relationship of two ranges are exactly those of the sets of metric values which they denote, including ranges touching the metric's limits, singletons and empty ranges (as default constructed, cleared or computed).",
 ["inputs"],"all pairs of ranges over small metrics (exhaustive) and random pairs over large metrics",
 "Tests cover a few dozen hand-picked pairs; the relation algebra has many boundary cases.",
 [D],[("range predicates, relationship and edge relationship",D)],technique="exhaustive and random differential oracle against explicit value sets, UBSan build")
# ---------------------------------------------------------------- IP
prop("N01","IP address text parsing accepts exactly valid text and round-trips",
 "Every address printed by the library parses back to the same address, every text form accepted by the platform's standard address parser for that family (other than embedded IPv4 in IPv6) is accepted with the same value, and the documented numeric forms of IPv4 (single value, octal, hexadecimal octets) have their standard value. Text which is not a valid address - out of range or empty octets or quads, too many or too few elements, stray characters, misplaced brackets or separators - is rejected, and the family-neutral type selects the right family. No text, however malformed, causes a read outside it or undefined behaviour.",
 ["inputs"],"all address values and all texts, including random mutations of valid texts",
 "Tests try a couple of dozen strings; malformed-input space is unbounded.",
 [IPA,IPC,BWIP],[("family specific text loaders",IPC),("zero-run compression when printing",BWIP)],technique="differential oracle against inet_pton/inet_ntop/inet_aton reference under ASan+UBSan")
prop("N02","IP address arithmetic, order, masking and classification are exact",
 "Increment, decrement, shifts, bitwise and mask operations on addresses equal the same operation on 32 or 128 bit unsigned integers, order and equality are the numeric ones (with every IPv4 address before every IPv6 address and invalid addresses first, consistently for all comparison operators), and hashes of equal addresses are equal. Byte order conversions and socket address conversions are lossless, and an address is classified as any, loopback, multicast, link local, private or v4-mapped exactly when it lies in the corresponding standard block.",
 ["inputs"],"all addresses, all pairs and triples of addresses of mixed families, all mask widths and shift counts in range",
 "Tests probe single examples per operation; carries across the 64 bit word boundary and mixed-family ordering need systematic inputs.",
 [IPA,IPC,IPU],[("two-word 128 bit arithmetic and reorder",IPC),("mask application and derivation",IPC),("classification predicates in both byte orders",IPU)],technique="differential oracle against __int128 arithmetic, UBSan build")
prop("N03","IP ranges, networks and masks convert exactly and minimally",
 "For every non-empty address range the generated sequence of networks is in increasing order, disjoint, covers exactly the range and has the minimal possible length; a range reports a network mask exactly when it is a single network. Network and range texts parse to exactly the addresses they denote and print back to equal objects, masks convert to and from mask-shaped addresses exactly, and texts with invalid widths, non-mask addresses, mixed families or stray characters are rejected.",
 ["inputs"],"all ranges of both families, all widths, all network/range texts",
 "Tests decompose a handful of ranges; minimality and wrap-around at the top of the address space need many ranges.",
 [IPR,IPC,BWIP],[("network decomposition generator",IPC),("range and network text loaders",IPC),("network membership and bounds",IPR)],technique="differential oracle against an independent greedy decomposition and 128 bit arithmetic")
prop("N04","IP space and IP range set map mixed-family addresses independently",
 "A space of IP ranges with payloads and a set of IP ranges answer every lookup, count, iteration (in both directions, IPv4 ranges before IPv6 ranges) and intersection exactly as two independent per-family interval maps would, for any history of mark, fill, blend, erase and clear over both families. Operations on one family never alter the other, and invalid or empty ranges change nothing.",
 ["histories"],"every history of operations mixing families, including the first and last addresses of each family",
 "Tests exercise each family mostly alone with short histories; combined iteration and cross-family edge cases depend on which family is empty.",
 [IPR,D],[("combined iterators over two family spaces",IPR),("family dispatch of operations",IPR)],technique=MODEL)
prop("N05","Endpoints and services preserve family, address and port",
 "Any address and port stored in an endpoint or service object, converted through socket address structures, and printed and parsed as text, yields the same family, address and port (and copying a socket address keeps all of it); ports are presented in the requested byte order and services compare by address then port. Text with a malformed address, port out of range, or trailing characters is rejected and parsing never reads outside the text.",
 ["inputs"],"all addresses, ports, conversion chains and texts",
 "Tests convert a few constants; conversion chains and malformed texts are not covered.",
 [IPE,IPS,IPC,BWIP],[("tokenizing address, port and rest",IPC),("socket address assignment",IPE),("service assignment and comparison",IPS)],technique=DIFF)
# ---------------------------------------------------------------- memory
prop("A01","Arena allocations are aligned, disjoint, stable and alive until released",
 "Every span returned by an arena has at least the requested size, the requested alignment, lies inside memory reported as contained by the arena, and does not overlap any other live allocation; its contents are never altered by later arena operations. It remains valid until the generation holding it is discarded - in particular across freezing, later allocations, requirements and arena moves - for any block sizes, oversized requests and a caller supplied static block.",
 ["histories"],"every sequence of alloc, require, freeze, thaw, discard, clear, move and destruction, any sizes and alignments",
 "Tests check pointer arithmetic for short scripted sequences; overlap and lifetime bugs appear only when block exhaustion, freezing and alignment interact.",
 [MAH,MAC],[("block allocation and remnant bookkeeping",MAC),("freeze/thaw generation lists",MAC)],technique="shadow-map monitor (canary filled allocations, overlap and alignment checks) over operation histories, ASan+UBSan")
prop("A02","Arena accounting matches reality and all memory is returned",
 "The reported allocated size, reserved size and remaining space always equal what was actually requested from the arena and what the arena actually obtained from the system, freezing and thawing move exactly the right amounts between generations, and requiring space guarantees that amount can be allocated without another reservation. When generations are released, the arena cleared or destroyed, every byte obtained from the system is returned exactly once and a caller supplied block is never released.",
 ["histories"],"every sequence of arena operations",
 "Tests compare a few totals; leaks, double frees and drift need long histories with a malloc-level observer.",
 [MAH,MAC],[("reserved/allocated counters for active and frozen generations",MAC),("block release",MAC)],technique="malloc/free event monitor (sanitizer hooks) reconciled with reported counters over operation histories")
prop("A03","Arena helpers construct, recycle and release objects correctly",
 "Objects made in an arena get the given constructor arguments and suitable alignment, a fixed-type arena reuses a destroyed slot only after its object was destroyed and never hands out a slot twice, and arena localized text equals its source. The polymorphic resource interface and the arena backed output writer preserve all previously written content while growing, for any amount of output and any write pattern.",
 ["histories"],"every sequence of make, destroy, clear, localize, write, commit, discard and reset operations",
 "Tests do a handful of allocations; growth and recycling faults depend on history.",
 [MAH,MAC,AWH,AWC],[("fixed arena free list",MAH),("arena writer reallocation on overflow",AWC),("localize helpers",MAH)],technique=MODEL)
# ---------------------------------------------------------------- text
prop("T01","Text view extraction partitions the text exactly as documented",
 "Prefix, suffix, split, take, clip and remove operations by count, character, character set or predicate yield exactly the documented piece of the original text and leave exactly the documented remainder, dropping only the separator: an absent separator leaves split sources unmodified with an empty result, and gives take results the whole text with an empty source. Every produced view lies inside the original text, for any text including empty, separator-only and out-of-range counts, and tokenizing by repeated take reproduces all tokens in order.",
 ["inputs"],"all texts (exhaustive for short ones over a small alphabet), all separators, sets, predicates and counts",
 "Tests try single examples for some of the roughly forty operations; many suffix/predicate variants are never exercised.",
 [TVH],[("split/take/clip/prefix/suffix families",TVH)],technique="exhaustive and random differential oracle against index-based reference functions, ASan+UBSan")
prop("T02","Trimming, searching and character-set operations are exact",
 "Trimming by character, set or predicate removes exactly the maximal matching run at the requested end or ends and nothing else, searches by predicate return the first or last matching position or none, prefix and suffix tests (with or without case) agree with character comparison, and increment past the end yields an empty view. A character set contains exactly the characters given, for all 256 values, and transformed views yield exactly the transform of each character in order.",
 ["inputs"],"all texts, characters (all byte values), sets and predicates",
 "Tests use a few ASCII strings; high bytes, empty views and all-matching text are the failing cases.",
 [TVH,SVU],[("trim families and find_if/rfind_if",TVH),("character set bit table",TVH),("transform view iteration",TVH)],technique=DIFF)
prop("T03","Text to number conversions are exact, bounded and report what they consumed",
 "Converting text to signed, unsigned, any-radix or floating point numbers yields the exact value of the longest valid numeric prefix (integers saturate at the type's limits instead of overflowing; floating point is within two units in the last place or a relative error of 1e-14), and the reported consumed text is exactly that prefix. Sign, radix prefixes and radix 2 to 36 follow the documented rules and no text causes undefined behaviour.",
 ["inputs"],"all texts and radixes, including extreme magnitudes and malformed text",
 "Tests convert a few dozen constants; overflow, extreme digits and partial matches are unbounded.",
 [TVH,TVC],[("integer conversion with radix detection",TVC),("radix specific conversion and digit table",TVH),("floating point conversion",TVC)],technique="differential oracle against arbitrary-precision/strtod reference, ASan+UBSan")
prop("T04","Text comparisons form consistent orders matching byte comparison",
 "Case sensitive and caseless comparison functions and functors on text views are total orders consistent with equality and with each other: the sign equals that of lexicographic unsigned byte comparison (after folding case for the caseless ones) with a proper prefix ordered before the longer text. Containers keyed by the provided comparison or hash functors therefore find exactly the equal keys, including keys with embedded nul or high bytes.",
 ["inputs"],"all pairs and triples of texts",
 "Tests compare a few literals; antisymmetry, transitivity and prefix cases are quantified over pairs and triples.",
 [SVU,SVUC,TVH],[("strcmp/memcmp/strcasecmp overloads",SVUC),("LessThan and hash functors",TVH)],technique=DIFF)
# ---------------------------------------------------------------- output
prop("B01","Buffer writers never write outside their buffer and count all output",
 "For any sequence of writes, commits, discards, reductions, restrictions, restores, copies and clears, a buffer writer stores exactly the output that fits its current limits, in order, never touches a byte outside its buffer or inside a restricted area, and reports size, extent, capacity, remaining and error state consistently: the extent always counts all output attempted, the error state is set exactly when the extent exceeds the capacity, and rewinding restores the writable state.",
 ["histories"],"every sequence of writer operations over every capacity, including zero",
 "Tests use short scripted sequences with generous buffers; overflow by one and interactions of restrict, discard and copy are history dependent.",
 [BWH,BFC],[("attempted-count versus capacity arithmetic",BWH),("content move within the buffer",BWH)],technique="reference-model monitor with guard bytes around the buffer, ASan+UBSan")
prop("B02","Formatted values match their format specifiers exactly",
 "For any integer, boolean, pointer, character or text argument and any valid combination of fill, alignment, sign, radix prefix, width, precision, type and maximum width, the output equals an independent reference rendering: correct digits in the requested radix and case for the full value range, padding of exactly the missing width on the documented side, precision and maximum width limiting text. Positional, implicit and named arguments select the right values, and literal and doubled-brace text is reproduced exactly.",
 ["inputs"],"all argument values and all specifier combinations",
 "Tests check about a hundred fixed format/value pairs out of a combinatorial space.",
 [BFB,BFC],[("specifier parsing",BFC),("integer rendering and alignment",BFC),("argument selection and literal handling",BFB)],technique="differential oracle against an independent reference formatter over generated specifiers and values, ASan+UBSan")
prop("B03","Any format string is handled safely and equivalently in all forms",
 "For any byte string used as a format, with any number of arguments, formatting either throws the library's invalid-argument error (always, for unbalanced braces, a malformed encoded fill, or a precision or maximum mark without a number) or terminates with output, never reading or writing out of bounds or exhibiting undefined behaviour. A precompiled format gives exactly the output of the same format text, well formed literal braces pass through, references to missing arguments or unknown names produce the error marker in the output without affecting other arguments, and bound names (global or contextual) resolve to the most recent assignment. With a caller supplied extractor the output is exactly the literals, specifiers and captured arguments it delivers, and captures or names are refused where not supported.",
 ["inputs"],"all byte strings as formats (grammar-based, mutated and random), all argument counts",
 "Tests contain a few malformed strings; parser robustness is universally quantified.",
 [BFB,BFC],[("format string extractor",BFC),("specifier property table lookup",BFB),("name maps and bindings",BFB)],technique="grammar-based and mutation fuzzing under ASan+UBSan with a precompiled-versus-direct equivalence oracle")
prop("B04","Truncated output is an exact prefix and the size needed is always known",
 "Formatting any value or format string into a writer of any capacity stores exactly the prefix of the unbounded output which fits and reports exactly the unbounded length as the extent, so that retrying with that capacity succeeds. Printing to or appending to a string gives exactly the unbounded output, after any existing text for appending, whatever the string's prior size and capacity.",
 ["inputs","configurations"],"all formats and values, all buffer capacities from zero to beyond the output length",
 "Tests rarely use exactly-too-small buffers; alignment and nested formatting need look-back space exactly when truncated.",
 [BFB,BWH,BFC],[("local sub-writer and alignment adjustment",BFB),("two-pass printing to strings",BFB)],technique="metamorphic oracle (every capacity versus unbounded output) under ASan+UBSan")
prop("B05","Floating point output is the correctly rounded decimal value",
 "Printing a finite normal floating point value with a given precision yields the decimal expansion of the value rounded to that many fraction digits (within one unit in the last printed digit, trailing digits past the exact expansion may be omitted), with the sign, integral part and leading fraction zeros all present, and padding as specified; an integral value may print without a fraction. Infinities, NaN and zero are reported as such. No value and no precision causes undefined behaviour or out of bounds access.",
 ["inputs"],"all floats and doubles with all precisions, widths, alignments and signs",
 "Tests check about ten values; carries, leading zeros and huge values or precisions are untested.",
 [BFC],[("splitting into whole and scaled fraction parts",BFC)],technique="differential oracle against printf and long double arithmetic, ASan+UBSan(+float-cast) build")
prop("B06","Output adapters render exactly their documented content",
 "Hex dumps show every byte in order and decode back to the same bytes, repeated patterns appear exactly the requested number of times, first-of and conditional wrappers print the selected text or nothing, spans, atomics, bitsets, durations and scalars print their values, dates print the formatted time, and system error values print the matching symbolic name, description and number.",
 ["inputs"],"all byte strings, repeat counts, argument combinations, times and error numbers",
 "Tests check one or two examples per adapter.",
 [BFX,BFS,BFC,BFB],[("hex rendering and decoding",BFC),("errno name table",BFC),("date via strftime",BFC)],technique=DIFF)
prop("B07","IP objects print in the documented formats",
 "Addresses, endpoints, services, ranges, networks and masks print exactly the documented text for every format extension - address, port and family selection, zero or custom filled alignment of elements, radix selection, compact ranges - with IPv6 zero compression applied to the longest (first) run of at least two zero groups. Width and alignment apply to the whole output.",
 ["inputs"],"all addresses, ports and families with all documented extensions",
 "Tests print a handful of addresses; compression choice and extension combinations are combinatorial.",
 [BFI,BWIP],[("zero run detection",BWIP),("extension parsing for endpoints and addresses",BWIP),("compact range output",BWIP)],technique="differential oracle against inet_ntop and an independent reference renderer")
# ---------------------------------------------------------------- errata
prop("E01","Error reports keep every note, in order, with the right severity and code",
 "An error report contains exactly the notes added, in order, each with its text, severity and nesting level, under any history of adding notes, merging reports, copying through return values, moving and clearing; notes below the filter severity are dropped but still count for the overall severity, which is the maximum of all severities given. Success, the code and severity queries and result-carrying wrappers agree with that content, and the printed report shows exactly the retained notes in order with the configured decoration.",
 ["histories"],"every history of report building operations, severities and filter settings",
 "Tests build short reports; merging, moving and filtering interactions are history dependent.",
 [ERH,ERC],[("annotation list in arena memory",ERC),("severity update and filtering",ERH),("report printing and result wrapper",ERH)],technique=MODEL)
prop("E02","Sinks see each abandoned report once and report memory is never leaked",
 "When an error report is destroyed or cleared through the sink protocol, every registered sink is called exactly once for it in registration order with its full content, and reports which were moved from or are empty trigger no call. All memory owned by a report is released when the last holder is destroyed, and text in notes remains valid for the life of the report regardless of the lifetime of the source text.",
 ["histories"],"every history of creation, move, merge, assignment and destruction with any registered sinks",
 "Tests register one sink and drop one report.",
 [ERH,ERC],[("sink registration and dispatch",ERC),("arena owned storage released on reset",ERC)],technique="exactly-once event log monitor plus malloc-balance and use-after-free (ASan) monitors")
# ---------------------------------------------------------------- containers
prop("D01","Intrusive list behaves as a doubly linked sequence",
 "An intrusive list holds exactly the elements inserted and not removed, in the implied order, with consistent forward and backward iteration, head, tail, count and containment, for any history of prepend, append, insert before/after, erase, take, rotate-like transfers, splicing of whole or partial lists, nth access, application and clearing. Removed elements are fully unlinked and reusable and no operation touches elements of other lists.",
 ["histories"],"every history of list operations over several lists, including on heads, tails, singletons and empty lists",
 "Tests cover simple insert and remove sequences.",
 [IDL],[("link maintenance",IDL),("partial list take/insert and count upkeep",IDL)],technique=MODEL)
prop("D02","Intrusive hash map finds exactly its elements through any history",
 "An intrusive hash map contains exactly the inserted and not erased elements, finds an element for a key if and only if one with an equal key is present, keeps equal-key elements adjacent and returns exactly them as the equal range, and iterates over every element exactly once in a bidirectional order, for any history of insert, erase, find, clear and automatic or explicit expansion under any hash distribution. Its size agrees with the contents and expansion loses nothing.",
 ["histories"],"every history of map operations with uniform, colliding and duplicate keys and all expansion policies",
 "Tests insert a few hundred distinct keys with a good hash.",
 [IHM],[("bucket start/count bookkeeping",IHM),("expansion and rehash",IHM)],technique=MODEL)
prop("D03","Small vector behaves as a vector across the inline/dynamic boundary",
 "A small-size-optimised vector holds exactly the elements appended and not removed, in order, equal to an ordinary vector, whether stored inline or dynamically, for any history of append, construct in place, remove last, reserve, copy and move, and iteration and indexing see exactly those elements. Every element is constructed and destroyed exactly once and moved content is neither lost nor duplicated.",
 ["histories"],"every history of operations crossing the inline capacity, for element types owning resources",
 "Tests push a few integers; element lifetime across the storage switch is unobserved.",
 [VEC],[("inline store, transfer to dynamic store",VEC)],technique="reference-model monitor with element lifetime accounting, ASan+UBSan")
prop("L01","Lexicon maps names and values exactly as defined",
 "A lexicon converts every defined value to its primary name, every defined name (primary or alternate, ignoring case) to its value, and everything else to the configured default value, name or handler (or throws if none), regardless of the number of definitions and of how it was built; counts and iteration by value and by name see every definition exactly once, in both directions. Names do not depend on the lifetime of the source text and moving a lexicon preserves all of this.",
 ["histories","inputs"],"every set of definitions (aliases, case variants, multi-value), every lookup, moves and default handlers",
 "Tests define small fixed tables.",
 [LEX,IHM],[("pair of intrusive hash maps by name and value",LEX),("default handlers",LEX)],technique=MODEL)
prop("M01","Memory spans stay within their memory and address the right elements",
 "Every view derived from a memory span - prefix, suffix, sub-span, clipped piece, aligned piece, rebound element type - lies inside the original and covers exactly the documented elements, sizes and byte sizes agree, counts beyond the end are clamped, and a rebind to an element type which does not fit throws. Comparison, containment, apply, fill and copy operations see all and only the elements of the span (for any element size and for untyped spans) and never touch memory outside it.",
 ["inputs","histories"],"all spans, element types, counts and offsets including zero and out of range",
 "Tests use a few arrays; boundary counts, multi-byte elements and untyped spans are sampled only once.",
 [MSP],[("typed and untyped span operations",MSP),("memcmp/memcpy/memset overloads",MSP)],technique="differential oracle against index arithmetic on guarded buffers, ASan+UBSan")
prop("C01","Scaled integer arithmetic is exact with documented rounding",
 "Converting between scaled quantities rounds exactly up or down as requested and implicit conversions are exact; addition, subtraction, multiplication, division, comparison, increment and decrement of scaled quantities with the same, multiple, or unrelated scales equal exact rational arithmetic on the represented values, in the result scale documented for that operation.",
 ["inputs"],"all counts (no overflow of the storage type) over several scale pairs including coprime and non-multiple scales",
 "Tests check a few constants, mostly positive and in multiple scales.",
 [SCA],[("scale conversion templates by ratio case",SCA),("rounding helpers",SCA)],technique="differential oracle against exact integer/rational arithmetic over scale and value grids, UBSan build")
prop("H01","FNV hashes equal the published algorithm for any update chunking",
 "The incremental hash objects produce exactly the published FNV-1a value (32 and 64 bit) of the concatenated input, however the input is divided among updates and after any clear, and transforming updates hash the transformed characters.",
 ["inputs"],"all byte strings and all ways of chunking them",
 "No test computes a known vector for arbitrary chunking.",
 [HSH],[("incremental update",HSH)],technique="differential oracle against an independent FNV-1a implementation")
prop("G01","Scoped value changes are undone on every exit and overload sets dispatch by type",
 "A variable changed for a scope (let) has exactly the new value at the start of the scope and exactly its previous value after it, however the scope is left (normally or by an exception), for any nesting of scopes over the same or different variables, changes made inside the scope, and any movable value type; no object is lost, leaked or destroyed twice. Overload sets built from lambdas (vary) call exactly the one matching the argument type, and case tags select the most preferred viable overload.",
 ["inputs","histories"],"all nestings of scopes, exits and value types",
 "The unit test checks one integer and one string scope left normally.",
 [MET],[("scoped value",MET),("variadic overload helper",MET)],technique=MODEL)
# ---------------------------------------------------------------- files
prop("P01","Path manipulation follows the documented composition rules",
 "Joining paths yields the right operand if absolute, otherwise both joined with exactly one separator; absolute/relative tests, file name, parent and relative parts are the documented substrings, and path values compare and hash by text. Absolute and canonical paths name the same file system object as the source.",
 ["inputs"],"all path texts including empty, root, trailing and repeated separators",
 "Tests check a dozen literals.",
 [FIH,FIC],[("join operator and part extraction",FIC)],technique=DIFF)
prop("P02","File operations have exactly their stated effect and report every error",
 "Loading a file returns its exact bytes, copying makes the destination's content equal the source's whatever it held before, creating directories creates exactly the missing components, removal deletes exactly the named item, and recursive removal deletes exactly the named tree and its reported number of items, never anything reached only through a symbolic link. Status queries report the true type, existence, size and times, and each operation reports success if and only if it had its effect, independent of any earlier error held by the caller.",
 ["inputs","fault_sequences"],"random directory trees, file contents and sizes, operation sequences, missing/forbidden/odd targets",
 "Tests use two or three files under /tmp.",
 [FIH,FIC],[("status, copy, load, remove, remove_all, create_directories",FIC)],technique="independent file system observer (std::filesystem/lstat snapshots) around every operation inside a scratch directory as an unprivileged user")
# ---------------------------------------------------------------- concurrency
prop("X01","Separate objects and shared constant objects can be used concurrently",
 "Threads which use only their own objects, or only constant operations on shared objects (spaces, sets, lexicons, maps, lists, formats, views, ranges), never race on hidden shared state and obtain the same results as a single thread, including the first use of lazily initialised formatting and lookup tables.",
 ["schedules"],"all interleavings of independent-object workloads and shared read-only workloads over 2 to 8 threads",
 "The test suite is single threaded.",
 [BFB,BFC,D,LEX,IHM,ERC,TVC],[("static and lazily initialised tables and formats",BFC),("global name map",BFC),("lazy caches in lookups",IHM)],technique="ThreadSanitizer build under multi-threaded stress with result comparison to a single-threaded run")

NOTE="Held on the executions generated for the given seed and counts (see evidence); not a proof. Trusts the reference model/oracle in harness/, the compiler sanitizers and libstdc++/glibc used as reference."
NA={}
CLAIMED=None
cl=os.path.join(ROOT,"tools","claimed.txt")
if os.path.exists(cl):
    CLAIMED=set(open(cl).read().split())
def main():
    with open(os.path.join(ROOT,"properties.jsonl"),"w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"],title=p["title"],statement=p["statement"],
              quantifier=dict(over=p["over"],text=p["text"]),why_tests_cant=p["why"],
              anchors=dict(files=p["files"],mechanism=[dict(name=a,where=b) for a,b in p["mech"]])))+"\n")
    checks=[];na=[]
    for p in P:
        if CLAIMED is not None and p["id"] not in CLAIMED:
            na.append(dict(property=p["id"],reason=NA.get(p["id"],"check under construction; not claimed yet"))); continue
        checks.append(dict(property=p["id"],quick_cmd="python3 bin/check.py %s --tier quick"%p["id"],
          thorough_cmd="python3 bin/check.py %s --tier thorough"%p["id"],evidence_file="evidence/%s.json"%p["id"],
          technique="runtime monitoring: "+p["technique"],level="exploration",level_note=p["note"] or NOTE))
    m=dict(version=1,setup_cmd="python3 bin/check.py --setup",checks=checks,not_applicable=na)
    json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
    open(os.path.join(ROOT,"MANIFEST.json"),"a").write("\n")
if __name__=="__main__": main()

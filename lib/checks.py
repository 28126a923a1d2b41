CHECKS = {
 'C01': dict(parts=[dict(name='main', src='c01.cpp', uar=0), dict(name='corpus', src='c01.cpp', uar=0), dict(name='splice', src='c01.cpp'), dict(name='u16', src='c01.cpp', uar=0, flags=['-DCH=char16_t','-DSMALL'])],
   coverage='Tree of all template strings over a 26-character alphabet and over a 35-token alphabet: complete to a depth, then extended as long as the reference parser calls the string incomplete; single and double edits, cuts and splices of a corpus. Every string is formatted from a buffer of its exact size under ASan/UBSan with library assertions on, and its outcome (text or exception) compared with the reference interpreter.'),
 'C02': dict(parts=[dict(name='main', src='c02.cpp', uar=0), dict(name='wide', src='c02.cpp', uar=0, flags=['-DCH=wchar_t']), dict(name='u16', src='c02.cpp', uar=0, flags=['-DCH=char16_t'])],
   coverage='All sequences of up to 3 (thorough 4) items over 34 fields and literals, all sequences of up to 5 (6) position-consuming fields, all literal texts of up to 5 (6) characters, every index form, every name character; each template through two dynamic stores filled in different orders, a static store and call arguments, for char, wchar_t and char16_t, against the reference interpreter (text or exception, and the calls made to user formatters).'),
 'C03': dict(parts=[dict(name='main', src='c03.cpp', uar=0), dict(name='u16', src='c03.cpp', uar=0, flags=['-DCH=char16_t'])],
   coverage='All comparisons of 68 operands with six operators; every negation and truncation of a condition; all chains of up to 3 (thorough 4) alternatives over 42 condition/branch pairs and 10 endings including effects on numbering and calls of user formatters; all literals of up to 4 (5) pieces as taken branch, skipped branch, operand and key; every spacing variant; all sequences of up to 5 (6) scripts and fields; against the reference interpreter.'),
 'C04': dict(parts=[dict(name='main', src='c04.cpp', uar=0), dict(name='wide', src='c04.cpp', uar=0, flags=['-DCH=wchar_t'])],
   coverage='The full product of fill and alignment, sign, alternate form, zero, width and type over boundary values of every integral type, every value of the 8 and 16 bit types, booleans, characters, code points, pointers and enumerations with signed, unsigned, bool, character and 64 bit underlying types, for narrow and wide characters, against an independent rendering model.'),
 'C05': dict(parts=[dict(name='main', src='c05.cpp', uar=0), dict(name='wide', src='c05.cpp', uar=0, flags=['-DCH=wchar_t'])],
   coverage='For float, double and long double: every form and precision over every binade edge, power of ten and rounding edge; the full product of fill, alignment, sign, zero, width, precision and form over signed zeros, infinities, NaNs and ordinary values; every precision that lengthens the output past the internal buffers; dynamic width and precision; all leading bit patterns of float. Compared with std::to_chars plus an independent padding model; default output must read back.'),
 'C06': dict(parts=[dict(name='main', src='c06.cpp', uar=0), dict(name='wide', src='c06.cpp', uar=0, flags=['-DCH=wchar_t']), dict(name='u16', src='c06.cpp', uar=0, flags=['-DCH=char16_t']), dict(name='u8', src='c06.cpp', uar=0, flags=['-DCH=char8_t'])],
   coverage='All strings of up to 5-6 (thorough 7) code points over an alphabet of 1, 2, 3 and 4 byte, single and double width code points under every width, precision, fill and alignment of a grid, passed as view, string, pointer, string_ref and string_container; every code point (its width, truncation, padding) and every fill code point of the first blocks (thorough: all); long texts; ill-formed texts; for char, char8_t, char16_t and wchar_t.'),
 'C07': dict(parts=[dict(name='main', src='c07.cpp', uar=0), dict(name='wide', src='c07.cpp', uar=0, flags=['-DCH=wchar_t']), dict(name='u16', src='c07.cpp', uar=0, flags=['-DCH=char16_t']), dict(name='u8', src='c07.cpp', uar=0, flags=['-DCH=char8_t'])],
   coverage='All code-unit sequences of up to 4-5 (thorough 6) units over an alphabet of lead, continuation, surrogate, control, quote and ordinary units; every pair of bytes and every UTF-16 unit; every code point, as text, code point and character; each in a buffer of its exact size, the escaped text read back by an independent unescaper and compared with the reference escaping.'),
 'C08': dict(parts=[dict(name='main', src='c08.cpp', uar=0, flags=['-O0', '-DROUTES=321']), dict(name='iter', src='c08.cpp', uar=0, flags=['-O0', '-DROUTES=148']), dict(name='wide', src='c08.cpp', uar=0, flags=['-O0', '-DCH=wchar_t', '-DROUTES=98']), dict(name='u16', src='c08.cpp', uar=0, xchar=1, flags=['-O0', '-DCH=char16_t', '-DROUTES=65']), dict(name='u8', src='c08.cpp', uar=0, xchar=1, flags=['-O0', '-DCH=char8_t', '-DROUTES=136']), dict(name='u32', src='c08.cpp', uar=0, xchar=1, flags=['-O0', '-DCH=char32_t', '-DROUTES=65'])],
   coverage='All templates of up to 3 (thorough 4) tokens over 16 fields, conditionals, literals and failing fields, and a ladder of output sizes, through every entry point: format, vformat and format_to with and without a locale, into strings, vectors, lists, deques, raw memory with canaries, stream buffers and a checking single-pass iterator; formatted_size; format_to_n for every n; formatted_range, moved and assigned at every position; print and println to files, standard output and streams; for all five character types.'),
 'C09': dict(parts=[dict(name='main', src='c09.cpp', uar=0, std='c++23', flags=['-O0']), dict(name='wide', src='c09.cpp', uar=0, flags=['-O0', '-DCH=wchar_t']), dict(name='u16', src='c09.cpp', uar=0, flags=['-O0', '-DCH=char16_t'])],
   coverage='Every index and slice of a window around (and far outside) every string of up to 4-5 (thorough 6) code points over 1 to 4 byte alphabets in five forms, every size 0 to 6 of eight kinds of contiguous range, tuples and pairs, maps with every integer key type and string keys with every subset of a key alphabet and every lookup; all attributes; all chains of two accesses over nested values and of three over some; optional, variant, expected, tm; against the reference interpreter under ASan.'),
 'C10': dict(parts=[dict(name='main', src='c10.cpp')],
   coverage='Every Unicode scalar value through every encoder, decoder, conversion and scanning call in all five character types; every sequence of up to 4-5 (thorough 5-7) code units over alphabets of lead, continuation, surrogate, plain and invalid units, in exactly-sized heap buffers under ASan: length under each policy for invalid data, offsets from either end, iteration in both directions, iterator arithmetic, substrings, decoding and conversion against a reference segmentation; comparison of all pairs of short texts across all pairs of encodings.'),
 'C11': dict(parts=[dict(name='main', src='c11.cpp')],
   coverage='Breadth-first search over the histories of two string containers (about 75 operations each: every construction, assignment, append, element write, ownership and swap, with outside texts, each other and themselves as sources, well- and ill-formed, short and across the small-string boundary) against a model of the visible text and of who owns or borrows what, under ASan; every window of every short text as a string reference with every search; stream extraction of every short input.'),
 'C12': dict(parts=[dict(name='main', src='c12.cpp')],
   coverage='Breadth-first search over the operation sequences of small_vector (construct, copy, move, assign, insert, erase, push, pop, resize, reserve, shrink, swap, append_range, aliasing arguments) with a std::vector twin stepped along, tracked element lifetimes, a tracking allocator, and an injected failure at every constructor call and allocation of every transition.'),
 'C13': dict(parts=[dict(name='main', src='c13.cpp')],
   coverage='Breadth-first search over the operation sequences of fixed_vector and fixed_flat_map with std::vector / std::map twins, tracked element lifetimes, every fill level including full and empty, every key of the alphabet looked up in every state, and an injected failure at every constructor call of every transition.'),
 'C14': dict(parts=[dict(name='main', src='c14.cpp')],
   coverage='Breadth-first search over the ownership histories of several optional_unique_ptr objects (single and array, plain and stateful deleters) with a reference model of owners, counting every deletion.'),
 'C15': dict(parts=[dict(name='main', src='c15.cpp', flags=['-O0']), dict(name='stores', src='c15.cpp', flags=['-O0']), dict(name='wide', src='c15.cpp', flags=['-O0', '-DCH=wchar_t']), dict(name='wide stores', src='c15.cpp', flags=['-O0', '-DCH=wchar_t'])],
   coverage='Breadth-first search over the histories of one, two and three format arguments (about 50 ways of making one from values of every category, owning and borrowing, trivially and not trivially copyable user types of several sizes, with failing copies; copy, move, assignment, self-assignment, swap, assignment of the handle inside) against a model of value, ownership and identity, with tracked lifetimes of every user value; every typed access of every kind of argument; static stores for every interleaving of up to 4 positional and named arguments in every name order, as temporaries, variables and constants; dynamic stores for all sequences of up to 4 (thorough 5) additions, moves and clearings, and growth past the inline capacity with a move at every point; every index, name and indexing value looked up in each; narrow and wide.'),
 'C16': dict(parts=[dict(name='elements', src='c16.cpp', uar=0, flags=['-O0', '-DPARTN=1']), dict(name='composites', src='c16.cpp', uar=0, std='c++23', flags=['-O0', '-DPARTN=2']), dict(name='wide', src='c16.cpp', uar=0, thorough_only=1, flags=['-O0', '-DCH=wchar_t', '-DPARTN=1'])],
   coverage='Every kind of range (contiguous, linked, ordered, views, maps, sets, joins), tuple, pair, optional, variant, expected and wrapper over every content of up to 3 elements of a small alphabet, nested up to depth 3, crossed with every range and element specification (and with specifications that must be refused), against a compositional reference renderer; narrow and (thorough) wide.'),
 'C17': dict(parts=[dict(name='main', src='c17.cpp', uar=0), dict(name='wide', src='c17.cpp', uar=0, flags=['-DCH=wchar_t']), dict(name='u16', src='c17.cpp', uar=0, flags=['-DCH=char16_t'])],
   coverage='All ordered pairs of script values from every kind with boundary contents under all six relations, through the value type, through format arguments and through templates; the laws of comparison over all pairs and triples; truthiness, conversions and typed access of every value; all histories of up to 3 (thorough 4) copies, moves, assignments and swaps of two values.'),
 'C18': dict(parts=[dict(name='main', src='c18.cpp', uar=0, flags=['-O0'])],
   coverage='All combinations of every named foreground and background colour with every subset of the emphases, built in every order by every operator; each over several values and specifications through styled and print with a style; against a reference that builds the escape sequences and reads them back.'),
 'C19': dict(parts=[dict(name='main', src='c19.cpp', uar=0, flags=['-O0', '-DPRINTING=1']), dict(name='wide', src='c19.cpp', uar=0, flags=['-O0', '-DCH=wchar_t'])],
   coverage='For each of 40 templates over arguments of every kind (user types with formatters, accessors, stream operators and iterators of their own) through 11 entry points: one run for every memory allocation, every output write and every user call failing, then a repetition; for short ones every ordered pair of failures; the same with one store used throughout; every allocation failure while filling a store, with the failing step repeated; files under every buffering and streams under every exception mask failing after every byte, with and without short writes. Checked: the very exception reaches the caller, allocations and objects balance, the output is the beginning of the full output, repeating gives the full output.'),
 'C20': dict(parts=[dict(name='main', src='c20.cpp', uar=0, flags=['-O0']), dict(name='wide', src='c20.cpp', uar=0, flags=['-O0', '-DCH=wchar_t'])],
   coverage='Every strftime conversion with every modifier over 20 boundary times, all pairs (thorough: all triples) of conversions, against strftime (and put_time with a marking facet for L); the default layout over the product of ordinary and out-of-range fields against asctime; booleans over five naming facets; streamed values (all texts of up to 3 (4) code points, values that change the state of the stream or fail, standard types) and all paths of up to 3 (5) characters; each over every fill, alignment and width of a grid, with and without L and a locale; stream output of the library types.'),
}

#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=None)))
I='include/papilio/'
p('C01','Any template, valid or not, ends in output or an exception, safely',
  'For every format string (well formed, truncated, or garbage) and every argument list, a formatting call terminates and either produces text or throws an exception derived from std::exception; it never reads outside the template or the arguments, never invokes undefined behaviour, never loops forever and never terminates the process. '
  'A malformed replacement field, an out-of-range or unknown argument in an evaluated position, an unknown attribute, an unsupported indexing and an invalid specification are reported by an exception rather than by silently producing text.',
  ['inputs'],'All strings over a token alphabet of the template language up to a bounded length, and every prefix and single-token mutation of a corpus of well-formed templates, against fixed argument lists of every kind.',
  'Tests run a few dozen hand-picked templates, nearly all well formed; memory errors at the end of a truncated template are invisible to them because the build has no sanitizer.',
  [I+'core.hpp',I+'core.inl','src/core.cpp',I+'format.hpp'],
  [('script interpreter and field/access/condition parsers',I+'core.hpp: script_base, basic_interpreter'),('spec skipping for branches not taken',I+'core.hpp: formatter_traits'),('error reporting','src/core.cpp')],
  observe=['papilio::vformat return value / exception'])
p('C02','A template renders as its literals and selected arguments, in order',
  'The output of a template is the concatenation, in order, of its literal text (with doubled braces standing for one brace) and, for each replacement field, the selected argument rendered under that field\'s specification. '
  'A field selects by position (implicit positions count up from zero, including the positions used for nested width and precision), by explicit index, or by name, followed by any chain of attributes and indexings applied left to right; implicit numbering after an explicit index is an error. '
  'Templates and names may contain any Unicode text the grammar permits, and the result does not depend on how the arguments were supplied (call arguments, static or dynamic argument stores).',
  ['inputs','histories'],'All sequences of fields and literals up to a bounded length over every field shape (implicit, explicit, named, nested, chained), for static and dynamic stores.',
  'Tests show single fields or a handful of combinations; the interaction of numbering mode, nesting and access chains is combinatorial.',
  [I+'core.hpp',I+'format.hpp',I+'access.hpp','doc/en/script.md'],
  [('parse contexts: automatic/manual numbering',I+'core.hpp: basic_format_parse_context'),('argument stores',I+'core.hpp: basic_static_format_args, basic_dynamic_format_args'),('replacement field execution',I+'core.hpp: basic_interpreter::exec_repl')],
  observe=['papilio::format, vformat'])
p('C03','A conditional field renders exactly the first branch whose test holds',
  'A script field {$ c1 ? b1 : $ c2 ? b2 : ... : e} renders the branch of the first condition that is true, otherwise the final alternative if there is one, otherwise nothing; exactly one branch at most is rendered and branches not selected contribute no output and no call of a formatter; they still count for implicit numbering and the arguments they name must exist. '
  'A condition is a value, a negated value, or one of == != < <= > >= between two values, where a value is an integer, floating or string literal or a replacement field, and strings are compared as strings, numbers as numbers.',
  ['inputs'],'All conditional fields over an alphabet of condition operands, six operators, negation, branch kinds (text, field, field with spec, empty) and up to four alternatives, plus literal text around them, for arguments of every comparable kind.',
  'Tests exercise a few two-way scripts; order of evaluation, skipping and nesting of alternatives need every truth assignment.',
  [I+'core.hpp','src/core.cpp','doc/en/script.md'],
  [('exec_script / compare / parse_condition',I+'core.hpp: basic_interpreter'),('operator and constant lexing',I+'core.hpp: script_base')],
  observe=['papilio::vformat'])
p('C04','Integers, booleans, pointers and enums render exactly as specified',
  'For every integral, boolean, pointer and enumeration value and every valid specification, the output is the value in the requested base, sign mode, prefix and letter case, padded to the requested width in display columns with the requested fill and alignment (right by default for numbers, zero padding placed after sign and prefix). '
  'Without a specification the output is plain decimal (true/false for booleans, the enumerator name for enumerations, 0x-prefixed lower-case hexadecimal for pointers); character presentation renders the code point with that number and rejects numbers that are not code points.',
  ['inputs'],'The full product of fill, alignment, sign, #, 0, width and type over boundary values of every built-in integral type (all values of 8-bit types).',
  'Tests sample a few values per presentation; the product of flags, widths and extreme values is not covered.',
  [I+'core.hpp',I+'format.hpp','doc/en/builtin_formatter.md'],
  [('standard spec parsing',I+'format.hpp: simple_formatter_parser, std_formatter_parser'),('integer rendering and padding',I+'core.hpp / format.hpp: std_formatter_base, int_formatter'),('enum names',I+'utility.hpp: enum_name')],
  observe=['papilio::format'])
p('C05','Floating-point values render exactly as specified',
  'For every finite, infinite or NaN value of float, double and long double and every valid specification, the digits are those of std::to_chars for the requested form and precision (shortest round-trip form when neither is given, precision 6 when only a form other than hexadecimal is given), with the requested sign, letter case and padding. '
  'Default output of a finite value parses back to the same value; a value never fails to render merely because it is large or its precision is high; zero padding goes between sign and digits and does not apply to infinities and NaN.',
  ['inputs'],'The full product of fill, alignment, sign, 0, width, precision 0..40 and form over every binade boundary, powers of ten, halves, denormals, extremes, infinities and NaN.',
  'Tests check about a dozen values; rounding, buffer sizes and flag interaction depend on the value and precision together.',
  [I+'format.hpp','doc/en/builtin_formatter.md'],
  [('float rendering and padding',I+'format.hpp: float_formatter')],observe=['papilio::format'])
p('C06','Text is truncated and padded by display width, never inside a code point',
  'A string or character rendered with width, fill, alignment and precision occupies max(width, columns of the kept text) display columns: precision keeps the longest prefix of whole code points that fits into that many columns, padding is added on the requested side (right side by default, centred padding differs by at most one with the larger part at the end), and the fill may be any code point. '
  'The kept part is copied byte for byte; behaviour is the same for narrow, wide, UTF-8, UTF-16 and UTF-32 strings.',
  ['inputs'],'All strings up to a bounded length over an alphabet with 1-, 2-, 3- and 4-byte and double-width code points, crossed with every width, precision, fill and alignment in range and every character type.',
  'Tests have a few CJK examples; correctness at the exact truncation boundary depends on every mixture of widths.',
  [I+'core.hpp',I+'format.hpp',I+'utf/codepoint.hpp',I+'utf/codepoint.inl','src/utf/codepoint.cpp'],
  [('string/codepoint formatters',I+'format.hpp: string_formatter, codepoint_formatter'),('display width',I+'utf/codepoint: estimate_width'),('fill and alignment',I+'core.hpp/format.hpp: fill_impl')],observe=['papilio::format'])
p('C07','Escaped (?) output is printable, unambiguous and loses nothing',
  'Debug output of a string or character is its text with control characters below U+0020, backslashes, double quotes (in strings) or single quotes (in characters) and code units that are not valid text replaced by escape sequences (\\t \\n \\r \\" \\\' \\\\, \\u{hex} for other control characters, \\x{hex} for each ill-formed unit) and everything else verbatim, without surrounding quotes, so that the original sequence of code units can be recovered from it exactly. '
  'This holds for every sequence of code units in every character type, valid or not; a character that is no code point by itself may be refused instead.',
  ['inputs'],'Every single code point; all code-unit sequences up to a bounded length over an alphabet of lead, continuation, surrogate, control, quote and ordinary units for each character type.',
  'Tests contain a few escapes; ill-formed sequences are a combinatorial family with mostly out-of-bounds failure modes.',
  [I+'format.hpp',I+'core.hpp'],[('escaping',I+'core.hpp: format_context_traits::append_escaped'),('debug presentation',I+'format.hpp')],observe=['papilio::format("{:?}")'])
p('C08','Every output route produces the same text',
  'For the same template and arguments, format, vformat, format_to, the appending and wide/UTF variants, formatted_size, format_to_n, formatted_range, print/println and stream output agree: same characters, formatted_size is their number, format_to_n writes exactly the first n of them and returns the number and the end of what was written, and formatted_range yields the same sequence element by element. '
  'Nothing is written past the returned end.',
  ['inputs','histories'],'A grid of templates and argument lists crossed with every route, every n from 0 past the size, every output-iterator kind and every character type.',
  'Tests compare one or two routes on one template each; off-by-one truncation needs every n.',
  [I+'format.hpp',I+'fmtfwd.hpp',I+'print.hpp',I+'xchar.hpp','src/format.cpp','src/print.cpp','src/xchar.cpp',I+'core.hpp'],
  [('truncating/counting iterators',I+'utility.hpp, format.hpp'),('lazy range',I+'format.hpp: formatted_range'),('printing',I+'print.hpp')],observe=['every public formatting entry point'])
p('C09','Indexing, slicing and attributes select what the value contains',
  'In a replacement field, indexing with i selects element i (negative i counts from the end), slicing with a:b selects the elements from a up to b with the same conventions and both ends clamped to the value, and an attribute selects the documented attribute, for strings (by code point), contiguous ranges, maps (by key), tuples and pairs, and wrapped values; chains compose. '
  'An index, key or attribute that does not exist is reported or yields an empty value as documented and never reads outside the value.',
  ['inputs'],'Every index and every index pair in a window around every container size from 0 to 6, for every supported container kind and string type, and all chains of two accesses.',
  'Tests use in-range indices on one container size; edges, clamping and empties are the whole risk.',
  [I+'access.hpp',I+'accessor/ranges.hpp',I+'accessor/tuple.hpp',I+'accessor/vocabulary.hpp',I+'accessor/misc.hpp',I+'accessor/chrono.hpp',I+'utility.hpp','doc/en/builtin_accessor.md'],
  [('accessors',I+'accessor/*.hpp'),('index_range normalisation',I+'utility.hpp: index_range'),('chained access',I+'core.hpp: script parse_access')],observe=['papilio::format'])
p('C10','UTF encoding, decoding and scanning agree and stay in bounds',
  'For every Unicode scalar value, encoding to and decoding from UTF-8, UTF-16 and UTF-32 are mutually inverse and yield the standard encodings; for every text, length in code points, offset of the n-th code point (from either end), forward and backward iteration and conversion between encodings are all consistent with one another. '
  'On ill-formed or truncated input every one of these operations stays within the given units and follows its stated policy for invalid data (replace, skip, stop or throw); the value decoded for an ill-formed unit is not specified, but counting, offsets and iteration agree about where it begins and ends.',
  ['inputs'],'Every scalar value; all code-unit sequences up to a bounded length over alphabets of representative lead, continuation, surrogate and plain units for the three encodings; every offset of each.',
  'Tests use a few words of well-formed text; agreement at every offset and safety on ill-formed data need all short sequences.',
  [I+'utf/codepoint.hpp',I+'utf/codepoint.inl',I+'utf/stralgo.hpp','src/utf/codepoint.cpp','src/utf/stralgo.cpp'],
  [('decoder',I+'utf/codepoint.hpp: decoder'),('strlen / index_offset',I+'utf/stralgo.hpp'),('code point iterators',I+'utf/codepoint.hpp, utf/string.hpp')],observe=['utf:: API'])
p('C11','UTF strings behave as sequences of code points with value semantics',
  'Under every sequence of operations (construction, borrowing, copying, moving, assigning, appending, resizing, clearing, slicing, searching, comparing, converting, iterating) a UTF string container or reference behaves as the corresponding abstract sequence of code points. '
  'A container that owns its text never shares it with another: changing, moving or destroying one object never changes what another owning object contains, and obtaining ownership copies exactly the text that was visible. A container that borrows (which a plain copy of a container does) shows its source\'s text for as long as that source is alive and unmodified.',
  ['histories'],'All operation sequences up to a bounded depth on two string objects over a small alphabet with multi-unit code points, from owning, borrowing and empty initial states, for each character type.',
  'Tests apply one or two operations to a fresh string; aliasing and ownership errors appear only across histories.',
  [I+'utf/string.hpp','src/utf/string.cpp'],[('borrow/own switch',I+'utf/string.hpp: basic_string_container'),('views',I+'utf/string.hpp: basic_string_ref')],
  state=[('ownership','whether the container owns its text',I+'utf/string.hpp')],observe=['utf::string_container, utf::string_ref'])
p('C12','The small-buffer vector behaves as a vector and never leaks',
  'Under every sequence of operations a small_vector holds the same elements in the same order, with the same return values and the same exceptions for bad access, as std::vector would, whether its elements live inside the object or on the heap and across every transition between the two. '
  'Every element is constructed and destroyed exactly once, all memory goes back to the allocator that provided it, and if a constructor or the allocator throws at any point nothing leaks and the container remains destructible and consistent.',
  ['histories','fault_sequences'],'Breadth-first exploration of all reachable states under the full operation menu up to a size bound for several inline capacities, and re-execution of every transition with a failure injected at each constructor call and each allocation.',
  'Tests run fixed short scripts without failures; mode transitions combined with failures and aliasing are never exercised.',
  [I+'container.hpp'],[('inline/heap switch',I+'container.hpp: small_vector')],
  state=[('storage mode','elements inline or on heap',I+'container.hpp: small_vector'),('size/capacity','element count and room',I+'container.hpp')],observe=['small_vector API, element and allocator instrumentation'])
p('C13','Fixed-capacity vector and map behave as vector and map up to capacity',
  'Under every sequence of operations a fixed_vector holds the elements std::vector would hold and a fixed_flat_map the associations std::map would hold, in order, until an operation would exceed the fixed capacity, which is refused with std::length_error leaving the contents unchanged. '
  'Lookups of absent keys report absence for every key and every fill level including empty, and every element is constructed and destroyed exactly once even when construction throws.',
  ['histories','fault_sequences'],'Breadth-first exploration of all reachable states for capacities 0 to 4 over a small key/value domain under the full operation menu, with failure injection.',
  'Tests fill one capacity once; boundary states (empty, full, absent key above all keys) and failures are not enumerated.',
  [I+'container.hpp'],[('fixed storage',I+'container.hpp: fixed_vector'),('sorted insertion and lookup',I+'container.hpp: fixed_flat_map')],observe=['fixed_vector, fixed_flat_map API'])
p('C14','An optionally owning pointer deletes what it owns exactly once',
  'Under every sequence of construction, adoption, assignment, move, swap, release and reset over optionally owning pointers (single object and array, plain or custom deleter) every object handed over with ownership is deleted exactly once, an object handed over without ownership is never deleted, and the pointer always reports the object and ownership the history implies.',
  ['histories'],'All operation sequences up to a bounded depth on two pointers and a pool of tracked objects, for object and array forms and stateful deleters.',
  'Tests check isolated operations; double deletion and leaks arise from combinations.',
  [I+'memory.hpp'],[('ownership flag',I+'memory.hpp: optional_unique_ptr'),('compressed storage',I+'memory.hpp: compressed_pair')],
  state=[('ownership flag','whether the pointee is deleted',I+'memory.hpp')],observe=['optional_unique_ptr API, deleter calls'])
p('C15','Formatting arguments keep denoting the value they were made from',
  'An argument, and any copy, move, assignment or store of it, always denotes the value it was created from with the same type category and content; user-defined values are held or referenced so that each held copy is destroyed exactly once and never used afterwards (a copy of an argument that owns its value may refer to the value the original keeps). '
  'Looking up an argument by index or name in a static or dynamic store returns the one supplied for it, absent ones are reported, and dynamic stores behave so under every sequence of appends, insertions and clears.',
  ['histories'],'All sequences up to a bounded depth of copy/move/assign operations among arguments of every category, and of store operations against a list-plus-map model, with tracked user-defined values of small and large size.',
  'Tests build one argument at a time; lifetimes across assignment between categories are not tested.',
  [I+'core.hpp',I+'core.inl'],[('type-erased handle',I+'core.hpp: basic_format_arg::handle'),('argument stores',I+'core.hpp')],observe=['basic_format_arg, format_args API'])
p('C16','Ranges, tuples, joins and wrappers render by composing their elements',
  'The rendering of a range, map, set, tuple, pair, joined range, optional, variant, expected or other wrapper is its opening text, its elements each rendered under the nested element specification (for ranges and joins; elements of tuples and wrappers are rendered without one), separators between consecutive elements only, and closing text, as the range specification demands (n, m for pairs, s and ?s for characters), for every nesting. '
  'Strings and characters inside such composites are elements, not ranges, and empty and single-element composites are rendered consistently with the same rule. A specification the composite or its elements do not support is an error.',
  ['inputs'],'All composites up to depth 3 and size 3 over a small element alphabet for every range/tuple/wrapper kind, crossed with every specification combination.',
  'Tests show one or two ranges; empty/nested/separator combinations are a product space.',
  [I+'formatter/tuple.hpp',I+'formatter/vocabulary.hpp',I+'formatter/misc.hpp',I+'format.hpp','doc/en/builtin_formatter.md'],
  [('range_formatter/tuple_formatter',I+'format.hpp, formatter/tuple.hpp'),('joiner',I+'utility.hpp, formatter')],observe=['papilio::format'])
p('C17','Script values compare by value, consistently with each other',
  'Comparing two script values orders numbers by numeric value across all numeric kinds (integers with integers exactly; as single-precision numbers when either side is floating, with equality up to the documented tolerance), orders strings by code points, and treats a string and a number as neither equal nor ordered; equality is symmetric, < and > are each other\'s mirror, values that order as equivalent are equal, and at most one of <, ==, > holds unless the two lie within the tolerance of each other. '
  'Truthiness is: non-zero number, non-empty string, true. Copies, moves and conversions of a value keep its kind and content, and a value never converts to the other kind.',
  ['inputs'],'All ordered pairs of values from every kind with boundary contents, and all six relations on each, through the value type and through templates.',
  'Tests compare a few same-kind pairs; cross-kind and boundary pairs are not covered.',
  [I+'access.hpp',I+'core.hpp','src/access.cpp'],[('value comparison',I+'core.hpp: basic_variable'),('condition evaluation',I+'core.hpp: basic_interpreter::compare')],observe=['basic_variable API, papilio::vformat'])
p('C18','Text styles wrap output in matched escapes and nothing else',
  'Styled output consists of the escape sequences selecting exactly the requested foreground, background and emphasis, then the value rendered as without style, then a reset if and only if something was set; combining styles yields the union of what they request (two different colours for the same ground cannot be combined). '
  'With nothing requested the output equals the unstyled output.',
  ['inputs','histories'],'All combinations of foreground, background (every named colour) and every subset of emphases, built in every order, over several values and output routes.',
  'Tests use a few combinations; subsets and construction orders are not covered.',
  [I+'color.hpp','src/color.cpp',I+'print.hpp'],[('style encoding',I+'color.hpp: text_style')],observe=['papilio::styled, print with style'])
p('C19','A mid-formatting failure propagates, leaks nothing, corrupts nothing',
  'When a user formatter, accessor, stream operator, output iterator or allocation fails at any point of a formatting operation the failure reaches the caller unchanged; a file that cannot be written is reported as a std::system_error, and an output stream that fails records it in its state as its exception mask asks. In every case every temporary is released, what was already written is a prefix of the full output, and repeating the call afterwards with the same arguments gives the full output.',
  ['fault_sequences'],'For each template of a corpus over every entry point: one run per failure point (every output-iterator write, every memory allocation, every user formatter, accessor and iterator call, every byte of a file or stream under every buffering) up to the last; for short templates every pair of failures one after the other; every allocation failure while filling a store.',
  'Tests never inject failures; each failure point is a separate execution.',
  [I+'core.hpp',I+'format.hpp',I+'print.hpp',I+'container.hpp','src/format.cpp'],[('RAII of contexts and buffers',I+'core.hpp, format.hpp')],observe=['exceptions, allocation balance, output prefix'])
p('C20','Dates, times, locale-aware and streamed values render like the standard facilities',
  'Calendar and clock values render as std::put_time / strftime would for the given conversion specification and as the fixed default layout (that of asctime) without one; the locale passed (the classic one when none is, never the global one; for print to a stream, that of the stream) shows only where L requests it: in the names of booleans, in calendar values and in streamed values. Types rendered through their stream operator give exactly what streaming them writes, and paths their native or generic form, then padded like a string. What the library itself writes to streams (strings, code points, joined ranges, error codes) is the text itself.',
  ['inputs'],'All conversion specifiers singly and in pairs over boundary dates and times; the default layout over the product of ordinary and out-of-range fields; booleans over several naming facets, streamed values of every kind and paths over every fill, alignment and width of a grid, with and without L, with and without a locale.',
  'Tests format one date and one grouping.',
  [I+'formatter/chrono.hpp',I+'locale.hpp',I+'format.hpp','src/locale.cpp','src/formatter/*'],[('tm formatting',I+'formatter/chrono.hpp'),('locale flag',I+'format.hpp'),('streamable formatter',I+'format.hpp')],observe=['papilio::format'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P), max(len(x['title']) for x in P))

import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
core="include/papilio/core.hpp"
p("C01","Output is the script's literal text with each field replaced in order",
 "Formatting a well-formed script yields exactly its literal text, with each doubled brace becoming a single brace, and with each replacement field replaced in place by the text of its argument. Nothing is dropped, duplicated, reordered or re-interpreted: text that comes from an argument is never treated as script. The result depends only on the script and the arguments.",
 ["inputs","programs"],"all well-formed scripts (any Unicode literal text, any number, order and adjacency of fields, escapes and scripted fields) and all argument lists, in the narrow and the wide character type",
 "The tests try a few dozen scripts; the guarantee is about every interleaving of literal runs, escapes and fields, including adjacent fields, multi-byte text next to braces, and arguments whose text itself contains braces.",
 [core,"src/format.cpp","src/core.cpp"],[("interpreter main loop (literal runs, escapes, field dispatch)","core.hpp basic_interpreter::run_once/run_impl"),("literal copying","core.hpp format_context_traits::append")],
 ["return value of vformat/format"],[("parse position","next unread script code unit","core.hpp basic_format_parse_context::m_it"),("output","text written so far","core.hpp basic_format_context::m_out")])
p("C02","A scripted field prints exactly the branch its conditions select",
 "The branches of a scripted field are tried from left to right: the branch of the first condition that is true is printed, the else branch is printed only when no condition is true, and nothing is printed when there is neither. Branches that are not selected contribute no output, but the script is still parsed past them, so the text after the field is unaffected. A condition is true exactly when its comparison holds or its value is non-zero / non-empty, and a negated condition is true exactly when the value is not.",
 ["inputs","programs"],"all scripted fields with any number of else-if branches and an optional else, every comparison operator, every operand kind (boolean, integer, floating point, string, argument field), string or field branches, and every truth assignment of the conditions",
 "Which branch is printed depends on the truth assignment of all conditions; the tests fix a handful of two-branch fields and constants and never enumerate assignments, operators and operand kinds.",
 [core,"include/papilio/core.inl"],[("condition parsing and evaluation","core.hpp basic_interpreter::parse_condition, exec_op"),("branch execution or skipping","core.hpp basic_interpreter::exec_script, exec_branch, skip_branch, skip_spec")],["return value of vformat"])
p("C03","Every malformed script is rejected with the documented error",
 "For every script and every argument list, formatting terminates and either produces the output or reports one of the library's documented errors; it never crashes, hangs or reads outside the script or an argument. A script that is not well-formed is always rejected, with the error kind that names its first defect. A script that is well-formed is never rejected as malformed.",
 ["inputs","programs"],"all sequences of script characters of any length, including every truncation of a valid script, and all argument lists",
 "Tests list a few malformed scripts per error code; the guarantee quantifies over every string, and the interesting ones (truncations in the middle of a nested construct) are combinatorially many.",
 [core,"src/core.cpp"],[("script errors","core.hpp script_base::error_code, basic_interpreter_base::throw_error/throw_end_of_string"),("format_error / invalid_format raised by formatters","core.hpp std_formatter_parser::parse, simple_formatter_parser::parse"),("bounds checks on script access","core.hpp parse_indexing_value, parse_string, skip_ws")],["exception type and script error code leaving vformat"])
p("C04","Each field formats the argument it designates by index, order or name",
 "A field with an index formats that argument, a field with a name formats the argument passed under that name, and fields with neither take the positional arguments in order, each one exactly once, including fields nested in a specification and fields in branches that are not selected. Once a script has used an explicit index, a field relying on automatic numbering is an error, and designating an argument that does not exist is an error. Naming an argument never affects automatic numbering.",
 ["inputs","programs","histories"],"all scripts mixing automatic, indexed and named fields (also in dynamic width and precision, conditions and both kinds of branches) and all argument lists",
 "Automatic numbering is state carried through the whole script; tests exercise one or two consecutive fields and never skipped branches combined with nested fields.",
 [core],[("automatic numbering","core.hpp basic_format_parse_context::next_arg_id/check_arg_id/enable_default_arg_id"),("field-name parsing","core.hpp basic_interpreter_base::parse_field_id, parse_field_name"),("argument lookup","core.hpp format_args_base::get")],["return value or exception of vformat"],[("next automatic index","count of automatic fields so far","core.hpp basic_format_parse_context::m_default_arg_id")])
p("C05","Chained access reaches the designated part of an argument",
 "A field followed by indices, slices and attributes formats the value obtained by applying them from left to right: element by position or key (negative positions count from the end where documented), the slice with clamped bounds, or the named attribute. An access that the value does not support is reported as an error, and an access outside the value has the documented empty result. The source argument is never modified, and the value reached is the one stored in the argument even when intermediate results are temporaries.",
 ["inputs","programs"],"all chains of index, slice and attribute accesses over strings (counted in code points), contiguous ranges, maps, tuples, pairs, optionals, variants and calendar values, with every position and bound including out-of-range and extreme ones",
 "Tests use two or three positions per container; the guarantee covers all bounds (start after end, before the beginning, past the end), all keys, and chains several accesses deep.",
 [core,"include/papilio/access.hpp","include/papilio/accessor/ranges.hpp","include/papilio/accessor/tuple.hpp","include/papilio/accessor/vocabulary.hpp","include/papilio/accessor/chrono.hpp","include/papilio/accessor/misc.hpp"],[("access chain","core.hpp basic_interpreter_base::parse_chained_access/access_impl, basic_format_arg::index/attribute"),("accessors","accessor/*.hpp"),("index normalisation","access.hpp slice::normalize, core.hpp / utf string substr")],["return value or exception of vformat"])
p("C06","Width, fill and alignment pad every formatted value the documented way",
 "Whenever a field gives a width, the output is padded with the fill character (space unless given) up to exactly that width and never truncated, on the side or sides selected by the alignment; without an explicit alignment numbers and pointers are right-aligned and everything else is left-aligned. Centered text puts the extra fill character on the right. Widths and precisions may be given literally or by another argument with the same result, and a specification that does not follow the documented grammar, or an option the type does not support, is an error.",
 ["inputs","programs"],"all combinations of fill (any Unicode code point), alignment, sign, alternate form, zero padding, literal or dynamic width and precision, locale flag and type letter, over integers, booleans, characters, strings, floating point values, pointers and enumerations",
 "The specification is a product of eight independent options over eight argument types; tests touch a few dozen of the combinations and mostly one option at a time.",
 [core],[("specification grammar","core.hpp std_formatter_parser::parse"),("padding","core.hpp std_formatter_base::fill, int_formatter/string_formatter/float_formatter::format")],["return value or exception of vformat"])
p("C07","Integers, booleans, characters, pointers and enumerations render exactly",
 "An integer is rendered with all its digits in the requested base, with the sign option, base prefix, letter case and zero padding that the specification asks for, so that the text read back in that base gives the same integer; the character presentation gives the character with that code or an error if there is none. Booleans render as true/false or as the numbers one and zero, characters as themselves or as their code, pointers as their address in hexadecimal, and enumerations as the name of their value or the underlying number.",
 ["inputs"],"all values of all integer types including their minimum and maximum, both booleans, all Unicode code points, null and non-null pointers, all enumerators, under every combination of sign, alternate form, zero padding, width and presentation type",
 "Tests format small constants; exactness is a statement about all 64-bit values in four bases and every option combination, where the failures are at the extremes.",
 [core],[("integer conversion","core.hpp int_formatter::format/conv_to"),("boolean, code point, pointer, enum formatters","core.hpp formatter<bool>, codepoint_formatter, formatter<const void*>, enum_formatter")],["return value of vformat"])
p("C08","Strings are cut, measured and escaped by code point and display width",
 "A string is rendered unchanged unless a precision or debug form is asked for. A precision keeps the longest prefix of whole code points whose display width (two columns for wide characters) does not exceed it, and padding counts display width, not bytes. The debug form escapes control characters, backslashes and the type's own quote (double for strings, single for characters), and malformed code units as their hexadecimal value, and leaves everything else as it is.",
 ["inputs"],"all strings and characters (any code points, empty, malformed narrow text) under all widths, precisions, alignments and debug forms",
 "Cut points interact with multi-byte and double-width characters at every position; tests contain one or two emoji examples.",
 [core,"include/papilio/utf/codepoint.hpp"],[("precision and width","core.hpp string_formatter::get_string_width/format"),("display width","utf/codepoint.hpp codepoint::estimate_width"),("escaping","core.hpp format_context_traits::append_escaped")],["return value of vformat"])
p("C09","Floating point values render in the requested notation and precision",
 "A floating point value is rendered as the correctly rounded decimal or hexadecimal text of the requested notation with exactly the requested precision, however long that text is; without any notation or precision it has the fewest digits that read back as the same value, in general notation. Sign option, letter case, zero padding, width and alignment apply around that text, and infinities and not-a-number are written as words that are never zero-padded.",
 ["inputs"],"all finite values of magnitude from subnormal to the maximum, zeros of both signs, infinities and not-a-number, for single and double precision, under all notations, precisions, signs, widths and alignments",
 "Tests format one or two values such as 3.14; lengths, signs of zero, carries when rounding and very long texts only appear for particular values and precisions.",
 [core],[("float conversion","core.hpp float_formatter::format")],["return value of vformat"])
p("C10","Ranges, tuples and wrappers print every element once in order",
 "A range prints all its elements in order, separated by comma and space inside square brackets (braces for sets and maps, with colon-separated key and value), each element exactly as it would print alone under the element specification, and the range options change only brackets and separators as documented. Tuples and pairs print in parentheses, optionals and variants print the value they hold or a placeholder, and a joined range prints its elements with the given separator between them and nowhere else.",
 ["inputs","programs"],"all ranges of any length (empty, nested, sequences, sets, maps, bit vectors, characters), tuples, pairs, optionals, variants and joined ranges, with every range option and element specification",
 "Tests print a single three-element container per kind; emptiness, nesting, options and element specifications multiply.",
 [core,"include/papilio/format.hpp","include/papilio/formatter/tuple.hpp","include/papilio/formatter/vocabulary.hpp","include/papilio/formatter/misc.hpp","include/papilio/formatter/filesystem.hpp"],[("range formatter","core.hpp range_formatter"),("tuple formatter","formatter/tuple.hpp tuple_formatter"),("optional/variant/expected","formatter/vocabulary.hpp"),("joiner","format.hpp formatter<joiner>")],["return value of vformat"])
p("C11","Every entry point produces the same text",
 "For the same script and arguments, formatting to a string, to an output iterator, to a stream, through the type-erased interface, lazily as a range of characters, and in the narrow or wide character type all produce the same text, and the reported size is the length of that text. The bounded form writes exactly the first n code units of it (all of it when it is shorter), reports how many it wrote and where it stopped, and writes nothing beyond. The line-printing form adds exactly one newline.",
 ["inputs","programs","histories"],"all scripts and argument lists, all bounds n (zero, inside a multi-byte character, inside a field, exact, larger), and all ways of stepping, moving and finishing the lazy range",
 "The tests check one script per entry point; agreement is relational, and the bound can fall anywhere in the output.",
 ["include/papilio/format.hpp","include/papilio/print.hpp","include/papilio/xchar.hpp","src/format.cpp","src/print.cpp","src/xchar.cpp"],[("entry points","format.hpp format/format_to/format_to_n/formatted_size/formatted_range, print.hpp print/println"),("bounded output","format.hpp format_to_n_wrapper, core.hpp basic_interpreter::run_if")],["return values, written buffers, stream contents"])
p("C12","Argument collections keep every argument under its position and names",
 "An argument collection returns, for every position and every name, exactly the argument that was put there, reports exactly the number of positional and named arguments it holds, and reports an error for a position or name it does not hold. This stays true under any sequence of additions, replacements of the whole content and clearing, and a reference to a collection always shows the same content as the collection. Where the same name is given twice the documented one is kept.",
 ["histories","inputs"],"all sequences of adding positional and named arguments one by one or in groups, clearing and looking up, over the static, dynamic and reference collections",
 "Tests build one or two fixed collections; the property is about every history of additions and lookups.",
 [core],[("static collection","core.hpp static_format_args"),("dynamic collection","core.hpp basic_dynamic_format_args::emplace/append/clear"),("reference","core.hpp basic_format_args_ref")],["indexed_size, named_size, get, contains, operator[] and formatted output"])
p("C13","An argument value keeps its kind and content when copied, moved or assigned",
 "An argument value reports exactly one kind, and visiting or extracting it yields the value it was created from. After any sequence of copies, moves, swaps and assignments between argument values, each one still holds (or still refers to) what the sequence put there, including values of user types; a value that owns a separately stored object destroys it exactly once and a copy of it only refers to it. Formatting an argument never changes it.",
 ["histories","inputs"],"all sequences of construct, copy, move, assign, swap and destroy over argument values of every kind (fundamental, string, small and large user types, referenced user types, empty)",
 "Lifetime errors need particular histories (assigning over a different kind, self-assignment, moving between storage strategies) that the tests do not perform.",
 [core],[("argument value","core.hpp basic_format_arg"),("user type storage","core.hpp basic_format_arg::handle, handle_impl_ptr, handle_impl_soo")],["type queries, visit results, formatted output, construction/destruction counts of user types"])
p("C14","Unicode transcoding is lossless and total",
 "Converting well-formed text between the narrow, UTF-16, UTF-32 and wide encodings preserves the sequence of code points, so that a round trip gives the original text. Lengths, byte counts, offsets and surrogate tests agree with the Unicode encoding rules for every code point and every code unit. Malformed or truncated input is handled as its documented error mode says, without reading outside the text.",
 ["inputs"],"all Unicode code points, all well-formed texts, and all sequences of bytes (including truncated, overlong and stray trailing bytes) in every length and error mode",
 "Tests use a handful of strings; the encoding rules have boundaries at every length class and malformed input has unbounded variety.",
 ["include/papilio/utf/codepoint.hpp","include/papilio/utf/codepoint.inl","include/papilio/utf/stralgo.hpp","src/utf/codepoint.cpp","src/utf/stralgo.cpp"],[("code point encode/decode","utf/codepoint.hpp codepoint, decoder"),("length and offset algorithms","utf/stralgo.hpp strlen, index_offset, byte_count")],["conversion results, lengths, code point values"])
p("C15","String views index, slice, search and compare by code point",
 "A Unicode string view behaves as the sequence of code points of its text: indexing, iteration in both directions, slicing, prefix and suffix removal, prefix and suffix tests, searching and comparison all give the result of the same operation on that sequence. Negative indices and slice bounds count from the end, and slices outside the text are empty. Operations that shrink the view never let it leave the original text.",
 ["inputs","histories"],"all well-formed texts in every encoding, all positive and negative indices and bounds, and all sequences of view-shrinking operations",
 "Each operation must agree with the code point sequence for every text and position; tests pick a few positions in two strings.",
 ["include/papilio/utf/string.hpp","src/utf/string.cpp","include/papilio/utf/stralgo.hpp"],[("string view","utf/string.hpp basic_string_ref, detail::str_impl")],["operation results"])
p("C16","A Unicode string container never changes text it does not own",
 "A Unicode string container behaves as an independent sequence of code points under any sequence of assignments, appends, replacements, pushes, pops, swaps, moves and clears. A container that refers to outside text takes its own copy before the first change, so neither the outside text nor any other container is altered by it. Ownership queries tell the truth, and after a copy is taken the container no longer depends on the outside text.",
 ["histories"],"all sequences of operations over several containers and borrowed texts, in narrow and wide encodings",
 "Ownership is history-dependent state; tests perform one operation per container.",
 ["include/papilio/utf/string.hpp","src/utf/string.cpp"],[("copy on write","utf/string.hpp basic_string_container::obtain_ownership/to_str"),("mutators","utf/string.hpp basic_string_container")],["contents, has_ownership, sizes of all containers after every operation"],[("owned/borrowed","whether the text is held or viewed","utf/string.hpp basic_string_container::m_data")])
p("C17","Small vectors behave as sequences across the inline/heap boundary",
 "A small vector holds exactly the sequence of elements that its history of insertions, removals, resizes, assignments, copies, moves and swaps puts there, whether they are stored inline or on the heap, and also when the value inserted is one of its own elements. Its capacity is never below its size or its inline capacity, elements do not move while the capacity suffices, and it is stored inline exactly when it says so. Every element is constructed and destroyed exactly once, also when an operation fails.",
 ["histories","fault_sequences"],"all operation histories over several vectors and inline capacities (including zero), and every point at which an element copy or an allocation can fail",
 "Crossing the inline capacity in both directions and self-insertion need multi-step histories; tests perform short fixed ones.",
 ["include/papilio/container.hpp","src/container.cpp"],[("small vector","container.hpp small_vector, small_vector_base")],["contents, size, capacity, storage queries, element life counts after every operation"])
p("C18","Fixed vectors and fixed flat maps hold what their history put there",
 "A fixed vector holds exactly the sequence its history of operations puts there and refuses, leaving its content unchanged, to grow past its capacity. A fixed flat map holds at most one value per key in key order: insertion reports whether it inserted and keeps the old value unless replacement was asked for, and lookup and removal find exactly the stored keys. Access to a missing position or key is reported as an error.",
 ["histories"],"all operation histories over small capacities, keys and values, including insertion in any order, into a full container and of the container's own elements",
 "Sortedness and uniqueness depend on insertion order and fullness; tests insert a couple of keys in one order.",
 ["include/papilio/container.hpp","src/container.cpp"],[("fixed vector","container.hpp fixed_vector"),("fixed flat map","container.hpp fixed_flat_map")],["contents, sizes, returned positions and flags, exceptions"])
p("C19","An optional-ownership pointer frees what it owns exactly once",
 "A pointer that may or may not own its object deletes it exactly once if it owns it, with the deleter it was given, and never if it does not. Moving and swapping transfer the object, its ownership and its deleter, copying yields a non-owning alias, releasing and resetting give up or replace the object as documented, and the ownership query always tells the truth. Comparisons are those of the stored addresses.",
 ["histories"],"all sequences of construct, copy, move, assign, swap, reset, release and destroy over several pointers, single objects and arrays, stateless and stateful deleters",
 "Double or missing frees need histories of several steps over several pointers; tests check single steps.",
 ["include/papilio/memory.hpp"],[("optional ownership","memory.hpp optional_unique_ptr"),("storage of pointer and deleter","utility.hpp compressed_pair")],["get, has_ownership, deleter calls"])
p("C20","Styled output encloses the text between its escape codes and a reset",
 "Printing with a style emits exactly the escape codes of the style's attributes and colors, in the documented order, then the formatted text, then one reset; with an empty style it emits only the text. Combining styles accumulates attributes and keeps the color given, so that every style that is set appears exactly once. The text between the codes is the same as without a style.",
 ["inputs","configurations"],"all combinations of attributes, foreground and background colors, all ways of combining them, and all scripts",
 "There are hundreds of combinations of attributes and colors; tests print two of them.",
 ["include/papilio/color.hpp","src/color.cpp","include/papilio/print.hpp"],[("style value and codes","color.hpp text_style"),("styled print","print.hpp print")],["stream contents"])
p("C21","User types are formatted through the extension point they provide",
 "A user type is formatted by the extension it provides (its own formatter, a format function found with the type, or stream output), which receives the specification of its field, the arguments and the locale, and whatever it writes appears in the output at the field's place. Parsing continues exactly where the extension stopped, and text, code points and nested formatting written by it are not altered. A type with no usable extension, or a specification its extension cannot take, is reported as an error and not ignored.",
 ["inputs","programs"],"all user types over the supported kinds of extension, all field specifications, nesting of formatted output inside an extension, in any position of a script",
 "Tests have one user type per kind and one script each; the guarantee is about the interaction of the extension with every position, specification and surrounding script.",
 [core,"include/papilio/formatter/misc.hpp"],[("formatter selection","core.hpp detail::select_formatter, formatter_traits"),("extension adaptors","core.hpp adl_format_adaptor, streamable_formatter"),("writing operations","core.hpp format_context_traits, format_context")],["return value or exception of vformat"])
p("C22","Script variables convert and compare consistently",
 "A script variable holds exactly the boolean, (signed 64-bit) integer, (single precision) floating point or string value it was given, converts to another kind with the documented result or reports an error, and is true exactly when it is non-zero or non-empty. Comparison of two variables is that of their values: equality is symmetric and consistent with ordering, numbers of different kinds compare by numeric value, and a string is never equal to nor ordered against a number.",
 ["inputs","histories"],"all pairs of variables of all kinds and values (extremes, fractions, empty and multi-byte strings), all conversions and assignments",
 "Consistency is a relation over all pairs and triples of values; tests compare a few pairs.",
 [core],[("variable","core.hpp basic_variable")],["conversion results, comparison results"])
p("C23","Calendar and locale-dependent values render as their fields say",
 "A calendar time renders in the fixed twenty-four character form when no specification is given, and as its strftime-style specification says otherwise; its attributes give its individual fields. A locale is used only where a field asks for it, and then boolean names are those of that locale; without the locale flag the output does not depend on any locale.",
 ["inputs","configurations"],"all calendar values in range, all supported specifications, all locales and all fields with and without the locale flag",
 "Tests format one date and one custom locale; the field widths and names vary with every value.",
 ["include/papilio/formatter/chrono.hpp","include/papilio/accessor/chrono.hpp","include/papilio/locale.hpp",core],[("calendar formatting","formatter/chrono.hpp"),("locale reference","locale.hpp locale_ref"),("boolean names","core.hpp formatter<bool>")],["return value of vformat"])
p("C24","Running a script in steps gives what running it at once gives",
 "The interpreter can be run in steps: one step handles exactly one ordinary character, one escaped brace, one replacement field or one scripted field with all its branches, and a call that asks for a number of steps does that many, or as many as are left, and says how many it did. However a run is cut into steps, and whether it goes on with the context or with a copy of it, the text written so far, the position in the script and the argument numbering are those of the uninterrupted run up to there, and so is the final text or error. The interpreter with extended error information accepts and rejects the same scripts and reports a position inside the script. Looking up a single field yields the value that the field would format and the end of its name.",
 ["inputs","histories"],"all scripts (well-formed or not), all ways of cutting a run into steps, ordinary and debugging interpreters, all fields and access chains",
 "A script has exponentially many ways of being cut; the tests run whole scripts only and never call the stepping functions.",
 [core],[("steps","core.hpp basic_interpreter::run_once, run_n, run_if, run"),("state of a run","core.hpp basic_interpreter::interpreter_context"),("single access","core.hpp basic_interpreter::access"),("extended errors","core.hpp basic_interpreter_base::extended_error")],["returned counts, position of the context, text written, exceptions, value of access"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80; print(x["id"],len(x["statement"].split(". ")))
